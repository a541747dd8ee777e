"""What each property's check builds and runs."""
def X(name, src, libs=("core",), cases=(20000, 400000), **k):
    d = dict(name=name, src=[src] if isinstance(src, str) else list(src), libs=list(libs), cases=cases)
    d.update(k)
    return d

NOTES = {}
import os as _os
# the same histories with the threads and the clock under a deterministic scheduler (harness/detsched.h)
SCHED = dict(libs=["pool"], variant="threads", cxx="clang++", defs=["-DSCHED", "-fsanitize-coverage=edge,trace-pc-guard", "-fsanitize-coverage-allowlist=" + _os.path.join(_os.path.dirname(_os.path.dirname(_os.path.abspath(__file__))), "engine", "sched.allow")], opt="-O0")
TECH = {}

CHECKS = {
 "F01": dict(rule="random memory windows (allocation up to 9 cells per direction with every point checked, or up to 2e9 cells with sampled points; any offset and extent, every constructor); non-trivial = the window has an offset and more than one cell, a large allocation, or two windows that differ",
   exes=[X("windows", "f01.cpp", ["mem"], (300000, 6000000), fuzz=60)]),
 "F02": dict(rule="random parent windows (offset, extent, allocation) and split patterns, all parts computed and every cell of the allocation accounted for, and parent windows of up to 2^31 cells with parts compared arithmetically along each direction; non-trivial = more than one part and an uneven split",
   exes=[X("tiling", "f02.cpp", ["mem"], (300000, 4000000), fuzz=60)]),
 "F03": dict(rule="random fields, reduced-validity fields, sub-windows and masks; random sequences of iterator operations (step, jump, index, subtract, compare) against the list of cell addresses; non-trivial = at least two jumps over a region of more than one cell, or an algorithm over more than three cells",
   exes=[X("iterators", "f03.cpp", ["mem"], (400000, 4000000), fuzz=90)]),
}
CHECKS["F07"] = dict(rule="random integer triplets and ghost records (small and large values, near-equal pairs), and random interior sizes, ghosts, boundary flags for all 16 field types; non-trivial = triplets with differing components, unequal ghost records, or at least one physical boundary",
   exes=[X("algebra", "f07.cpp", ["mem"], (200000, 4000000), fuzz=60)])
CHECKS["F04"] = dict(rule="random sequences of constructing (external, zero-filled, with values; whole or windowed), copying, re-windowing, reshaping, writing, assigning and destroying fields of double and float, all cells of all fields and buffers compared with the model after every step; non-trivial = at least one alias and one whole-field assignment",
   exes=[X("fields", "f04.cpp", ["mem"], (60000, 800000), san=True, fuzz=120)])
CHECKS["F06"] = dict(rule="random sequences of pool requests and returns of double, float and unsigned blocks, with every outstanding block filled and re-read; in a process of its own (fresh pool) or in a long-lived pool; non-trivial = a returned block was handed out again",
   exes=[X("fresh", "f06.cpp:-DFRESH", ["mem"], (16000, 200000), san=True), X("longlived", "f06.cpp", ["mem"], (40000, 800000), san=True, fuzz=60)])
CHECKS["F05"] = dict(rule="random sequences of obtaining scratch fields (by window or from prototypes of other field types, with boundaries and one-cell directions), copying, assigning (self, shared, empty, raw), detaching, writing and destroying handles; plus several threads obtaining and releasing scratch fields at once; non-trivial = two or more scratch fields and more than six operations",
   exes=[X("handles", "f05.cpp", ["mem"], (120000, 1500000), san=True, fuzz=120), X("threads", "f05.cpp:-DMT", ["mem"], (1600, 30000), variant="threads", tsan=True, workers=4, hang=60),
         X("schedules", "f05.cpp:-DMT", cases=(4000, 100000), hang=60, **dict(SCHED, libs=["mem"]))])

def TU(f, n): return ["%s:-DTU=%d,-DTUFILE=\"tu%d.inc\"" % (f, i, i) for i in range(n)]
CHECKS["E01"] = dict(gen=[("gen_nebo.py", ("--profile", "point", "--tus", "8", "--per", "64"), ("--profile", "point", "--tus", "16", "--per", "150")),
        ("gen_nebo.py", ("--profile", "point", "--float", "--prefix", "fl", "--tus", "3", "--per", "40"), ("--profile", "point", "--float", "--prefix", "fl", "--tus", "6", "--per", "150"))],
   rule="a table of every operator on every pair of operand kinds plus random expression trees (depth up to 5) generated from the seed (every second one built in a function of its own, half of these from local copies of the operands, and kept in a variable), each compiled and assigned on random grids, ghosts and data, and compared cell by cell with the same tree evaluated on plain numbers; non-trivial = an expression of at least three nodes over more than one cell",
   exes=[X("exprs", TU("e01.cpp", 8), src_thorough=TU("e01.cpp",16), libs=["mem"], cases=(400000, 6000000)),
         X("float", [s.replace('"tu', '"fl') for s in TU("e01.cpp", 3)], src_thorough=[s.replace('"tu', '"fl') for s in TU("e01.cpp", 6)], libs=["mem"], cases=(100000, 2000000))])
CHECKS["E02"] = dict(gen=[("gen_nebo.py", ("--profile", "mix", "--tus", "8", "--per", "44"), ("--profile", "mix", "--tus", "16", "--per", "120"))],
   rule="random expressions over operands that each have their own ghost counts, valid region, boundary flags and (sub-)window, invalid cells poisoned; after the assignment every cell of target memory (with guard cells) and operands is compared with the model; non-trivial = the operands' common valid region differs from the target's",
   exes=[X("region", TU("e02.cpp", 8), src_thorough=TU("e02.cpp",16), libs=["mem"], cases=(400000, 6000000))])
CHECKS["E03"] = dict(gen=[("gen_nebo.py", ("--profile", "interior", "--tus", "8", "--per", "56"), ("--profile", "interior", "--tus", "16", "--per", "140"))],
   rule="random expressions assigned to the interior of random fields whose operands have their own ghosts, valid regions and windows; every cell of the target's memory compared with the model; non-trivial = the operands' common valid region differs from the target's",
   exes=[X("interior", [s + ",-DINTERIOR" for s in TU("e02.cpp", 8)], src_thorough=[s + ",-DINTERIOR" for s in TU("e02.cpp", 16)], libs=["mem"], cases=(400000, 6000000))])
CHECKS["E04"] = dict(gen=[("gen_nebo.py", ("--profile", "cond", "--tus", "8", "--per", "36"), ("--profile", "cond", "--tus", "16", "--per", "110"))],
   rule="a table of every kind of condition (boolean, comparison, mask) with every kind of value (scalar, field, expression) in one- and two-clause chains, every logical operator on every pair of condition kinds, plus random chains of up to five clauses nested in expressions (every second one built in a function of its own and kept in a variable), on random grids with tie-rich data; non-trivial = an expression of at least three nodes over more than one cell",
   exes=[X("cond", [s + ",-DCOND" for s in TU("e01.cpp", 8)], src_thorough=[s + ",-DCOND" for s in TU("e01.cpp", 16)], libs=["mem"], cases=(400000, 6000000))])
CHECKS["E06"] = dict(gen=[("gen_nebo.py", ("--profile", "reduce", "--tus", "8", "--per", "14"), ("--profile", "reduce", "--tus", "16", "--per", "50")),
        ("gen_nebo.py", ("--profile", "reduce", "--float", "--prefix", "fl", "--tus", "3", "--per", "10"), ("--profile", "reduce", "--float", "--prefix", "fl", "--tus", "6", "--per", "40")),
        ("gen_stencil.py", ("--profile", "reduce", "--prefix", "st", "--tus", "8", "--per", "5"), ("--profile", "reduce", "--prefix", "st", "--tus", "16", "--per", "20"))],
   rule="minimum, maximum, sum, norm (and interior variants, folds with caller-supplied functions) of random fields, generated expressions and generated operator expressions whose operands have their own ghosts, valid regions and windows with poisoned invalid cells; non-trivial = more than one cell reduced",
   exes=[X("reduce", TU("e06.cpp", 8), src_thorough=TU("e06.cpp", 16), libs=["mem"], cases=(300000, 5000000)),
         X("float", [s.replace('"tu', '"fl') for s in TU("e06.cpp", 3)], src_thorough=[s.replace('"tu', '"fl') for s in TU("e06.cpp", 6)], libs=["mem"], cases=(80000, 1500000)),
         X("operators", [s.replace('"tu', '"st') + ",-DOPS" for s in TU("e06.cpp", 8)], src_thorough=[s.replace('"tu', '"st') + ",-DOPS" for s in TU("e06.cpp", 16)], libs=["core", "stencil"], libopt={"stencil": "-O0"}, cases=(100000, 3000000), builds=True)])
TECH["E08"] = "random typed program generation, compiler verdict against the generator's typing rules"
CHECKS["E08"] = dict(gen=[("gen_types.py", ("--per", "12000"), ("--per", "150000"))],
   rule="random statements (assignments, interior assignments, operator applications, copies, handles, masks, iterators) over all 16 field types in double and float, single values, masks and library operators, half of them with one operand of another type, all judged by the compiler; non-trivial = the statement is longer than 110 characters (at least two operands)",
   exes=[X("statements", "e08.cpp", [], (30000, 300000))])
T = dict(libs=["pool"], variant="threads")
CHECKS["T01"] = dict(rule="random histories of scheduling (from the main thread, from several threads at once, from inside tasks, through copies of the pool), waiting with and without threshold or time limit, on pools of every kind with 1 to 6 workers and random task lengths; gated tasks finishing one at a time (or cleared) while several threads wait for thresholds; the same histories again with threads and clock under a deterministic scheduler, whose schedule (preemption between any two basic blocks, spurious wake-ups, early time-outs) is drawn with the case; non-trivial = at least four tasks (more than one for looped and library pools)",
   exes=[X("once", "t01.cpp", cases=(24000, 300000), hang=30, **T),
         X("schedules", "t01.cpp", cases=(24000, 600000), hang=60, **SCHED)])
CHECKS["T02"] = dict(rule="random histories of scheduling, letting the one running task finish, clearing and counting on a single-worker pool, each started task compared with a model queue; the schedulers also as containers; non-trivial = at least two tasks queued at once and two run (three for containers)",
   exes=[X("order", "t02.cpp", cases=(60000, 800000), hang=60, **T)])
CHECKS["T03"] = dict(rule="random histories of scheduling, resizing (up, down, by another thread), limiting the active workers, losing workers to tasks that end their thread, waiting and destroying, for all three shutdown policies and the library's own pools, and of processes ending with those pools alive; the same histories again with threads and clock under a deterministic scheduler, whose schedule (preemption between any two basic blocks, spurious wake-ups, early time-outs) is drawn with the case; non-trivial = at least one task and one resize",
   exes=[X("resize", "t03.cpp", cases=(24000, 400000), hang=30, **T),
         X("schedules", "t03.cpp", cases=(24000, 600000), hang=60, **SCHED), X("exit", "t03.cpp:-DEXIT", cases=(4000, 60000), hang=60, **T)])
CHECKS["T04"] = dict(rule="random futures of several result types on pools with idle or held-back workers, with copies, several waiters, timed waits and cancellation; semaphores with random waiters and posts from one or several threads; the same histories again with threads and clock under a deterministic scheduler, whose schedule (preemption between any two basic blocks, spurious wake-ups, early time-outs) is drawn with the case; non-trivial = more than one future, or several waiters and at least one post",
   exes=[X("signals", "t04.cpp", cases=(12000, 150000), hang=60, **T),
         X("schedules", "t04.cpp", cases=(24000, 600000), hang=60, **SCHED)])
CHECKS["T05"] = dict(rule="random histories of scheduling tasks that wait at a gate, letting some finish, limiting the active workers and resizing, on three kinds of pool; after each step the number of executing tasks must be exactly what a model of the limits says; the same histories again with threads and clock under a deterministic scheduler, whose schedule (preemption between any two basic blocks, spurious wake-ups, early time-outs) is drawn with the case; non-trivial = tasks were held back at least once and the limit or the size was changed",
   exes=[X("atonce", "t05.cpp", cases=(40000, 600000), hang=60, **T),
         X("schedules", "t05.cpp", cases=(24000, 600000), hang=60, **SCHED)])
CHECKS["T06"] = dict(rule="random sets of looped tasks with their own number of runs and breaks (now and then over a second), called directly or on pools of 1 to 3 workers; the same histories again with threads and clock under a deterministic scheduler, whose schedule (preemption between any two basic blocks, spurious wake-ups, early time-outs) is drawn with the case; non-trivial = at least one runs more than once",
   exes=[X("looped", "t06.cpp", cases=(2000, 20000), hang=60, **T),
         X("schedules", "t06.cpp", cases=(24000, 600000), hang=60, **SCHED)])
SL = dict(libs=["core", "stencil"], libopt={"stencil": "-O0"})
CHECKS["S01"] = dict(gen=[("gen_stencil.py", ("--profile", "ops", "--tus", "8"), ("--profile", "ops", "--tus", "8"))],
   rule="every operator registered by build_stencils (except the filter), obtained from the database, applied inline and with apply_to_field to random fields on random grids with unequal spacings, ghosts, valid regions, sub-windows and boundary flags, against coefficients and neighbours derived from a table of staggered locations; non-trivial = more than three destination cells filled",
   exes=[X("ops", TU("s01.cpp", 8), cases=(120000, 5000000), **SL)])
CHECKS["S02"] = dict(gen=[("gen_stencil.py", ("--profile", "expr", "--tus", "8", "--per", "14"), ("--profile", "expr", "--tus", "16", "--per", "40"))],
   rule="random expressions containing operators, whose operands have their own ghosts, valid regions, sub-windows and poisoned invalid cells; every cell of target, guard cells and operands compared with the model; likewise masks carried to a neighbouring field type by the shift operators; non-trivial = the operands do not reach all of the target's cells",
   exes=[X("region", [s + ",-DREGION" for s in TU("s01.cpp", 8)], src_thorough=[s + ",-DREGION" for s in TU("s01.cpp", 16)], cases=(120000, 5000000), **SL),
         X("maskshift", ["e07s.cpp:-DS02,-DTU=%d" % i for i in range(4)], ["core"], (20000, 400000))])
CHECKS["S03"] = dict(gen=[("gen_stencil.py", ("--profile", "chain", "--tus", "8", "--per", "9"), ("--profile", "chain", "--tus", "16", "--per", "30"))],
   rule="random nested operator expressions (operators of operators, of products, sums and conditionals; every second one built in a function of its own and kept in a variable), each also evaluated one operator at a time through intermediate fields, and by the scalar reference; non-trivial = more than three destination cells filled",
   exes=[X("chains", [s + ",-DCHAIN" for s in TU("s01.cpp", 8)], src_thorough=[s + ",-DCHAIN" for s in TU("s01.cpp", 16)], cases=(100000, 4000000), **SL)])
CHECKS["S04"] = dict(gen=[("gen_stencil.py", ("--profile", "filter", "--tus", "4", "--per", "14"), ("--profile", "filter", "--tus", "8", "--per", "40"))],
   rule="the box filter of each volume type, and the six lower-dimensional box filters, applied to random fields and expressions, inside each other and inside and around other operators, on random grids with ghosts, valid regions and sub-windows; non-trivial = more than three destination cells filled",
   exes=[X("filter", [s + ",-DFILTER" for s in TU("s01.cpp", 4)], src_thorough=[s + ",-DFILTER" for s in TU("s01.cpp", 8)], cases=(120000, 4000000), **SL)])
CHECKS["S08"] = dict(gen=[("gen_stencil.py", ("--profile", "custom", "--tus", "8", "--per", "12"), ("--profile", "custom", "--tus", "16", "--per", "40"))],
   rule="random user-defined stencils (1 to 9 points, offsets up to two cells, repeated points, between any two of the 16 field types; weighted with random coefficients, summed or averaged) applied to random fields, expressions and other stencils on random grids with ghosts, valid regions, sub-windows and boundary flags; every cell of target and operands compared with the sum over the given points; coefficient lists read back; non-trivial = more than three destination cells filled",
   exes=[X("custom", [s + ",-DCUSTOM" for s in TU("s01.cpp", 8)], src_thorough=[s + ",-DCUSTOM" for s in TU("s01.cpp", 16)], cases=(70000, 4000000), **SL)])
CHECKS["S09"] = dict(gen=[("gen_traits.py", ("--per", "600"), ("--per", "1500"))],
   rule="random expressions in the compile-time triplet templates (up to four levels) and random pairs of integers, against an interpreter; every field, face, volume and operator type name against the layout its name describes, with random boundary flags; non-trivial = an expression of at least one operation, distinct integers, any type other than the scalar volume",
   exes=[X("traits", "s09.cpp", ["core"], (20000, 60000))])
CHECKS["C01"] = dict(rule="random fields (reduced valid regions, sub-windows, wild values outside them) whose cells differ by clearly less than, exactly, or clearly more than the bound in none, many or one cell; relative (default and given absolute term), absolute and representable-distance comparisons, scalar forms, negations and swapped operands; non-trivial = values differ and at most one cell is beyond the bound",
   exes=[X("compare", "c01.cpp", ["mem"], (300000, 5000000), fuzz=60)])
CHECKS["C02"] = dict(rule="random grids (cell counts equal to or different from the field's, lengths over 40 binary orders), every field type and direction, random ghosts, valid regions, boundary flags and sub-windows; every cell of the allocation compared; non-trivial = more than one cell filled",
   exes=[X("coords", "c02.cpp", ["core"], (150000, 3000000), fuzz=60)])
CHECKS["C04"] = dict(rule="random parameters and coordinate fields (scattered values, including the function's centre), value, first and second derivative of each initialiser against long-double closed forms that are themselves cross-checked by numerical differentiation; non-trivial = a non-linear function over more than one cell",
   exes=[X("functions", "c04.cpp", ["mem"], (150000, 3000000), fuzz=60)])
CHECKS["C05"] = dict(rule="random fields (full-range values, ghosts, valid regions, sub-windows, boundary flags, float and double) exported under random names, sometimes over an older longer file, parsed back and compared cell by cell to the written precision; non-trivial = more than one value",
   exes=[X("export", "c05.cpp", ["mem"], (40000, 600000))])
CHECKS["C03"] = dict(rule="random histories over one to three databases and six operator types: registering operators and assemblers, looking up by type or by type and identifier (existing, missing, ambiguous), emptying and destroying, with every operator counted; non-trivial = more than one lookup and several operators of one type",
   exes=[X("database", "c03.cpp", [], (200000, 3000000), san=True, fuzz=60)])
CHECKS["P01"] = dict(rule="random uniform meshes (any origin, spacing, axis, with or without ghost cells) and particles of random size and position inside the mesh, deposited and interpolated, against interval-overlap arithmetic; non-uniform meshes must be refused; non-trivial = a particle wider than a cell",
   exes=[X("particles", "p01.cpp", ["mem"], (150000, 3000000), fuzz=60)])
CHECKS["P02"] = dict(rule="random fields (ghosts, valid regions, sub-windows) with random index lists (with repeats) or marker fields; extraction, write-back and injection compared over all cells; non-trivial = more than one distinct point",
   exes=[X("points", "p02.cpp", ["mem"], (150000, 3000000), san=True, fuzz=60)])
CHECKS["P03"] = dict(rule="random increasing point sets (uniform, scattered, clustered), orders 0 to 9 and evaluation points inside the data (nodes, midpoints, neighbours of nodes), coefficients against long-double products, values against random polynomials; non-trivial = order two or more with more points than the order needs",
   exes=[X("lagrange", "p03.cpp", ["onedim"], (200000, 4000000), fuzz=60)])
CHECKS["S06"] = dict(gen=[("gen_stencil.py", ("--profile", "bc", "--tus", "8"), ("--profile", "bc", "--tus", "8"))],
   rule="every two-point operator registered by build_stencils, random fields (ghosts, boundary flags, sub-windows), points on either side given singly, as a list relative to either window, or as a mask (imposing a number, field or expression), applied repeatedly with changing values; non-trivial = more than one point, or a single-point condition",
   exes=[X("conditions", TU("s06.cpp", 8), cases=(120000, 4000000), **SL)])
CHECKS["S07"] = dict(rule="random conditions (single point or list, relative to either window, constant or time-dependent evaluator) applied in random order to one to three random fields of every type (ghosts, reduced valid regions, boundary flags, sub-windows), all cells of all fields compared after every application; non-trivial = several applications or several points",
   exes=[X("points", "s07.cpp", ["core"], (150000, 3000000), fuzz=60)])
CHECKS["E07"] = dict(rule="random histories of building (from empty, sparse, dense, full, corner, face and repeated points), copying, reshaping, using as a condition and destroying masks on random windows (up to 16 cells a side, ghosts, reduced valid regions, sub-windows), every mask alive re-read at every cell after each step; masks carried to neighbouring field types by the mask-shift operators and used as conditions of assignments, interior assignments and reductions together with fields and masks of the destination; non-trivial = several masks or more than three steps (shift: at least one point)",
   exes=[X("masks", "e07.cpp", ["core"], (60000, 1500000), fuzz=60),
         X("shifts", ["e07s.cpp:-DTU=%d" % i for i in range(4)], ["core"], (60000, 1500000))])
CHECKS["S05"] = dict(gen=[("gen_stencil.py", ("--profile", "ops", "--tus", "8"), ("--profile", "ops", "--tus", "8"))],
   rule="every operator registered by build_stencils (except the filter) applied, inline or with apply_to_field, to random linear functions of the coordinates a Grid sets on random fields (unequal counts and lengths, ghosts, valid regions, boundary flags, sub-windows), and divergences of random fluxes summed along every row; non-trivial = more than three destination cells",
   exes=[X("linear", TU("s05.cpp", 8), cases=(120000, 5000000), **SL)])
CHECKS["E05"] = dict(gen=[("gen_nebo.py", ("--profile", "mix", "--tus", "8", "--per", "10", "--depth", "3"), ("--profile", "mix", "--tus", "16", "--per", "110")), ("gen_stencil.py", ("--profile", "expr", "--prefix", "st", "--tus", "8", "--per", "3"), ("--profile", "expr", "--prefix", "st", "--tus", "16", "--per", "30"))],
   rule="random expressions and operator expressions assigned (whole field or interior) in a threaded build, with random worker counts, active counts and partition counts changed between assignments, every cell compared with the serial model; several user threads assigning fields of their own with shared operands while the pool is resized (also under ThreadSanitizer); the same histories again with threads and clock under a deterministic scheduler, whose schedule (preemption between any two basic blocks, spurious wake-ups, early time-outs) is drawn with the case; non-trivial = the work is split into more than one partition (users: several threads, several split assignments)",
   exes=[X("exprs", [s + ",-DTHREADS" for s in TU("e02.cpp", 8)], src_thorough=[s + ",-DTHREADS" for s in TU("e02.cpp", 16)], libs=["mem", "pool"], variant="threads", cases=(60000, 1500000), hang=60),
         X("operators", [s.replace('"tu', '"st') + ",-DTHREADS,-DREGION" for s in TU("s01.cpp", 8)], src_thorough=[s.replace('"tu', '"st') + ",-DTHREADS,-DREGION" for s in TU("s01.cpp", 16)], libs=["core", "stencil", "pool"], libopt={"stencil": "-O0"}, variant="threads", cases=(40000, 1000000), hang=60),
         X("maskshift", ["e07s.cpp:-DTHREADS,-DTU=%d" % i for i in range(4)], ["core", "pool"], (20000, 400000), variant="threads", hang=60),
         X("users", "e05.cpp", ["mem", "pool"], (20000, 300000), variant="threads", hang=60), X("race", "e05.cpp", ["mem", "pool"], (1200, 30000), variant="threads", tsan=True, hang=120, workers=4),
         X("schedules", "e05.cpp", cases=(4000, 100000), hang=60, **dict(SCHED, libs=["mem", "pool"]))])
