#!/usr/bin/env python3
# Source of properties.jsonl (kept in step by hand; run to regenerate).
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))
S="spatialops/"; ST=S+"structured/"; STN=ST+"stencil/"
p("E01","Pointwise expressions equal cell-by-cell scalar evaluation",
 "Assigning an expression built from fields, single-value fields and scalars with the arithmetic operators, pow, min, max and the unary math functions gives, at every cell of the assigned region, exactly the value obtained by evaluating the same formula on the operands' values at that cell. This holds for every combination of operand kinds (scalar, field, sub-expression, single-value field, single-value sub-expression), in either operand position, at any nesting, when the target field also appears on the right-hand side, and when the expression is first kept in a variable or returned by the function that builds it.",
 ["inputs","programs","configurations"],"all expressions, operand kinds, window shapes (including 1-wide directions), ghost counts, boundary flags and field values",
 "Tests evaluate each operator a few times on one or two grid shapes, mostly with field-field operands; the overload set has one hand-replicated struct per operator x operand-kind x evaluation mode.",
 [S+"NeboOperators.h",S+"NeboRhs.h",S+"NeboAssignment.h",S+"NeboLhs.h"],[("per-operator init/eval structs and operand-kind overloads",S+"NeboOperators.h"),("row/column/plane walk",S+"NeboLhs.h")],["values of the assigned field"])
p("E02","Assignment writes exactly the mutually valid cells and nothing else",
 "An assignment to a field updates precisely the cells that the target has room for and every operand of the expression has valid (interior, boundary-extra cells, and on each face the smaller number of ghost layers) and leaves every other cell of the target, all cells of the operands and neighbouring memory unchanged. Values of operands outside their declared valid region never influence the result, and an assignment whose operands cannot supply a required boundary-extra cell is rejected with an error.",
 ["inputs","configurations","histories"],"all window shapes, per-face ghost counts of target and operands, boundary flags, and sequences of assignments",
 "Tests use one ghost layer and mostly equal ghosts on all operands; they compare interiors and do not look at cells that must not change.",
 [S+"NeboAssignment.h",S+"NeboRhs.h",S+"NeboLhs.h",ST+"GhostData.cpp",ST+"SpatialField.h"],[("ghost minimum / possible ghosts computation",S+"NeboAssignment.h"),("valid ghost reset",ST+"SpatialField.h")],["target cells, operand cells, guard cells, raised errors"])
p("E03","Interior assignment updates all interior cells and only those",
 "Assigning an expression to the interior of a field gives every interior cell (including the extra face cells a staggered field owns at a physical boundary) the value of the expression there, and leaves all ghost cells unchanged.",
 ["inputs","configurations"],"all window shapes, ghost counts, boundary flags, field types and expressions",
 "The single test of interior assignment uses cubic fields with uniform ghosts.",
 [S+"NeboAssignment.h",S+"NeboLhs.h",ST+"SpatialField.h"],[("interior_assign",S+"NeboAssignment.h")],["target cells"])
p("E04","Conditional expressions take the first true clause at every cell",
 "For a chain of condition/value clauses with a default, the value at each cell is the value of the first clause, in the order written, whose condition is true at that cell, and the default if none is. Conditions may be plain booleans, masks or comparison/logical expressions over fields and scalars, and values may be scalars, fields or expressions, mixed freely.",
 ["inputs","programs","configurations"],"all clause lists, mixes of clause and value kinds, and cell values",
 "Tests have a handful of fixed clause lists, each on one data set.",
 [S+"NeboCond.h",S+"NeboOperators.h",S+"NeboMask.h"],[("clause list reversal and evaluation",S+"NeboCond.h"),("comparison and logical operators",S+"NeboOperators.h")],["values of the assigned field"])
p("E05","Threaded evaluation gives the same result as serial evaluation",
 "In a threaded build every assignment and operator application gives the same cells the same values, and leaves the same cells untouched as a serial build, for every number of worker threads and every number of work partitions, including numbers larger than the grid and changes of either between assignments.",
 ["schedules","inputs","configurations","histories"],"all grid shapes, expressions, thread counts, partition counts and histories of changing them",
 "The suite runs the same fixed tests in one threaded configuration with a fixed thread and partition count.",
 [S+"NeboAssignment.h",S+"ThreadPool.h",S+"ThreadPool.cpp",ST+"MemoryWindow.cpp"],[("partition finding, resize and task scheduling",S+"NeboAssignment.h"),("thread pool and semaphore",S+"ThreadPool.h")],["target cells, termination"])
p("E06","Reductions equal the reference over exactly the right cells",
 "The minimum, maximum, sum and norm of a field or expression equal those of the reference values over all of its valid cells, the interior variants equal those over the interior cells only, and invalid ghost cells never influence the result.",
 ["inputs","configurations"],"all window shapes, ghost counts, boundary flags, expressions and values (including negative-only and single-cell fields)",
 "Tests reduce one or two fixed fields on which valid and invalid cells do not differ.",
 [S+"NeboReductions.h"],[("reduction walkers",S+"NeboReductions.h")],["returned value"])
p("E07","Masks behave as the set of points they were built from",
 "A mask built from a list of points is true at exactly the listed points and false elsewhere, over its whole window including ghosts, for every window size; copies, reshaped masks and conversions to neighbouring field types denote the same set. Using it as a condition selects exactly those cells of the field.",
 ["inputs","configurations"],"all windows, ghost counts and point sets (duplicates, corners, ghost points, empty sets)",
 "Tests build a few masks on one grid; the packed-bit storage only shows errors at particular sizes and offsets.",
 [ST+"BitField.h",ST+"SpatialMask.h",S+"NeboMask.h",S+"NeboAssignment.h"],[("bit packing and iteration",ST+"BitField.h"),("masked assignment",S+"NeboAssignment.h")],["mask values, point list, assigned field"])
p("E08","Field types may not be mixed, and every well-typed statement compiles",
 "An expression, condition, mask, operator application, copy, handle or iterator that combines fields of different locations or value types (other than through an operator that maps one to the other, or through a single value of the same value type) is rejected at compile time, and every statement of the field language whose types agree is accepted.",
 ["programs"],"all statements over all field types, value types, masks, single values and operators",
 "Tests only contain programs that compile, over a few field types.",
 [S+"NeboBasic.h",S+"NeboAssignment.h",S+"NeboOperators.h",S+"NeboCond.h",S+"NeboMask.h",S+"NeboStencilBuilder.h",ST+"SpatialField.h",ST+"SpatialMask.h",ST+"SpatialFieldStore.h"],[("overloads constrained by field type",S+"NeboOperators.h"),("assignment of expressions of the target's type",S+"NeboAssignment.h")],["whether the compiler accepts the statement"])
p("S01","Staggered operators compute the documented weighted neighbour sum",
 "Every interpolation, gradient, divergence and finite-difference operator obtained from the standard operator set gives, at each destination cell, the coefficient-weighted sum of exactly the source cells that surround it in that operator's direction on the staggered mesh, with the coefficients implied by the grid spacing.",
 ["inputs","configurations"],"all registered operator types, grid sizes and lengths (unequal per direction, 1-wide directions off the stencil axis), ghost counts, boundary flags and values",
 "Tests check a subset of operator types on one or few grids with smooth functions and tolerances, so swapped spacings or offsets can cancel.",
 [STN+"StencilBuilder.cpp",S+"NeboStencils.h",S+"NeboStencilBuilder.h",STN+"FVStaggeredOperatorTypes.h",ST+"IndexTriplet.h"],[("stencil coefficient and point collections",S+"NeboStencilBuilder.h"),("operator registration",STN+"StencilBuilder.cpp")],["destination cells"])
p("S02","Operators write all and only the cells their inputs can support",
 "Applying an operator (or an expression containing operators) fills every destination cell for which all the source cells it needs are valid, within the destination's own ghost region, never uses an invalid or out-of-window source cell, and leaves all other destination cells unchanged.",
 ["inputs","configurations","histories"],"all operator types, compositions, per-field ghost counts and boundary flags",
 "Tests use one ghost layer and compare interiors; reading one cell too far only shows if that cell is poisoned.",
 [S+"NeboStencils.h",S+"NeboAssignment.h",ST+"GhostData.cpp",ST+"BoundaryCellInfo.h"],[("valid/possible ghost accounting for stencil offsets",S+"NeboStencils.h")],["destination cells"])
p("S03","Inlined operator expressions equal their step-by-step evaluation",
 "An expression that applies operators to fields or to other expressions inline (nested operators, operators of products, sums of operators) gives at every cell it fills the same value as evaluating each intermediate into its own field and applying the operators one at a time.",
 ["inputs","programs","configurations"],"all operator compositions, operand expressions, grids and values",
 "One test file compares a few fixed chains on a fixed grid.",
 [S+"NeboStencils.h",S+"NeboStencilBuilder.h",S+"NeboRhs.h"],[("stencil argument construction and window shifting",S+"NeboStencils.h")],["destination cells"])
p("S04","The box filter is the mean of the 27-cell neighbourhood",
 "The box filter gives, at every cell with all neighbours available, the arithmetic mean of the 27 cells of the surrounding 3x3x3 block, for every volume field type; constants are preserved. The planar and linear box filters likewise give the mean of the 9 or 3 cells around the cell in their plane or direction.",
 ["inputs","configurations"],"all grid sizes, ghosts, boundary flags and values",
 "The test applies it on one grid with one function.",
 [S+"NeboStencils.h",S+"NeboStencilBuilder.h",STN+"FVStaggeredOperatorTypes.h"],[("sum stencil",S+"NeboStencils.h")],["destination cells"])
p("S05","Operators are consistent with grid coordinates and conserve flux",
 "With the spacing given to the operator set, interpolation reproduces and differentiation gives the exact slope of any linear function of the grid coordinates at the destination's own coordinates, and the sum of a divergence over a row of cells equals the difference of its end fluxes divided by the spacing.",
 ["inputs","configurations"],"all operator types, cell counts, domain lengths and linear functions",
 "Tests check convergence of smooth functions on cubic domains; unequal counts or lengths per direction are hardly exercised.",
 [STN+"StencilBuilder.cpp",ST+"Grid.cpp",ST+"FVStaggeredLocationTypes.h"],[("spacing to coefficient",STN+"StencilBuilder.cpp"),("cell and face coordinates per field type",ST+"Grid.cpp")],["destination cells"])
p("S06","Boundary-condition operators make the operator yield the imposed value",
 "After a boundary condition is applied through an operator at a set of boundary points, applying that operator to the field gives the imposed value at exactly those points on the requested side, and no cell other than the one ghost cell per point is modified, however the points were supplied (list of points or mask).",
 ["inputs","configurations"],"all operator/field type pairs, sides, point sets, window shapes, coefficients and values",
 "Tests apply conditions on whole faces of one grid.",
 [STN+"FVStaggeredBCOp.h",S+"NeboStencilBuilder.h",S+"NeboMask.h"],[("ghost inversion",STN+"FVStaggeredBCOp.h"),("boundary condition builder",S+"NeboStencilBuilder.h")],["field cells, operator result"])
p("S07","Point boundary conditions set precisely the addressed cell",
 "A pointwise boundary condition writes its evaluator's value, re-evaluated at each application, to exactly the one addressed cell and changes no other cell.",
 ["inputs","histories"],"all field types, points (interior and ghost), windows and evaluator sequences",
 "One fixed use in the suite.",
 [ST+"FVStaggeredBCTools.h"],[("flat index lookup",ST+"FVStaggeredBCTools.h")],["field cells"])
p("S08","User-defined stencils compute the sum over exactly the given points",
 "An operator a user builds from a list of stencil points (in weighted, summed or averaged form, between any two field types) gives, at every destination cell for which all those points are valid source cells, the sum over the points of coefficient times source value (coefficients in the order given), the plain sum, or the mean, whether applied to a field or inline to an expression, and changes no other cell; reading a coefficient list back gives the coefficients in order, and a coefficient that does not exist is refused.",
 ["inputs","programs","configurations"],"all point lists (any offsets, length, repetitions), coefficients, field type pairs, operand expressions, ghosts, boundary flags and values",
 "Tests only build stencils through the predefined two-point, four-point and box collections.",
 [S+"NeboStencilBuilder.h",S+"NeboStencils.h",ST+"IndexTriplet.h"],[("point and coefficient collections",S+"NeboStencils.h"),("stencil builders",S+"NeboStencilBuilder.h")],["destination cells","coefficients"])
p("S09","Compile-time type maps agree with the staggered layout",
 "Compile-time index triplets and integer helpers evaluate to ordinary integer arithmetic, and every field type's offset, face direction and boundary cell count, the face types of each volume, the volume type of each face and the operator types named for a volume are those of the staggered layout that their names describe.",
 ["inputs"],"all expressions in triplet templates, all field types, all volumes, directions and operators",
 "Tests compare a handful of fixed triplets.",
 [ST+"IndexTriplet.h",ST+"FVStaggeredLocationTypes.h",ST+"FVStaggeredFieldTypes.h",ST+"stencil/FVStaggeredOperatorTypes.h",ST+"BoundaryCellInfo.h"],[("triplet templates",ST+"IndexTriplet.h"),("location types",ST+"FVStaggeredLocationTypes.h")],["values of the compile-time constants, identity of the types"])
p("F01","Window index conversions are mutually inverse and in range",
 "For every memory window, converting a point to its flat position and back gives the same point, distinct points have distinct flat positions inside the allocation, and local and global conversions agree up to the window's offset.",
 ["inputs","configurations"],"all global sizes, offsets, extents (including 1-wide and whole-domain)",
 "Tests enumerate a couple of windows.",
 [ST+"MemoryWindow.h",ST+"MemoryWindow.cpp",ST+"IntVec.h"],[("flat/ijk conversions",ST+"MemoryWindow.h")],["returned indices"])
p("F02","Splitting a window tiles it exactly, in order",
 "Splitting a window into any number of parts per direction gives that many non-empty windows which are disjoint, cover the parent exactly, stay inside it, and differ in extent by at most one cell per direction.",
 ["inputs","configurations"],"all parent windows and split patterns not exceeding the extent",
 "Tests split one or two windows into equal parts.",
 [ST+"MemoryWindow.cpp",ST+"MemoryWindow.h"],[("refine and remainder distribution",ST+"MemoryWindow.cpp")],["returned windows"])
p("F03","Field iteration visits each cell of its region once, in order",
 "Iterating a field, or its interior, visits each cell of the region exactly once with x fastest and z slowest, and stepping forward, stepping back, jumping by any amount, indexing, comparing and subtracting positions are all consistent with that one sequence; with assertions on, reading at a position outside the region is rejected.",
 ["inputs","histories"],"all windows, regions, step sequences and jump distances",
 "Tests walk forward over full small fields; backward and random-access moves over partial windows are rarely exercised.",
 [ST+"MemoryWindow.h",ST+"SpatialField.h",ST+"BitField.h"],[("field and const field iterators",ST+"MemoryWindow.h")],["visited cells, positions"])
p("F04","Fields own, copy, alias and adopt storage as requested",
 "A field built with internal storage owns fresh memory (zero-filled, or holding the caller's values in order), one built over caller-supplied memory reads and writes exactly that memory within its window, and shallow copies, re-windowed copies and reshaped children share the cells of their parent at the positions their windows select and never free them. Whole-field assignment copies values between equal windows (rejecting unequal ones), and element access affects exactly the addressed cell.",
 ["inputs","histories","configurations"],"all windows, ghosts, boundary flags, storage modes and sequences of construct, copy, alias, assign and destroy",
 "Tests build a few fields per mode in isolation.",
 [ST+"SpatialField.h",ST+"MemoryWindow.h",ST+"ExternalAllocators.h"],[("construction, copy and storage modes",ST+"SpatialField.h")],["cells of all live fields, guard cells"])
p("F05","Scratch fields stay alive and private while any handle refers to them",
 "A scratch field obtained from the field store keeps its storage and contents for as long as any handle to it exists, is not shared with any other live scratch field, has the requested window, ghosts and boundary information, and its storage is returned exactly once when the last handle goes away, whatever sequence of copying, assigning, detaching and destroying handles led there.",
 ["histories"],"all histories of handle creation, copy, assignment (including self and from empty), detach and destruction",
 "Tests do a few linear get/destroy sequences.",
 [ST+"SpatialFieldStore.h",ST+"MemoryPool.cpp"],[("reference counting handle",ST+"SpatialFieldStore.h")],["field contents, pool activity counts, memory errors"])
p("F06","The memory pool hands out disjoint blocks and balances its books",
 "Every block the pool hands out is large enough for the request and disjoint from all other outstanding blocks, a returned block may be reused but is never handed out twice at once, and the reported number of active blocks equals blocks taken minus blocks returned; a process may end, or return blocks while it is ending, without harm.",
 ["histories"],"all histories of differently sized requests and returns",
 "Tests request and return a few blocks of a few sizes.",
 [ST+"MemoryPool.h",ST+"MemoryPool.cpp"],[("size-bucketed free lists",ST+"MemoryPool.cpp")],["block addresses, active and total counts"])
p("F07","Ghost, boundary and index arithmetic obeys its algebra",
 "Ghost-layer records and integer triplets add, subtract, compare and take minima component-wise, boundary information reports an extra cell only for field types staggered in a direction and only where the physical boundary is present, and the window computed for given interior size, ghosts and boundary information has exactly interior plus both ghost layers plus extra cells in each direction wider than one.",
 ["inputs"],"all ghost counts, flags, field types, sizes and operation chains",
 "Tests check a few constant combinations.",
 [ST+"GhostData.h",ST+"GhostData.cpp",ST+"BoundaryCellInfo.h",ST+"FVTools.h",ST+"IntVec.h",ST+"Numeric3Vec.h"],[("ghost arithmetic",ST+"GhostData.cpp"),("window with ghosts",ST+"FVTools.h")],["returned values"])
p("C01","Field comparisons agree with their stated closeness definition",
 "Exact, relative-error, absolute-error and representable-distance comparisons of two fields (or a field and a scalar) return true exactly when every compared cell satisfies the stated bound, the negated forms return the opposite, and the result is symmetric where the definition is.",
 ["inputs"],"all field values, sizes, tolerances, and positions of the differing cell",
 "Tests use a couple of values per comparison on small fields.",
 [ST+"FieldComparisons.h"],[("comparison loops",ST+"FieldComparisons.h")],["returned boolean"])
p("C02","Grid coordinates are uniform and staggered by half a cell",
 "A grid fills each field type's coordinate with values spaced by domain length over cell count, with cell-centred directions at half-cell offsets and staggered directions at whole-cell offsets, depending only on the requested direction and extending consistently through ghost cells.",
 ["inputs","configurations"],"all cell counts, lengths, field types, directions, ghosts and boundary flags",
 "Coordinates are only used indirectly with loose tolerances.",
 [ST+"Grid.h",ST+"Grid.cpp",ST+"FVStaggeredLocationTypes.h"],[("coordinate fill per location type",ST+"Grid.cpp")],["coordinate field cells"])
p("C03","The operator database returns exactly what was registered",
 "Looking up an operator by type, or by type and identifier, returns the operator registered for that key, registering a new operator for a key and emptying the database behave as documented, lookups that cannot be resolved uniquely raise an error, and each operator is released exactly once.",
 ["histories"],"all histories of registering, retrieving and emptying over several operator types and identifiers",
 "Tests register one operator per type.",
 [S+"OperatorDatabase.h"],[("per-type typed map",S+"OperatorDatabase.h")],["returned operators, errors, live operator count"])
p("C04","Analytic initialisers fill every cell with their formula and derivative",
 "Each analytic initialiser (linear, sine, Gaussian, hyperbolic tangent) fills the field with its documented formula of the coordinate fields, and its first and second derivative evaluations give the mathematical derivatives of that formula, at every cell.",
 ["inputs"],"all parameters, coordinate fields and shapes",
 "Tests use the plain values of a few functions and almost never the derivatives.",
 [S+"FieldFunctions.h"],[("evaluate, dx, d2x",S+"FieldFunctions.h")],["field cells"])
p("C05","Exported fields read back with the same values in order",
 "Writing a field to a text file for MATLAB lists every requested cell, ghosts only when requested, in storage order with enough digits to recover the value to the written precision, and names the function after the requested name.",
 ["inputs"],"all fields, names, ghost options and values",
 "Nothing in the suite reads the files back.",
 [S+"WriteMatlab.h"],[("write loop",S+"WriteMatlab.h")],["file contents"])
p("P01","Particle-mesh transfers are consistent and conservative",
 "Depositing particle values on a mesh conserves their total and spreads each particle over the cells its size covers in proportion to overlap, and interpolating mesh values to particles takes the overlap-weighted average of the same cells, so constants are reproduced; this holds for any particle positions and sizes that stay inside the mesh.",
 ["inputs"],"all particle positions, sizes, values and mesh sizes",
 "Tests place a few particles at fixed positions on one mesh.",
 [S+"particles/ParticleOperators.h"],[("overlap weighting",S+"particles/ParticleOperators.h")],["cell and particle values"])
p("P02","Point extraction and injection move exactly the listed values",
 "Extracting a list of field cells yields their values in list order, and writing point values into a field changes exactly the listed cells, so that writing back what was extracted is the identity.",
 ["inputs"],"all fields, windows and index lists",
 "One fixed list in the suite.",
 [S+"pointfield/PointOperators.h",S+"pointfield/PointFieldTypes.h"],[("indexed copy loops",S+"pointfield/PointOperators.h")],["point and field values"])
p("P03","Lagrange interpolation is exact for polynomials up to its order",
 "On any set of distinct sample points, interpolation and differentiation coefficients of a given order reproduce every polynomial of degree up to that order and its derivative at any point within the data, the coefficients sum to one and zero respectively, and all indices refer to existing points near the evaluation point.",
 ["inputs"],"all increasing point sets, orders, evaluation points (including ends and nodes)",
 "Tests use uniform points with a few polynomial degrees.",
 [ST+"onedim/LagrangePoly.h",ST+"onedim/LagrangePoly.cpp"],[("coefficient products and index choice",ST+"onedim/LagrangePoly.cpp")],["coefficients, indices, interpolated values"])
p("T01","Thread pools run every scheduled task exactly once",
 "Every task accepted by a thread pool is executed exactly once by some worker, and waiting for the pool returns only after all tasks scheduled before have finished; waiting for a number of tasks returns as soon as, and not before, no more than that many are queued or running.",
 ["schedules","histories"],"all task counts, worker counts, task bodies that schedule further tasks or throw, and interleavings",
 "One multithreaded test with one fixed task set.",
 [S+"threadpool/threadpool/detail/pool_core.hpp",S+"threadpool/threadpool/detail/worker_thread.hpp",S+"threadpool/threadpool/pool.hpp"],[("task queue, monitor and conditions",S+"threadpool/threadpool/detail/pool_core.hpp")],["per-task execution counts, order of wait return"])
p("T02","Scheduling policies run queued tasks in their documented order",
 "With a single worker, queued tasks start in first-in-first-out, last-in-first-out or descending-priority order according to the pool's policy, clearing the queue removes exactly the not yet started tasks, and the pending count reports how many are queued.",
 ["histories"],"all sequences of schedule, clear and wait, and all priorities",
 "No test observes order.",
 [S+"threadpool/threadpool/scheduling_policies.hpp",S+"threadpool/threadpool/task_adaptors.hpp"],[("fifo, lifo and priority queues",S+"threadpool/threadpool/scheduling_policies.hpp")],["execution order, pending count"])
p("T03","Resizing or shutting down a pool never loses tasks or hangs",
 "After any sequence of growing and shrinking a pool to at least one worker, interleaved with scheduling and waiting, every accepted task is still executed and waiting still returns, the number of workers settles at the last requested size (also when a task ends the thread of its worker), and destroying the pool returns after the tasks its shutdown policy promises have run.",
 ["schedules","histories"],"all resize/schedule/wait/destroy histories and interleavings",
 "The suite uses one pool at a fixed size apart from a single resize.",
 [S+"threadpool/threadpool/detail/pool_core.hpp",S+"threadpool/threadpool/size_policies.hpp",S+"threadpool/threadpool/shutdown_policies.hpp",S+"ThreadPool.cpp"],[("worker count bookkeeping",S+"threadpool/threadpool/detail/pool_core.hpp")],["executed tasks, worker count, termination"])
p("T04","Futures and semaphores signal exactly when due",
 "A future scheduled on a pool becomes ready exactly when its task has run and then yields that task's result to every copy of the future, and a semaphore lets through exactly as many waiters as its initial count plus posts.",
 ["schedules","inputs"],"all result values, numbers of waiters, counts and interleavings",
 "Futures are not tested; the semaphore is only used implicitly.",
 [S+"threadpool/threadpool/future.hpp",S+"threadpool/threadpool/detail/future.hpp",S+"Semaphore.h"],[("future state",S+"threadpool/threadpool/detail/future.hpp"),("counting semaphore",S+"Semaphore.h")],["future results, pass counts"])
p("T05","A pool runs exactly as many tasks at once as its limits allow",
 "At every moment the number of tasks of a pool that execute at once is at most its number of workers and, for tasks started since it was set, its limit on active workers; queued tasks start whenever fewer are executing than both allow, also right after the limit or the size was raised, and the pool's counts of workers, active workers and pending tasks agree with this.",
 ["histories","schedules"],"all sequences of scheduling, finishing, limiting and resizing, and interleavings",
 "No test observes how many tasks execute at once.",
 [S+"threadpool/threadpool/detail/pool_core.hpp",S+"threadpool/threadpool/pool.hpp",S+"threadpool/threadpool/size_policies.hpp"],[("active worker count and the wait for tasks",S+"threadpool/threadpool/detail/pool_core.hpp")],["number of tasks executing, counts reported by the pool"])
p("T06","Looped tasks repeat until told to stop, with their break before each run",
 "A looped task calls its function again until it returns false, exactly that many times, lets at least its break pass before every call, and does not keep other tasks of the pool from running once it has stopped.",
 ["histories","inputs"],"all numbers of runs, break lengths, numbers of looped tasks and workers",
 "No test uses looped tasks.",
 [S+"threadpool/threadpool/task_adaptors.hpp"],[("loop and break",S+"threadpool/threadpool/task_adaptors.hpp")],["number and times of calls"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
for q in P: assert len(q["title"])<=80,(q["id"],len(q["title"]))
open(out,"w").write("".join(json.dumps(q)+"\n" for q in P))
print(len(P))
