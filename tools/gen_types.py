#!/usr/bin/env python3
"""Generates statements over typed fields, masks, single values and operators,
half of them with one operand of another type; has the compiler judge them in
one run and confirms every disagreement with a run of its own.
Writes OUT/types.inc (statement, expected, observed, what was changed).

  --per N --seed S --out DIR
"""
import argparse, os, random, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
LOC = [v + s for v in "SXYZ" for s in ("Vol", "SurfX", "SurfY", "SurfZ")]
CFG = "#define NTHREADS 1\n#define SOPS_REPO_DATE \"none\"\n#define SOPS_REPO_HASH \"none\"\n"
UN = ["-", "sin", "cos", "tan", "exp", "tanh", "abs", "sqrt", "log", "log10", "erf", "erfc"]
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import gen_stencil   # noqa: E402   the operators the library supplies
OPS = [(gen_stencil.optype(o), LOC.index(o[1]), LOC.index(o[2])) for o in gen_stencil.OPS]          # (C++ type, source location, destination location)
for v in range(4):
    for d in range(3):
        for k, up in (("InterpC2F", 1), ("Grad", 1), ("InterpF2C", 0), ("Div", 0)):
            c, f = 4 * v, 4 * v + 1 + d
            OPS.append(("SS::BasicOpTypes<SS::%sField>::%s%s" % (LOC[c], k, "XYZ"[d]), c if up else f, f if up else c))

PRE = """#include <spatialops/Nebo.h>
#include <spatialops/structured/stencil/FVStaggeredOperatorTypes.h>
#include <spatialops/structured/SpatialMask.h>
#include <spatialops/structured/SpatialFieldStore.h>
#include <spatialops/structured/FieldComparisons.h>
namespace S=SpatialOps; namespace SS=SpatialOps::structured; using namespace SpatialOps;
template<class T> T& var(); template<class T> const T& cvar();
"""


def ft(t):
    return "SS::SpatialField<SS::%s,%s>" % (LOC[t[0]], t[1])


class G:
    def __init__(s, r, bad):
        s.r = r; s.bad = bad; s.what = ""; s.size = 0

    def hit(s, p):
        if s.bad and s.r.random() < p:
            s.bad = False
            return True
        return False

    def other(s, t):
        """another field type"""
        if s.r.random() < 0.2:
            return (t[0], "float" if t[1] == "double" else "double")
        n = s.r.choice([x for x in range(16) if x != t[0]])
        return (n, t[1])

    def field(s, t):
        s.size += 1
        return "cvar<%s >()" % ft(t) if s.r.random() < 0.5 else "var<%s >()" % ft(t)

    def fx(s, t, d, inj=0.15):
        """a field expression of type t"""
        if s.hit(inj if d > 0 else 0.5):
            u = s.other(t); s.what = "operand %s for %s" % (ft(u), ft(t))
            return s.fx(u, d - 1)
        if d <= 0 or s.r.random() < 0.15:
            return s.field(t)
        s.size += 1
        w = s.r.random()
        if w < 0.45:
            a, b = s.fx(t, d - 1), s.any(t, d - 1)
            if s.r.random() < 0.5:
                a, b = b, a
            op = s.r.choice(["+", "-", "*", "/", "min", "max", "pow"])
            if op == "pow":
                return "pow(%s, %s)" % (a, b)
            return "%s(%s, %s)" % (op, a, b) if op in ("min", "max") else "(%s %s %s)" % (a, op, b)
        if w < 0.6:
            return "%s(%s)" % (s.r.choice(UN), s.fx(t, d - 1))
        if w < 0.8 and t[1] == "double":
            if s.hit(0.3):
                o = s.r.choice([x for x in OPS if x[1] == t[0] and x[2] != t[0]] or [x for x in OPS if x[2] != t[0]])
                s.what = "result of %s for %s" % (o[0], ft(t))
            else:
                o = s.r.choice([x for x in OPS if x[2] == t[0]] or [(None, 0, 0)])
            if o[0]:
                return "cvar<%s >()(%s)" % (o[0], s.fx((o[1], "double"), d - 1))
        return s.cond(t, d)

    def fx0(s, t, d):
        """a field expression whose own type is free: only mixing inside it is wrong"""
        a = s.field(t)
        return "%s(%s, %s)" % (s.r.choice(["min", "max"]), a, s.fx(t, d, 1)) if s.r.random() < 0.5 else "(%s %s %s)" % (a, s.r.choice("+-*/"), s.fx(t, d, 1))

    def sv(s, t, d):
        u = t[1]
        if s.hit(0.2):
            u = "float" if u == "double" else "double"; s.what = "single value of %s for %s" % (u, ft(t))
        x = "cvar<SS::SpatialField<SS::SingleValue,%s> >()" % u
        s.size += 1
        if d > 0 and s.r.random() < 0.4:
            return "%s(%s)" % (s.r.choice(UN), x) if s.r.random() < 0.5 else "(%s + 0.5)" % x
        return x

    def any(s, t, d):
        w = s.r.random()
        if w < 0.55:
            return s.fx(t, d)
        if w < 0.8:
            s.size += 1
            return s.r.choice(["2.0", "0.5", "var<double>()"])
        return s.sv(t, d)

    def value(s, t, d):
        return "1.5" if s.r.random() < 0.3 else s.fx(t, d)

    def test(s, t, d):
        w = s.r.random(); s.size += 1
        if w < 0.1:
            return "var<bool>()"
        if w < 0.35:
            u = t
            if s.hit(0.4):
                u = s.other(t); s.what = "mask of %s for %s" % (ft(u), ft(t))
            if u[1] == "double" and s.r.random() < 0.2:       # carried over from a neighbouring field type
                o = s.r.choice([x for x in OPS if x[2] == u[0] and x[1] != u[0] and "BasicOpTypes" in x[0]]); v = (o[1], "double")
                if s.hit(0.3):
                    v = s.other(v); s.what = "mask of %s shifted as one of %s" % (ft(v), ft((o[1], "double")))
                return "S::NeboMaskShiftBuilder<%s,%s >().%s(cvar<SS::SpatialMask<%s > >())" % (ft((o[1], "double")), ft(u), s.r.choice(["minus", "plus"]), ft(v))
            return "cvar<SS::SpatialMask<%s > >()" % ft(u)
        if w < 0.75 or d <= 0:
            a, b = s.fx(t, d - 1), s.any(t, d - 1)
            if s.r.random() < 0.5:
                a, b = b, a
            return "(%s %s %s)" % (a, s.r.choice(["<", "<=", ">", ">=", "==", "!="]), b)
        if w < 0.85:
            return "(!%s)" % s.test(t, d - 1)
        return "(%s %s %s)" % (s.test(t, d - 1), s.r.choice(["&&", "||"]), s.test(t, d - 1))

    def cond(s, t, d):
        x = "".join("(%s, %s)" % (s.test(t, 1), s.value(t, d - 2)) for _ in range(s.r.choice([1, 1, 2, 3])))
        return "cond%s(%s)" % (x, s.fx(t, d - 2))

    def svx(s, t, d):
        """an expression for a single value"""
        if s.hit(0.3):
            s.what = "field %s for a single value" % ft(t)
            return s.fx(t, d)
        if d <= 0:
            return s.sv(t, 0)
        return "(%s %s %s)" % (s.svx(t, d - 1), s.r.choice("+-*/"), s.svx(t, d - 1)) if s.r.random() < 0.6 else "%s(%s)" % (s.r.choice(UN), s.svx(t, d - 1))

    def stmt(s):
        t = (s.r.randrange(16), "float" if s.r.random() < 0.12 else "double")
        w = s.r.random(); d = s.r.choice([0, 1, 2, 2, 3, 3])
        if w < 0.62:
            return "var<%s >() <<= %s;" % (ft(t), s.fx(t, d))
        if w < 0.74:
            return "interior_assign(var<%s >(), %s);" % (ft(t), s.fx(t, d))
        if w < 0.80:
            return "var<SS::SpatialField<SS::SingleValue,%s> >() <<= %s;" % (t[1], s.svx(t, d))
        if w < 0.88:
            o = s.r.choice(OPS); a, b = (o[1], "double"), (o[2], "double")
            if s.hit(0.5):
                a = s.other(a); s.what = "source %s for %s" % (ft(a), o[0])
            elif s.hit(1):
                b = s.other(b); s.what = "destination %s for %s" % (ft(b), o[0])
            return "cvar<%s >().apply_to_field(cvar<%s >(), var<%s >());" % (o[0], ft(a), ft(b))
        if w < 0.93:
            o = s.r.choice([o for o in OPS if "BasicOpTypes" in o[0]]); a, b = (o[1], "double"), (o[2], "double"); m, phi = b, a
            if s.hit(0.3):
                m = s.other(b); s.what = "mask of %s for the condition on %s" % (ft(m), o[0])
            elif s.hit(0.4):
                phi = s.other(a); s.what = "field %s for the condition on %s" % (ft(phi), o[0])
            g = s.fx(b, d, 1) if s.bad or s.r.random() < 0.7 else "2.0"
            tp = ["SS::IndexTriplet<0,0,0>", "SS::IndexTriplet<%s>" % s.r.choice(["1,0,0", "0,-1,0", "0,0,1", "0,1,0", "-1,0,0"])]
            s.r.shuffle(tp)
            return "cvar<S::NeboBoundaryConditionBuilder<%s,%s,%s > >()(cvar<SS::SpatialMask<%s > >(), var<%s >(), %s, true);" % (",".join(tp), ft(a), ft(b), ft(m), ft(phi), g)
        if w < 0.95:
            return "%s(%s);" % (s.r.choice(["nebo_sum", "nebo_min", "nebo_max", "nebo_norm", "nebo_sum_interior", "field_max_interior"]), s.fx0(t, max(d, 1)))
        u = t
        if s.hit(1):
            u = s.other(t); s.what = "%s where %s is needed" % (ft(u), ft(t))
        a, b = ft(t), ft(u); s.size = 1
        return s.r.choice([
            "field_equal(cvar<%s >(), cvar<%s >(), 1e-6);" % (a, b),
            "field_not_equal_abs(cvar<%s >(), cvar<%s >(), 1e-6);" % (a, b),
            "var<%s >() = cvar<%s >();" % (a, b),
            "%s x(cvar<%s >());" % (a, b),
            "S::SpatFldPtr<%s > x(cvar<S::SpatFldPtr<%s > >());" % (a, b),
            "var<S::SpatFldPtr<%s > >() = cvar<S::SpatFldPtr<%s > >();" % (a, b),
            "var<S::SpatFldPtr<%s > >() = S::SpatialFieldStore::get<%s >(cvar<%s >());" % (a, b, a),
            "SS::SpatialMask<%s > x(cvar<SS::SpatialMask<%s > >());" % (a, b),
            "SS::SpatialMask<%s > x(cvar<%s >(), cvar<std::vector<SS::IntVec> >());" % (a, b),
            "typename %s::iterator x = var<%s >().begin();" % (a, b),
            "typename %s::const_iterator x = cvar<%s >().end();" % (a, b),
        ]).replace("typename ", "")


def compiler(out, code):
    f = os.path.join(out, "types.cpp") if len(code) > 1 else os.path.join(out, "one%d.cpp" % code[0][0])
    with open(f, "w") as o:
        o.write(PRE + "#line 1001\n")
        for i, c in code:
            o.write("void r%d(){ %s }\n" % (i, c))
    r = subprocess.run(["clang++", "-std=gnu++17", "-w", "-fsyntax-only", "-ferror-limit=0", "-ftemplate-backtrace-limit=0", "-fno-caret-diagnostics",
                        "-fshow-overloads=best", "-fno-color-diagnostics", "-DBOOST_BIND_GLOBAL_PLACEHOLDERS", "-DBOOST_ALLOW_DEPRECATED_HEADERS",
                        "-I" + os.path.join(out, "cfgt"), "-I" + REPO, f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    return f, r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--per", type=int, default=400); ap.add_argument("--seed", type=int, default=1); ap.add_argument("--out", required=True)
    a = ap.parse_args()
    cfg = os.path.join(a.out, "cfgt", "spatialops"); os.makedirs(cfg, exist_ok=True)
    open(os.path.join(cfg, "SpatialOpsConfigure.h"), "w").write(CFG)
    r = random.Random("%d/types" % a.seed)
    rows, seen = [], set()
    while len(rows) < a.per:
        bad = r.random() < 0.55
        g = G(r, bad); c = g.stmt()
        if bad and g.bad or g.size > 14 or c in seen:       # nothing was changed
            continue
        seen.add(c); rows.append((g.size, c, not bad, g.what))
    rows.sort(key=lambda x: (x[0], len(x[1])))
    # one run for all; a statement is rejected when an error is at its line or its line is in an error's backtrace
    def judge(chunk):
        f, res = compiler(a.out + "/c%d" % chunk[0][0], chunk)
        if res.returncode not in (0, 1) or "fatal error" in res.stderr:
            raise SystemExit("the compiler ended with %d\n%s" % (res.returncode, res.stderr[-2000:]))
        bad, n0 = set(), chunk[0][0]
        blocks = re.split(r"(?m)^(?=\S+:\d+:\d+: (?:fatal )?error: |In file included)", res.stderr)
        for b in blocks:
            if "error:" in b:
                for m in re.finditer(re.escape(os.path.basename(f)) + r":(\d+):", b):
                    k = int(m.group(1)) - 1001
                    if 0 <= k < len(chunk):
                        bad.add(chunk[k][0])
        return bad, res
    chunks = [[(i, rows[i][1]) for i in range(k, len(rows), 8)] for k in range(8)]
    for ch in chunks:
        d = a.out + "/c%d" % ch[0][0]; os.makedirs(os.path.join(d, "cfgt", "spatialops"), exist_ok=True)
        open(os.path.join(d, "cfgt", "spatialops", "SpatialOpsConfigure.h"), "w").write(CFG)
    rejected = set()
    with ThreadPoolExecutor(8) as ex:
        for bad, _ in ex.map(judge, chunks):
            rejected |= bad
    odd = [i for i, x in enumerate(rows) if (i not in rejected) != x[2]]
    def alone(i):
        f, res = compiler(a.out, [(i, rows[i][1])])
        return i, res.returncode == 0, res.stderr
    err = {}
    with ThreadPoolExecutor(8) as ex:
        for i, ok, e in ex.map(alone, odd[:64]):
            (rejected.discard if ok else rejected.add)(i)
            err[i] = e
    with open(os.path.join(a.out, "types.inc"), "w") as o:
        for i, (n, c, good, what) in enumerate(rows):
            e = ""
            if i in rejected and good:
                m = re.search(r"error: .*", err.get(i, "")); e = m.group(0)[:300] if m else ""
            o.write('{ %s, %d, %d, %s, %s },\n' % (q(c), good, i not in rejected, q(what), q(e)))
    print("%d statements, %d rejected, %d checked alone" % (len(rows), len(rejected), len(odd)))


def q(s):
    return '"%s"' % s.replace("\\", "\\\\").replace('"', '\\"')


main()
