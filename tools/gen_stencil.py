#!/usr/bin/env python3
"""Generates expressions that apply staggered-mesh operators, each with a scalar
reference built from the same tree out of the staggering table below (not from
the library's stencil collections), the offsets at which every operand is read,
and a version evaluated step by step.  Writes OUT/tu<k>.inc.

  --profile ops|expr|chain|filter|custom|reduce|bc    --tus N --per M --seed S --out DIR
"""
import argparse, os, random

# location of each field type relative to the cell (-1: half a cell towards the minus side)
OFF = {"SVol": (0, 0, 0), "SSurfX": (-1, 0, 0), "SSurfY": (0, -1, 0), "SSurfZ": (0, 0, -1),
       "XVol": (-1, 0, 0), "XSurfX": (0, 0, 0), "XSurfY": (-1, -1, 0), "XSurfZ": (-1, 0, -1),
       "YVol": (0, -1, 0), "YSurfX": (-1, -1, 0), "YSurfY": (0, 0, 0), "YSurfZ": (0, -1, -1),
       "ZVol": (0, 0, -1), "ZSurfX": (-1, 0, -1), "ZSurfY": (0, -1, -1), "ZSurfZ": (0, 0, 0)}
TYPES = list(OFF)
VOLS = ["SVol", "XVol", "YVol", "ZVol"]


def operators():
    o = []
    for v in VOLS:
        p = v[0]
        for d in "XYZ":
            f = p + "Surf" + d
            o += [("Interpolant", v, f), ("Interpolant", f, v), ("Gradient", v, f), ("Divergence", f, v)]
    for v, fs in (("XVol", ("YSurfX", "ZSurfX")), ("YVol", ("XSurfY", "ZSurfY")), ("ZVol", ("XSurfZ", "YSurfZ"))):
        for f in fs:
            o += [("Interpolant", v, f), ("Gradient", v, f)]
    for v in ("XVol", "YVol", "ZVol"):
        o += [("Interpolant", "SVol", v), ("Gradient", "SVol", v), ("Interpolant", v, "SVol"), ("Gradient", v, "SVol")]
    for v in VOLS:
        o += [("Interpolant", v, v), ("Filter", v, v)]
        for d in "XYZ":
            o += [("Interpolant" + d, v, v), ("Gradient" + d, v, v)]
    for d in "XYZ":
        o += [("Interpolant", d + "Vol", "SSurf" + d), ("Interpolant", "SVol", d + "Surf" + d), ("Interpolant", d + "Surf" + d, "SVol")]
        for q in "XYZ":
            if q != d:
                o += [("Interpolant", "SVol", d + "Surf" + q), ("Interpolant", d + "Surf" + q, "SVol"), ("Interpolant", d + "Vol", q + "Vol")]
    return o


OPS = operators()
assert len(OPS) == len(set(OPS))


CUST = {}      # user-defined stencils: kind -> (points, weights as C text, description)


def custom(form, pts):
    """kind of a stencil with the given points: weighted (coefficients e.cw), summed or averaged"""
    k = "%s{%s}" % (form, "".join("(%d,%d,%d)" % p for p in pts))
    CUST[k] = (pts, ["e.cw[%d]" % i if form == "weigh" else "1.0" if form == "sum" else "(1.0/%d.0)" % len(pts) for i in range(len(pts))])
    return k


BOXES = {"2DXY": "xy", "2DXZ": "xz", "2DYZ": "yz", "1DX": "x", "1DY": "y", "1DZ": "z", "3D": "xyz"}


def boxfilter(b):
    """one of the library's predefined box filters"""
    r = lambda a: (-1, 0, 1) if a in BOXES[b] else (0,)
    pts = [(x, y, z) for z in r("z") for y in r("y") for x in r("x")]
    k = "Box" + b
    CUST[k] = (pts, ["(1.0/%d.0)" % len(pts)] * len(pts))
    return k


def opobj(op):
    """C++ expression for the operator"""
    k, s, d = op
    if k not in CUST:
        return "(*e.db.retrieve_operator<%s>())" % optype(op)
    ft = "S::structured::%sField,S::structured::%sField" % (s, d)
    if k.startswith("Box"):
        return "S::NeboAverageStencilBuilder<S::BoxFilter%sStencilCollection::StPtCollection,%s>()" % (k[3:], ft)
    pts = CUST[k][0]
    t = "S::NeboStencilPointCollection<S::structured::IndexTriplet<%d,%d,%d>,S::NeboNil>" % pts[0] + "".join("::AddPoint<S::structured::IndexTriplet<%d,%d,%d> >::Result" % p for p in pts[1:])
    if k.startswith("weigh"):
        return "S::NeboStencilBuilder<S::Interpolant,%s,%s>(S::build_coef_collection(e.cw[0])%s)" % (t, ft, "".join("(e.cw[%d])" % i for i in range(1, len(pts))))
    return "S::Nebo%sStencilBuilder<%s,%s>()" % ("Sum" if k.startswith("sum") else "Average", t, ft)


def stencil(op):
    """[(offset, weight as C text)]"""
    k, s, d = op
    if k in CUST:
        return list(zip(*CUST[k]))
    so, do = OFF[s], OFF[d]
    if k == "Filter":
        return [((x, y, z), "(1.0/27.0)") for z in (-1, 0, 1) for y in (-1, 0, 1) for x in (-1, 0, 1)]
    if k[-1] in "XYZ" and s == d:          # central, on the same field type
        a = "XYZ".index(k[-1])
        u = lambda m: tuple(m if i == a else 0 for i in range(3))
        return [(u(-1), "0.5"), (u(1), "0.5")] if k.startswith("Interp") else [(u(-1), "(-0.5/e.h[%d])" % a), (u(1), "(0.5/e.h[%d])" % a)]
    dirs = [i for i in range(3) if so[i] != do[i]]
    pts = [((0, 0, 0), None)]
    for i in dirs:                          # the two source cells surrounding the destination
        lo, hi = (-1, 0) if do[i] < so[i] else (0, 1)
        pts = [(tuple(p[j] + (m if j == i else 0) for j in range(3)), m == hi) for p, _ in pts for m in (lo, hi)]
    if k == "Interpolant":
        return [(p, repr(0.5 ** len(dirs))) for p, _ in pts]
    assert len(dirs) == 1
    return [(p, "(%s1.0/e.h[%d])" % ("" if up else "-", dirs[0])) for p, up in pts]


def optype(op):
    return "S::structured::OperatorTypeBuilder<S::%s,S::structured::%sField,S::structured::%sField>::type" % op


def shiftadd(a, b):
    return tuple((a[i][0] + b[i][0], a[i][1] + b[i][1]) for i in range(3))


class E:
    """typed expression; fn: list of reference helper functions; needs: {(operand, range)}; steps: statements"""
    def __init__(s, F, k, cpp, ref, needs=(), step=None, size=1, axes=0, pre=(), fns=(), depth=0):
        s.F, s.k, s.cpp, s.ref, s.needs, s.size, s.axes = F, k, cpp, ref, frozenset(needs), size, axes
        s.step = cpp if step is None else step
        s.pre, s.fns, s.depth = list(pre), list(fns), depth


Z = ((0, 0), (0, 0), (0, 0))


def leaf(F, which):
    n = 2 * TYPES.index(F) + which
    return E(F, "F", "F%d" % n, "e.at(%d,i,j,k)" % n, [(n, Z, Z)])


def mask(F):
    n = 32 + TYPES.index(F)
    return E(F, "M", "M%d" % (n - 32), "e.mask(%d,i,j,k)" % (n - 32), [(n, Z, Z)])


def join(F, k, fmt, rfmt, *xs):
    pre, fns, needs, ax, sz, dp = [], [], set(), 0, 1, 0
    for x in xs:
        pre += x.pre; fns += x.fns; needs |= x.needs; ax |= x.axes; sz += x.size; dp = max(dp, x.depth)
    r = rfmt % tuple(x.ref for x in xs)
    return E(F, k, fmt % tuple(x.cpp for x in xs), r if k == "B" else "T(%s)" % r, needs, fmt % tuple(x.step for x in xs), sz, ax, pre, fns, dp)


class G:
    def __init__(s, rng, filt=0.0):
        s.r = rng; s.n = 0; s.filt = filt; s.used = set()

    def apply(s, op, x):
        pts = stencil(op); k, src, dst = op; s.used.add(op)
        rng_ = tuple((min(p[i] for p, _ in pts), max(p[i] for p, _ in pts)) for i in range(3))
        s.n += 1; u = s.n
        fn = "static double n%d(const SEnv& e,int i,int j,int k,R& T){ (void)i;(void)j;(void)k; return %s; }" % (u, x.ref)
        ref = "T(%s)" % " + ".join("T(%s*n%d(e,i%+d,j%+d,k%+d,T))" % ((w, u) + p) for p, w in pts)
        needs = {(n, shiftadd(r, rng_), shiftadd(c, tuple((min(l, 0), max(h, 0)) for l, h in rng_))) for n, r, c in x.needs}
        axes = x.axes
        for p, _ in pts:
            for i in range(3):
                if p[i]:
                    axes |= 1 << i
        nl = "{" + ",".join(need(n) for n in sorted(x.needs)) + "}"
        pre = x.pre + ["Box<S::structured::%sField> u%d; const Need N%d[]=%s; if(!e.scratch(u%d,N%d,%d)) return false; *u%d.f <<= %s; e.finish(u%d,N%d,%d);"
                       % (src, u, u, nl, u, u, len(x.needs), u, x.step, u, u, len(x.needs))]
        return E(dst, "X", "%s(%s)" % (opobj(op), x.cpp), ref, needs,
                 "%s(*u%d.f)" % (opobj(op), u), x.size + len(pts), axes, pre, x.fns + [fn], x.depth + 1)

    def scalar(s):
        w = s.r.randrange(4)
        t = ["e.s1", "e.s2", "0.5", "-1.25"][w]
        return E(None, "S", t, t)

    def expr(s, F, depth, mustop=False):
        """expression over field type F"""
        w = s.r.random()
        if depth <= 0 or (not mustop and w < 0.15):
            return leaf(F, s.r.randrange(2))
        if mustop or w < 0.6:
            ops = [o for o in OPS if o[2] == F and (o[0] != "Filter")]
            if ops:
                if depth > 1 or mustop:
                    pref = [o for o in ops if o[1] != F]
                    if pref and s.r.random() < 0.7:
                        ops = pref
                op = s.r.choice(ops)
                if F in VOLS and s.r.random() < s.filt:
                    return s.apply(("Filter", F, F), leaf(F, s.r.randrange(2)) if s.r.random() < 0.6 else s.expr(F, 0))
                return s.apply(op, s.expr(op[1], depth - 1))
        if w < 0.85:
            o = s.r.choice(["+", "-", "*", "+", "-", "*", "min", "max"])
            l, r = s.expr(F, depth - 1), s.expr(F, depth - 1) if s.r.random() < 0.75 else s.scalar()
            if s.r.random() < 0.3:
                l, r = r, l
            if o in ("min", "max"):
                return join(F, "X", o + "(%s, %s)", "r" + o + "(%s, %s)", l, r)
            return join(F, "X", "(%s " + o + " %s)", "%s " + o + " %s", l, r)
        if w < 0.92:
            f = s.r.choice(["sin", "tanh", "abs", "-"])
            x = s.expr(F, depth - 1)
            return join(F, "X", "(-%s)" if f == "-" else f + "(%s)", "-%s" if f == "-" else ("std::fabs(%s)" if f == "abs" else "std::" + f + "(%s)"), x)
        if s.r.random() < 0.5:
            t = mask(F)
        else:   # comparisons of plain fields only: near-ties of computed values are no concern then
            t = join(F, "B", "(%s < %s)", "(%s < %s)", leaf(F, 0), leaf(F, 1))
        a, b = s.expr(F, depth - 1), s.expr(F, depth - 1) if s.r.random() < 0.7 else s.scalar()
        return join(F, "X", "cond(%s, %s)(%s)", "(%s ? %s : %s)", t, a, b)


def need(n):
    return "{%d,%s}" % (n[0], ",".join("{%d,%d,%d}" % tuple(r[i][q] for i in range(3)) for r in n[1:] for q in (0, 1)))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--profile", default="ops"); ap.add_argument("--tus", type=int, default=8); ap.add_argument("--per", type=int, default=18)
    ap.add_argument("--seed", type=int, default=1); ap.add_argument("--out", default="."); ap.add_argument("--prefix", default="tu")
    a = ap.parse_args()
    rng = random.Random("%d/%s" % (a.seed, a.profile))
    if a.profile == "bc":
        two = [o for o in OPS if len(stencil(o)) == 2]
        for tu in range(a.tus):
            with open(os.path.join(a.out, "%s%d.inc" % (a.prefix, tu)), "w") as f:
                for i, o in enumerate(two[tu::a.tus]):
                    (p0, c0), (p1, c1) = stencil(o)
                    d = [x for x in range(3) if p0[x] != p1[x]][0]
                    f.write("BCOP(%d, (%s), %s, %s, %d, %d, %d, %s, %s, \"%s[%s>%s]\", %d)\n" % ((i, optype(o), o[1], o[2], d, p0[d], p1[d], c0, c1) + o + (o[1] != o[2],)))
                f.write("enum { NOPS = %d };\n" % len(two[tu::a.tus]))
        return
    ents, seen = [], set()
    g = G(rng, 0.15 if a.profile == "expr" else 0.04)
    if a.profile in ("ops", "opsmix"):
        for o in OPS:
            if o[0] != "Filter":
                ents.append((g.apply(o, leaf(o[1], rng.randrange(2))), o))
        rng.shuffle(ents)
        if a.profile == "opsmix":
            ents = ents[:a.tus * a.per]
    elif a.profile == "reduce":     # reduced rather than assigned
        pool = [o for o in OPS if o[0] == "Filter"] + rng.sample([o for o in OPS if o[0] != "Filter"], min(len(OPS) - 4, max(4, a.tus * a.per // 3)))
        for o in pool:
            ents.append((g.apply(o, leaf(o[1], rng.randrange(2))), None))
        rng.shuffle(ents)
        while len(ents) < a.tus * a.per:
            F = rng.choice(TYPES); e = g.expr(F, rng.choice([1, 2, 2]), mustop=rng.random() < 0.7)
            if e.k == "X" and e.depth and e.size <= 34 and e.needs and e.cpp not in seen:
                seen.add(e.cpp); ents.append((e, None))
    elif a.profile == "filter":
        for v in VOLS:
            ents.append((g.apply(("Filter", v, v), leaf(v, 0)), ("Filter", v, v)))
            x = rng.choice([join(v, "X", "(%s * %s)", "%s * %s", leaf(v, 0), leaf(v, 1)), join(v, "X", "(%s - %s)", "%s - %s", leaf(v, 1), E(None, "S", "e.s1", "e.s1")), join(v, "X", "(-%s)", "-%s", leaf(v, 0))])
            ents.append((g.apply(("Filter", v, v), x), None))
            y = g.apply(("Filter", v, v), leaf(v, 1))
            ents.append((join(v, "X", "(%s - %s)", "%s - %s", leaf(v, 1), y), None))
        for b in BOXES:
            v = rng.choice(VOLS)
            op = (boxfilter(b), v, v)
            ents.append((g.apply(op, leaf(v, 0)), op))
            v = rng.choice(VOLS)
            ents.append((g.apply((op[0], v, v), join(v, "X", "(%s * %s)", "%s * %s", leaf(v, 0), leaf(v, 1))), None))
        flat = [b for b in BOXES if b != "3D"]; rng.shuffle(flat)
        for q in range(a.per // 2):      # inside each other, around and inside other operators
            v = rng.choice(VOLS); b1, b2 = rng.choice(sorted(BOXES)), flat[q % len(flat)]
            if rng.random() < 0.5:
                b1, b2 = b2, b1
            inner = g.apply((boxfilter(b2), v, v), leaf(v, rng.randrange(2)))
            if rng.random() < 0.4:
                inner = join(v, "X", "(%s * %s)", "%s * %s", inner, leaf(v, 0))
            ents.append((g.apply((boxfilter(b1), v, v), inner), None))
            o = rng.choice([o for o in OPS if o[2] in VOLS and o[1] != o[2]])
            ents.append((g.apply((boxfilter(rng.choice(sorted(BOXES))), o[2], o[2]), g.apply(o, leaf(o[1], rng.randrange(2)))), None))
            o = rng.choice([o for o in OPS if o[1] in VOLS and o[1] != o[2] and o[2] in VOLS])
            ents.append((g.apply(o, g.apply((boxfilter(rng.choice(sorted(BOXES))), o[1], o[1]), leaf(o[1], rng.randrange(2)))), None))
    elif a.profile == "custom":
        def points():
            n = rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 7, 9])
            m = rng.choice([1, 1, 1, 2]); dirs = rng.choice([(1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (1, 0, 1), (0, 1, 1), (1, 1, 1), (1, 1, 1)])
            return [tuple(rng.randint(-m, m) * dirs[i] for i in range(3)) for _ in range(n)]
        while len(ents) < a.tus * a.per:
            form = rng.choice(["weigh", "weigh", "weigh", "sum", "average"])
            src = rng.choice(TYPES); dst = rng.choice([src, rng.choice(TYPES), rng.choice(TYPES)])
            op = (custom(form, points()), src, dst)
            w = rng.random()
            if w < 0.55:
                e, o = g.apply(op, leaf(src, rng.randrange(2))), op
            else:
                e, o = g.apply(op, g.expr(src, rng.choice([0, 1, 1, 2]))), None
                if w > 0.85:
                    e = join(dst, "X", "(%s " + "*" + " %s)", "%s * %s", leaf(dst, rng.randrange(2)), e)
                if w > 0.92:
                    d2 = rng.choice(TYPES); e = g.apply((custom(rng.choice(["weigh", "sum", "average"]), points()[:3]), dst, d2), e)
            if e.size > 60 or not e.needs or e.cpp in seen or max(max(-r[i][0], r[i][1]) for _, r, _ in e.needs for i in range(3)) > 4:
                continue
            seen.add(e.cpp); ents.append((e, o))
    else:
        if a.profile == "chain":        # filters and other sums inside and around operators and each other
            def add(e):
                seen.add(e.cpp); ents.append((e, None))
            v = rng.choice(VOLS)
            add(g.apply(("Filter", v, v), g.apply(("Filter", v, v), leaf(v, 0))))
            for q in range(a.tus):
                v = rng.choice(VOLS); b1, b2 = rng.choice(sorted(BOXES)), rng.choice([b for b in sorted(BOXES) if b != "3D"])
                if rng.random() < 0.5:
                    b1, b2 = b2, b1
                add(g.apply((boxfilter(b1), v, v), g.apply((boxfilter(b2), v, v), leaf(v, rng.randrange(2)))))
                o = rng.choice([o for o in OPS if o[2] in VOLS and o[1] != o[2]])
                add(g.apply((boxfilter(rng.choice(sorted(BOXES))), o[2], o[2]), g.apply(o, leaf(o[1], rng.randrange(2)))))
                o = rng.choice([o for o in OPS if o[1] in VOLS and o[1] != o[2]])
                add(g.apply(o, g.apply(("Filter", o[1], o[1]), leaf(o[1], rng.randrange(2)))))
        while len(ents) < a.tus * a.per:
            F = rng.choice(TYPES)
            d = rng.choice([1, 2, 2, 3]) if a.profile == "expr" else rng.choice([2, 2, 3, 3, 4])
            e = g.expr(F, d, mustop=(a.profile == "chain" or rng.random() < 0.7))
            if e.k != "X" or e.size > (46 if a.profile == "expr" else 60) or e.cpp in seen or not e.needs:
                continue
            if e.depth < (2 if a.profile == "chain" else 1):
                continue
            # number of leaf reads after expansion bounds the compile time
            if a.profile == "chain" and e.depth > 3:
                continue
            ext = max(max(-r[i][0], r[i][1]) for _, r, _ in e.needs for i in range(3))
            if ext > 4:
                continue
            seen.add(e.cpp); ents.append((e, None))
    for tu in range(a.tus):
        L = ["// generated, profile %s seed %d" % (a.profile, a.seed)]
        regs = []
        for i, (e, op) in enumerate(ents[tu::a.tus]):
            used = sorted({n for n, _, _ in e.needs})
            pro = " ".join("const auto& F%d=e.f<%d>();" % (n, n) if n < 32 else "const auto& M%d=*e.m<%d>().m;" % (n - 32, n) for n in used) + " (void)e;"
            nl = ",".join(need(n) for n in sorted(e.needs))
            fns = []
            for f in e.fns:
                if f not in fns:
                    fns.append(f)
            t = "S::structured::%sField" % e.F
            body = ["  " + f for f in fns]
            kept = i % 2 == 1     # built in a function of its own and kept in a variable until it is used
            kpro, kcpp = (pro + " const auto kx = so::keep([&]{ return %s; });" % e.cpp, "kx") if kept else (pro, e.cpp)
            if a.profile == "reduce":
                rd = " ".join("case %d: return nebo_%s(%s);" % (q, r, kcpp) for q, r in enumerate(("min", "max", "sum", "norm", "min_interior", "max_interior", "sum_interior", "norm_interior")))
                body.append("  static double red(int w,SEnv& e){ using namespace SpatialOps; %s switch(w){ %s } return 0; }\n  static void assign(void*,SEnv&){}" % (kpro, rd))
            else:
                body.append("  static void assign(void* tp,SEnv& e){ using namespace SpatialOps; auto& t=*static_cast<%s*>(tp); %s t <<= %s; }" % (t, kpro, kcpp))
            if a.profile == "chain":
                body.append("  static bool steps(void* tp,SEnv& e){ using namespace SpatialOps; auto& t=*static_cast<%s*>(tp); %s %s t <<= %s; return true; }" % (t, pro, " ".join(e.pre), e.step))
            elif op:
                body.append("  static bool steps(void* tp,SEnv& e){ using namespace SpatialOps; auto& t=*static_cast<%s*>(tp); %s %s.apply_to_field(F%d,t); return true; }" % (t, pro, opobj(op), used[0]))
            else:
                body.append("  static bool steps(void*,SEnv&){ return false; }")
            body.append("  static double ref(const SEnv& e,int i,int j,int k,R& T){ (void)T;(void)i;(void)j;(void)k; return %s; }" % e.ref)
            body.append("  static const Need* needs(){ static const Need n[]={%s}; return n; }" % nl)
            L.append("struct X%d {\n%s\n};" % (i, "\n".join(body)))
            text = e.cpp + (" (kept)" if kept else "")
            for o in OPS:
                text = text.replace("(*e.db.retrieve_operator<%s>())" % optype(o), "%s[%s>%s]" % o)
            for k, sr, ds in g.used:
                if k in CUST:
                    text = text.replace(opobj((k, sr, ds)), "%s[%s>%s]" % (k, sr, ds))
            import re
            text = re.sub(r"\bF(\d+)\b", lambda m: TYPES[int(m.group(1)) // 2].lower() + "ab"[int(m.group(1)) % 2], text)
            text = re.sub(r"\bM(\d+)\b", lambda m: "mask" + TYPES[int(m.group(1))], text)
            regs.append("  { \"%s\", %d, %d, %d, %d, X%d::needs(), %d, &X%d::assign, &X%d::steps, &X%d::ref%s }," % (text, TYPES.index(e.F), e.axes, e.size, e.depth, i, len(e.needs), i, i, i, ", &X%d::red" % i if a.profile == "reduce" else ""))
        L.append("static const SEntry ENTRIES[] = {\n" + "\n".join(regs) + "\n};\nenum { NENTRIES = sizeof(ENTRIES)/sizeof(ENTRIES[0]) };")
        with open(os.path.join(a.out, "%s%d.inc" % (a.prefix, tu)), "w") as f:
            f.write("\n".join(L) + "\n")


if __name__ == "__main__":
    main()
