#!/usr/bin/env python3
"""Generates Nebo expressions (C++), each with an equivalent scalar reference
evaluator built from the same syntax tree.  Writes OUT/tu<k>.inc.

  --profile point|mix|cond|interior|reduce   what to generate
  --tus N --per M --seed S --out DIR
"""
import argparse, os, random

FTS = ["SVolField", "SSurfXField", "YVolField", "ZSurfYField", "XVolField", "SSurfZField", "XSurfZField", "ZVolField"]
FIELDS = {"a": 1, "b": 2, "c": 4, "d": 8, "p": 16, "t": 32}
MASKS = {"m1": 64, "m2": 128}
BIN = ["+", "-", "*", "/"]
CMP = ["<", "<=", ">", ">=", "==", "!="]


class N:   # node
    __slots__ = ("k", "cpp", "ref", "uses", "size", "tags")

    def __init__(s, k, cpp, ref, uses=0, size=1, tags=()):
        s.k, s.cpp, s.ref, s.uses, s.size, s.tags = k, cpp, ref, uses, size, frozenset(tags)


def comb(kinds):
    if "F" in kinds or "X" in kinds:
        return "X"
    if "V" in kinds or "W" in kinds:
        return "W"
    return "S"


def field(n):
    return N("F", n, "c.%s" % n, FIELDS[n], 1, ("t",) if n == "t" else ())


def mk(k, cpp, ref, *kids, tag=()):
    u = 0; sz = 1; tg = set(tag)
    for x in kids:
        u |= x.uses; sz += x.size; tg |= x.tags
    return N(k, cpp, "T(%s)" % ref if k != "B" and k != "Q" else ref, u, sz, tg)


def binop(op, l, r):
    return mk(comb((l.k, r.k)), "(%s %s %s)" % (l.cpp, op, r.cpp), "%s %s %s" % (l.ref, op, r.ref), l, r, tag=("op" + op,))


def binfn(f, l, r):
    rf = {"pow": "std::pow", "min": "rmin", "max": "rmax"}[f]
    cf = f if comb((l.k, r.k)) != "S" else rf
    return mk(comb((l.k, r.k)), "%s(%s, %s)" % (cf, l.cpp, r.cpp), "%s(%s, %s)" % (rf, l.ref, r.ref), l, r, tag=(f,))


def un(f, x):
    if f == "-":
        return mk(comb((x.k,)), "(-%s)" % x.cpp, "-%s" % x.ref, x, tag=("neg",))
    rf = "std::fabs" if f == "abs" else "std::" + f
    cf = f if x.k != "S" else rf
    return mk(comb((x.k,)), "%s(%s)" % (cf, x.cpp), "%s(%s)" % (rf, x.ref), x, tag=(f,))


def lit(v):
    return N("S", repr(float(v)), repr(float(v)))


class G:
    exact = False      # comparisons only between operands built from + - *, whose float results a scalar model reproduces exactly

    def __init__(s, rng, masks=True, sv=True):
        s.r = rng; s.masks = masks; s.sv = sv

    def leaf(s, kinds="FFFFSV"):
        k = s.r.choice([x for x in kinds if s.sv or x != "V"])
        if k == "F":
            return field(s.r.choice("aabbccdpt"))
        if k == "S":
            w = s.r.randrange(3)
            if w == 2:
                return lit(s.r.choice([0.5, 1.0, 2.0, 3.0, 0.25, -1.5, 0.0] + ([] if s.exact else [0.1, -0.7])))
            n = ("s1", "s2")[w]
            return N("S", n, "c." + n, 0, 1, ("scalar",))
        n = s.r.choice(("v1", "v2"))
        return N("V", n, "c." + n, 0, 1, ("single",))

    def expr(s, depth):
        """any kind"""
        if depth <= 0 or s.r.random() < 0.12:
            return s.leaf()
        w = s.r.random()
        if w < 0.55:
            op = s.r.choice(BIN + ["min", "max"])
            l, r = s.expr(depth - 1), s.expr(depth - 1)
            if op == "/":
                r = binop("+", un("abs", r), lit(0.5))
            return binfn(op, l, r) if op in ("min", "max") else binop(op, l, r)
        if w < 0.57:      # whole-number powers of either sign
            return binfn("pow", s.leaf("FFFV") if s.r.random() < 0.6 else s.expr(depth - 2), lit(s.r.choice([2, 2, 3, 1, 0, -1, -2, 4])))
        if w < 0.62:
            return binfn("pow", binop("+", un("abs", s.expr(depth - 2)), lit(0.25)), s.r.choice([lit(2.0), lit(0.5), lit(-1.0), N("S", "s1", "c.s1"), field("p")]))
        if w < 0.85:
            f = s.r.choice(["-", "sin", "cos", "tan", "exp", "tanh", "abs", "sqrt", "log", "log10", "erf", "erfc"])
            x = s.expr(depth - 1)
            if f == "tan":
                x = un("tanh", x)
            if f == "exp":
                x = un("sin", x)
            if f == "sqrt":
                x = un("abs", x)
            if f in ("log", "log10"):
                x = binop("+", un("abs", x), lit(0.5))
            return un(f, x)
        return s.cond(depth)

    def fx(s, depth):
        for _ in range(200):
            e = s.expr(depth)
            if e.k in "FX":
                return e
        return field("a")

    def value(s, depth):
        """cond value: S, F or X"""
        for _ in range(200):
            e = s.expr(depth) if s.r.random() < 0.5 else s.leaf("FS")
            if e.k in "SFX":
                return e
        return field("b")

    def test(s, depth):
        w = s.r.random()
        if w < 0.10:
            n = s.r.choice(("q1", "q2"))
            return N("Q", n, "c." + n, 0, 1, ("bool",))
        if w < 0.28 and s.masks:
            n = s.r.choice(("m1", "m2"))
            return N("M", n, "c." + n, MASKS[n], 1, ("mask",))
        if w < 0.72 or depth <= 0:
            return s.cmp(depth)
        if w < 0.82:
            while True:
                x = s.test(depth - 1)
                if x.k in "BM":
                    return mk("B", "(!%s)" % x.cpp, "(!%s)" % x.ref, x, tag=("not",))
        while True:
            l, r = s.test(depth - 1), s.test(depth - 1)
            if l.k == "Q" and r.k == "Q":
                continue
            op = s.r.choice(("&&", "||"))
            return mk("B", "(%s %s %s)" % (l.cpp, op, r.cpp), "(%s %s %s)" % (l.ref, op, r.ref), l, r, tag=("and" if op == "&&" else "or",))

    def exactop(s):
        return binop(s.r.choice("+-*"), s.leaf(), s.leaf()) if s.r.random() < 0.4 else s.leaf()

    def cmp(s, depth):
        while s.exact:
            l, r = s.exactop(), s.exactop()
            if l.k in "FX" or r.k in "FX":
                op = s.r.choice(CMP)
                return mk("B", "(%s %s %s)" % (l.cpp, op, r.cpp), "(%s %s %s)" % (l.ref, op, r.ref), l, r, tag=("cmp",))
        while True:
            l = s.leaf() if s.r.random() < 0.6 else s.expr(min(depth, 1))
            r = s.leaf() if s.r.random() < 0.6 else s.expr(min(depth, 1))
            if l.k in "FX" or r.k in "FX":
                break
        op = s.r.choice(CMP)
        return mk("B", "(%s %s %s)" % (l.cpp, op, r.cpp), "(%s %s %s)" % (l.ref, op, r.ref), l, r, tag=("cmp",))

    def cond(s, depth, clauses=None):
        n = clauses if clauses else s.r.choice([1, 1, 2, 2, 3])
        cl = [(s.test(1), s.value(depth - 2)) for _ in range(n)]
        d = s.value(depth - 2)
        return mkcond(cl, d)


def mkcond(cl, d):
    if all(t.k == "Q" for t, _ in cl) and all(v.k == "S" for _, v in cl) and d.k == "S":
        k = "S"
    else:
        k = "X"
    cpp = "cond" + "".join("(%s, %s)" % (t.cpp, v.cpp) for t, v in cl) + "(%s)" % d.cpp
    ref = d.ref
    for t, v in reversed(cl):
        ref = "(%s ? %s : %s)" % (t.ref, v.ref, ref)
    kids = [x for tv in cl for x in tv] + [d]
    return mk(k, cpp, ref, *kids, tag=("cond%d" % min(len(cl), 4),))


def op_table():
    """every operator on every pair of operand kinds it accepts"""
    L = {"S": N("S", "s1", "c.s1"), "F": field("p"), "X": binop("+", binop("*", field("p"), field("p")), lit(0.25)),
         "V": N("V", "v1", "c.v1"), "W": binop("+", binop("*", N("V", "v1", "c.v1"), N("V", "v1", "c.v1")), lit(0.5))}
    R = {"S": N("S", "s2", "c.s2"), "F": field("b"), "X": binop("-", field("b"), field("c")),
         "V": N("V", "v2", "c.v2"), "W": binop("-", N("V", "v2", "c.v2"), N("S", "s2", "c.s2"))}
    out = []
    for op in BIN + ["pow", "min", "max"] + CMP:
        for l in "SFXVW":
            for r in "SFXVW":
                if l == "S" and r == "S":
                    continue
                if op in CMP:
                    if not ({"F", "X"} & {l, r}):
                        continue
                    b = mk("B", "(%s %s %s)" % (L[l].cpp, op, R[r].cpp), "(%s %s %s)" % (L[l].ref, op, R[r].ref), L[l], R[r])
                    e = mkcond([(b, lit(1))], lit(0))
                elif op in BIN:
                    e = binop(op, L[l], R[r])
                else:
                    e = binfn(op, L[l], R[r])
                e.tags = frozenset(["table", "kinds:" + l + r, "op" + op])
                out.append(e)
    for f in ["-", "sin", "cos", "tan", "exp", "tanh", "abs", "sqrt", "log", "log10", "erf", "erfc"]:
        for k in "FXVW":
            e = un(f, (L if f in ("sqrt", "log", "log10") else R)[k])
            e.tags = frozenset(["table", "kinds:" + k, "op" + f]); out.append(e)
    for x in (2, 3, 0.5, -1, -2, 0, 1):       # powers with a constant exponent, of bases of either sign where that is defined
        for k in "FXV":
            b = (L if x == 0.5 or k == "V" else R)[k]
            e = binfn("pow", b, lit(x)); e.tags = frozenset(["table", "kinds:" + k + "S", "pow"]); out.append(e)
    for k in "SFXVW":       # bare right-hand sides
        e = L[k]; e = N(e.k, e.cpp, e.ref, e.uses, e.size, ("table", "bare:" + k)); out.append(e)
    return out


def cond_table():
    T = {"Q": N("Q", "q1", "c.q1"), "B": mk("B", "(a < b)", "(c.a < c.b)", field("a"), field("b")), "M": N("M", "m1", "c.m1", MASKS["m1"])}
    T2 = {"Q": N("Q", "q2", "c.q2"), "B": mk("B", "(c >= s1)", "(c.c >= c.s1)", field("c")), "M": N("M", "m2", "c.m2", MASKS["m2"])}
    V = {"S": N("S", "s1", "c.s1"), "F": field("c"), "X": binop("+", field("a"), field("d"))}
    V2 = {"S": N("S", "s2", "c.s2"), "F": field("d"), "X": binop("*", field("b"), N("S", "s2", "c.s2"))}
    V3 = {"S": lit(7.5), "F": field("p"), "X": binop("-", field("p"), field("t"))}
    out = []
    ks = "SFX"
    for t in "QBM":
        for v in ks:
            for d in ks:
                e = mkcond([(T[t], V[v])], V3[d]); e.tags = frozenset(["ctable", "cond1"]); out.append(e)
    i = 0
    for t in "QBM":
        for t2 in "QBM":
            for v in ks:
                for v2 in ks:
                    d = ks[i % 3]; i += 1
                    e = mkcond([(T[t], V[v]), (T2[t2], V2[v2])], V3[d]); e.tags = frozenset(["ctable", "cond2"]); out.append(e)
    # logical operators
    for op in ("&&", "||"):
        for t in "QBM":
            for t2 in "QBM":
                if t == "Q" and t2 == "Q":
                    continue
                b = mk("B", "(%s %s %s)" % (T[t].cpp, op, T2[t2].cpp), "(%s %s %s)" % (T[t].ref, op, T2[t2].ref), T[t], T2[t2])
                e = mkcond([(b, V["F"])], V2["S"]); e.tags = frozenset(["ctable", "logic"]); out.append(e)
    for t in "BM":
        b = mk("B", "(!%s)" % T[t].cpp, "(!%s)" % T[t].ref, T[t]); e = mkcond([(b, V["F"])], V2["S"]); e.tags = frozenset(["ctable", "logic"]); out.append(e)
    return out


PROLOG = "using namespace SpatialOps; FT &a=*e.a.f,&b=*e.b.f,&c=*e.c.f,&d=*e.d.f,&p=*e.p.f; auto &v1=*e.v1,&v2=*e.v2; " \
         "const auto &m1=*e.m1,&m2=*e.m2; const double s1=e.s1,s2=e.s2; const bool q1=e.q1,q2=e.q2;"


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--profile", default="point"); ap.add_argument("--tus", type=int, default=4); ap.add_argument("--per", type=int, default=30)
    ap.add_argument("--table", type=int, default=1); ap.add_argument("--depth", type=int, default=4)
    ap.add_argument("--seed", type=int, default=1); ap.add_argument("--out", default="."); ap.add_argument("--prefix", default="tu")
    ap.add_argument("--float", action="store_true", help="single-precision fields; tests compare only exactly rounded operands")
    a = ap.parse_args()
    rng = random.Random("%d/%s" % (a.seed, a.profile))
    ents = []
    pr = a.profile
    if a.table and pr == "point":
        ents += op_table()
    if a.table and pr == "cond":
        ents += cond_table()
    rng.shuffle(ents)
    seen = set()
    while len(ents) < a.tus * a.per:
        g = G(rng); g.exact = a.float
        if pr == "cond":
            w = rng.random()
            e = g.cond(rng.choice([2, 3, 3]), rng.choice([1, 2, 2, 3, 3, 4, 5]))
            if w < 0.25:
                e = binop(rng.choice("+-*"), e, g.leaf("FS"))
        elif pr in ("mix", "interior", "reduce"):
            e = g.expr(rng.choice([0, 1, 1, 2, 2, 3]))
        else:
            e = g.expr(rng.choice([2, 3, 3, 4, 4, 5]))
        if e.k == "S" and pr != "mix":
            continue
        if pr == "point" and rng.random() < 0.9 and e.k not in "FX":
            continue
        if pr == "cond" and (e.k != "X"):
            continue
        if pr == "reduce" and (e.k not in "FX" or "t" in e.tags):
            continue
        if e.size > 45 or e.cpp in seen:
            continue
        seen.add(e.cpp)
        ents.append(e)
    fts = ["SpatialField<SpatialOps::structured::%s,float>" % x for x in ("SVol", "XVol", "YSurfZ")] if a.float else FTS[:]
    rng.shuffle(fts)
    if a.tus <= len(fts):   # at least one staggered in some direction, one not
        pass
    for tu in range(a.tus):
        part = ents[tu::a.tus]
        L = ["// generated, profile %s seed %d" % (pr, a.seed), "typedef SpatialOps::structured::%s FT; typedef CellT<FT::value_type> Cell; typedef RT<FT::value_type> R;" % fts[tu % len(fts)]]
        regs = []
        for i, e in enumerate(part):
            body = []
            # every second expression is built in a function of its own and kept in a variable until it is used
            kept = e.k == "X" and i % 2
            local = PROLOG.replace("FT &a=*e.a.f,&b=*e.b.f,&c=*e.c.f,&d=*e.d.f,&p=*e.p.f; auto &v1=*e.v1,&v2=*e.v2; const auto &m1=*e.m1,&m2=*e.m2;",
                                   "const FT a(*e.a.f),b(*e.b.f),c(*e.c.f),d(*e.d.f),p(*e.p.f); const auto v1=*e.v1,v2=*e.v2; const auto m1=*e.m1,m2=*e.m2;") if i % 4 == 1 else ""
            assert i % 4 != 1 or local != PROLOG
            if "t" in e.tags:
                local = ""
            PRE, CPP = (PROLOG + " const auto kx = so::keep([&]{ %s return %s; });" % (local, e.cpp), "kx") if kept else (PROLOG, e.cpp)
            if pr != "interior" and pr != "reduce":
                body.append("static void assign(FT& t, Env<FT>& e){ %s t <<= %s; }" % (PRE, CPP))
            else:
                body.append("static void assign(FT&, Env<FT>&){}")
            if pr in ("interior", "mix"):
                body.append("static void iassign(FT& t, Env<FT>& e){ %s interior_assign(t, %s); }" % (PRE, CPP))
            else:
                body.append("static void iassign(FT&, Env<FT>&){}")
            if pr == "reduce":
                body.append("static double red(int w, Env<FT>& e){ %s switch(w){ case 0: return nebo_min(%s); case 1: return nebo_max(%s); case 2: return nebo_sum(%s); case 3: return nebo_norm(%s);"
                            " case 4: return nebo_min_interior(%s); case 5: return nebo_max_interior(%s); case 6: return nebo_sum_interior(%s); default: return nebo_norm_interior(%s);} }" % ((PRE,) + (CPP,) * 8))
            else:
                body.append("static double red(int, Env<FT>&){ return 0; }")
            L.append("struct X%d {\n  %s\n  static double ref(const Cell& c, R& T){ (void)c; (void)T; return %s; }\n};" % (i, "\n  ".join(body), e.ref))
            text = e.cpp.replace('"', "") + (" (kept)" if kept else "")
            regs.append("  { \"%s\", %d, %d, \"%s\", &X%d::assign, &X%d::iassign, &X%d::red, &X%d::ref }," % (text, e.uses, e.size, " ".join(sorted(e.tags)), i, i, i, i))
        L.append("static const Entry<FT> ENTRIES[] = {\n" + "\n".join(regs) + "\n};\nenum { NENTRIES = %d };" % len(part))
        with open(os.path.join(a.out, "%s%d.inc" % (a.prefix, tu)), "w") as f:
            f.write("\n".join(L) + "\n")


if __name__ == "__main__":
    main()
