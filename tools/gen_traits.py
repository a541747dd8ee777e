#!/usr/bin/env python3
"""Generates compile-time triplet expressions (library templates over random
triplets) with the same expression in postfix form for the checker's own
interpreter.  Writes OUT/traits<k>.inc.

  --tus N --per M --seed S --out DIR
"""
import argparse, os, random

BOUND = 1000
BIN = {"+": "SS::Add<{0},{1} >::result", "-": "SS::Subtract<{0},{1} >::result", "*": "SS::Multiply<{0},{1} >::result",
       "<": "SS::LessThan<{0},{1} >::result", ">": "SS::GreaterThan<{0},{1} >::result"}


def value(p):
    """value of a postfix list, None when a component grows too large"""
    st, n = [], []
    for w in p:
        if w == "t":
            st.append(n)
            n = []
        elif w in ("n", "a", "p"):
            st[-1] = [{"n": -x, "a": abs(x), "p": max(0, x)}[w] for x in st[-1]]
        elif w in BIN:
            b = st.pop()
            st[-1] = [{"+": x + y, "-": x - y, "*": x * y, "<": int(x < y), ">": int(x > y)}[w] for x, y in zip(st[-1], b)]
            if max(abs(x) for x in st[-1]) > BOUND:
                return None
        else:
            n.append(int(w))
    return st[0]


def tree(r, depth):
    """(type text, postfix list)"""
    if depth == 0 or r.random() < 0.1:
        m = r.choice((1, 1, 2, 9))
        t = [r.randint(-m, m) for _ in range(3)]
        return "SS::IndexTriplet<%d,%d,%d>" % tuple(t), [str(x) for x in t] + ["t"]
    if r.random() < 0.35:
        k = r.choice("nap")
        a, p = tree(r, depth - 1)
        return a + "::" + {"n": "Negate", "a": "Abs", "p": "PositiveOrZero"}[k], p + [k]
    k = r.choice("++--**<>")
    a, p = tree(r, depth - 1)
    b, q = tree(r, depth - r.randint(1, depth))
    return BIN[k].format(a, b), p + q + [k]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--tus", type=int, default=1)
    ap.add_argument("--per", type=int, default=300)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--out", required=True)
    ap.add_argument("--profile", default="")
    a = ap.parse_args()
    os.makedirs(a.out, exist_ok=True)
    for k in range(a.tus):
        r = random.Random(a.seed * 1009 + k)
        with open(os.path.join(a.out, "traits%d.inc" % k), "w") as f:
            for i in range(a.per):
                t, p = tree(r, r.randint(1, 4))
                while value(p) is None:
                    t, p = tree(r, r.randint(1, 4))
                f.write('ROW( "%s", %s )\n' % (" ".join(p), t))
            m = r.choice((2, 50, 100000))
            for i in range(a.per // 3):
                m = r.choice((2, 50, 100000))
                x, y = r.randint(-m, m), r.randint(-m, m)
                if r.random() < 0.2:
                    y = x
                f.write("NUM( %d, %d )\n" % (x, y))


main()
