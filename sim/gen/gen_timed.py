#!/usr/bin/env python3
"""Generates harness/src/gen/timed.rs: timed two-party programs as session types (fixed seed)."""
import os
import random

OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "src", "gen")
TYS = ["u64", "i64", "String", "Tok", "(u64, Box<Tok>)", "Big", "Option<Vec<u64>>"]
B = {True: "true", False: "false"}
BIG = 9000000000000


def window(rng, val):
    """val: nominal value (s) of each clock; returns the window text and the nominal duration."""
    c = rng.choice("abc")
    v = val[c]
    k = rng.random()
    si, ei = rng.random() < 0.6, rng.random() < 0.6
    if k < 0.10:
        s, e, si, ei = rng.choice([(-2, -1), (-1, -1), (-5, -1)]) + (False, False)
    elif k < 0.25:
        s, e = -1, v + rng.randrange(1, 5)
    elif k < 0.40:
        s, e = max(0, v + rng.randrange(-1, 3)), -1
    elif k < 0.47:
        s, e, si, ei = v + 1, v + 1, True, True
    elif k < 0.50:
        s, e = max(0, v - 1), BIG
    elif k < 0.53:
        s, e = v + 2, v + 1  # empty
    else:
        s = max(0, v + rng.randrange(-2, 3))
        e = max(s, v) + rng.randrange(1, 6)
    r = rng.choice("    abc") if rng.random() < 0.7 else c
    wait = max(0, s - v + (0 if si else 1)) if s >= 0 else 0
    for x in val:
        val[x] += wait
    if r != " ":
        val[r] = 0
    return "'%s', %d, %s, %d, %s, '%s'" % (c, s, B[si], e, B[ei], r)


def chain(rng, n, val, depth, n_ops):
    """Returns the type (text) of the forked side and its longest length."""
    if n == 0:
        return "End", 1
    k = rng.random()
    w = window(rng, val)
    d = rng.choice(["SendTimed", "RecvTimed"])
    if k < 0.18 and depth < 2:
        l, a = chain(rng, n - 1, dict(val), depth + 1, n_ops)
        r, b = chain(rng, max(0, n - 2), dict(val), depth + 1, n_ops)
        if d == "SendTimed":
            # the receiver gets the duals
            l, r = "<%s as Session>::Dual" % l, "<%s as Session>::Dual" % r
        return "%s<Either<%s, %s>, %s, End>" % (d, l, r, w), 1 + max(a, b)
    t, m = chain(rng, n - 1, val, depth, n_ops)
    return "%s<%s, %s, %s>" % (d, rng.choice(TYS), w, t), 1 + m


def main():
    o = ["// Generated by sim/gen/gen_timed.py. Do not edit."]
    names = []
    for i in range(56):
        rng = random.Random(9000 + i)
        val = {c: 0 for c in "abcd"}
        t, m = chain(rng, 1 + i % 6, val, 0, 0)
        o.append("type T%d = %s;" % (i, t))
        names.append(('t%d' % i, m, "go::<T%d>" % i))
    # a choice among the variants of an enum, made and offered with the library's macros
    for i in range(0 if os.environ.get("NOENUM") else 4):
        rng = random.Random(9500 + i)
        val = {c: 0 for c in "abcd"}
        w = window(rng, val)
        while "'a', -2" in w or "-1, false, -1" in w:
            w = window(rng, val)
        vs, m = [], 0
        for j in range(2 + i % 2):
            t, n = chain(rng, 1 + j, dict(val), 2, 0)
            o.append("type E%d_%d = %s;" % (i, j, t))
            vs.append("L%d(E%d_%d) = %d" % (j, i, j, j))
            m = max(m, n)
        o.append("timed_enum!(E%d, Sel%d, Off%d, { %s }, %s);" % (i, i, i, ", ".join(vs), w))
        names.append(("e%d" % i, m + 1, "go::<%s%d>" % ("Sel" if i % 2 else "Off", i)))
    o.append("pub static ALL: &[P] = &[%s];" % ", ".join('P { name: "timed/%s", clocks: "abcd", max: %d, go: %s }' % x for x in names))
    with open(os.path.join(OUT, "timed.rs"), "w") as f:
        f.write("\n".join(o) + "\n")


if __name__ == "__main__":
    main()
