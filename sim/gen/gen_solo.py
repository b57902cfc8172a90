#!/usr/bin/env python3
"""Generates harness/src/gen/solo.rs: protocols whose roles are all played by one thread, in an order
that respects causality but delays receives arbitrarily (fixed seeds)."""
import os
import random

from gen import OUT, Fam, parse, rand_proto
from gen_inter import Half


def order(msgs, n, rng):
    """A random order of the sends and receives that keeps each role's own order and each send before its receive."""
    todo = [[] for _ in range(n)]
    for k, (p, q, ty) in enumerate(msgs):
        todo[p].append(("s", k))
        todo[q].append(("r", k))
    sent, out = set(), []
    while any(todo):
        can = [r for r in range(n) if todo[r] and (todo[r][0][0] == "s" or todo[r][0][1] in sent)]
        r = rng.choice(can)
        d, k = todo[r].pop(0)
        if d == "s":
            sent.add(k)
        out.append((d,) + msgs[k])
    return out


def solo(name, pr, rng):
    o = []
    w = o.append
    n, R = pr.n, pr.roles
    low = [r.lower() for r in R]
    w("pub mod %s {" % name)
    w("use super::pre::*;")
    w('mpstthree::generate!("rec_and_cancel", Mesh, %s);' % ", ".join(R))
    w("mpstthree::close_mpst_interleaved!(close_all, Mesh, %d);" % n)
    w("mpstthree::fork_mpst_multi_solo!(fork_solo, Mesh, %d);" % n)
    h = Half(pr, "Mesh", "A", 0, None)
    h.types(w)
    ss = ", ".join("s_%s" % x for x in low)

    def args(t):
        return ", ".join("s_%s: %s" % (low[r], t % R[r]) for r in range(n))

    def body(b, P):
        for (d, p, q, ty) in order(b[0], n, rng):
            if d == "s":
                w(P + "h(%d).pre(); let x = h(%d).mk::<%s>(%d); let s_%s = s_%s.send(x)?; h(%d).sent();" % (p, p, ty, q, low[p], low[p], p))
            else:
                w(P + "h(%d).pre(); h(%d).rx(%d); let (x, s_%s) = s_%s.recv()?; h(%d).got::<%s>(%d, &x);" % (q, q, p, low[q], low[q], q, ty, p))
        if b[1] is None:
            w(P + "solo_close(%d, move || close_all(%s))" % (n, ss))
        else:
            w(P + "c%d(%s)" % (b[1], ss))

    for i, (p, br) in enumerate(pr.states):
        w("fn c%d(%s) -> R {" % (i, args("AC%d_%%s" % i)))
        w("  h(%d).pre();" % p)
        w("  match h(%d).choice() {" % p)
        oth = [q for q in range(n) if q != p]
        for l, b in enumerate(br):
            w("    %s => {" % (str(l) if l + 1 < len(br) else "_"))
            w("      let s_%s: AB%d_%d_%s = choose_mpst_%s_to_all!(s_%s, %s); h(%d).chosen();" % (low[p], i, l, R[p], low[p], low[p], ", ".join("ABr%d%s::L%d" % (i, R[q], l) for q in oth), p))
            for q in oth:
                w("      h(%d).pre(); h(%d).offer(%d);" % (q, q, p))
            w("      let (%s,) = mpstthree::offer_mpst_interleaved!(%s);" % (", ".join("s_" + low[q] for q in oth), ", ".join("s_%s, ABr%d%s::L%d" % (low[q], i, R[q], l) for q in oth)))
            for q in oth:
                w("      h(%d).offered(%d, %d);" % (q, p, l))
            body(b, "      ")
            w("    }")
        w("  }")
        w("}")
    w("fn start(%s) -> R {" % args("AS_%s"))
    body(pr.start, "  ")
    w("}")
    w("pub fn go() { solo(%d, || fork_solo(start)) }" % n)
    Fam("rec_and_cancel").table(pr, w, n)
    w("}")
    return "\n".join(o)


def main():
    ps = [
        parse("ring", 3, {"start": "ab bc ca ab bc ca ."}),
        parse("log", 2, {"start": "ab >X", "X@b": ["ba >X", "ab ."]}),
        parse("cb", 4, {"start": "ba bc cb >X", "X@b": ["ba ac ca ab da >X", "bd cb ."]}),
        parse("five", 5, {"start": "ab ac ad ae be ce de ea >X", "X@c": ["ca ab cd ed >X", "ce ea ."]}),
    ] + [rand_proto("s%d" % i, [2, 3, 4, 5, 6, 3][i], 3000 + i, maxstates=2, rec=True) for i in range(6)]
    o = ["// Generated by sim/gen/gen_solo.py. Do not edit."]
    for i, x in enumerate(ps):
        o.append(solo("s%d" % i, x, random.Random(4000 + i)))
    o.append("pub static SOLO: &[&Proto] = &[%s];" % ", ".join("&s%d::P" % i for i in range(len(ps))))
    with open(os.path.join(OUT, "solo.rs"), "w") as f:
        f.write("\n".join(o) + "\n")


if __name__ == "__main__":
    main()
