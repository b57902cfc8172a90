#!/usr/bin/env python3
"""Compiled endpoint types handed to the bottom-up checker through its macros. Output: ../harness/src/gen/check.rs."""
import os
from gen import parse, rand_proto, OUT, TYS


def emit(name, pr, either=False):
    n, R = pr.n, pr.roles
    o = []
    w = o.append
    MC = "MeshedChannels"

    def partners(r):
        return [q for q in range(n) if q != r]

    def nxt_sess(nxt, r, q):
        if nxt is None:
            return "End"
        p = pr.states[nxt][0]
        if either:
            to = q if r == p else r
            e = "<Either<B%d_0_%s, B%d_1_%s>, End>" % (nxt, R[to], nxt, R[to])
            return "Send" + e if r == p else "Recv" + e if q == p else "End"
        return "Send<Br%d%s, End>" % (nxt, R[q]) if r == p else "Recv<Br%d%s, End>" % (nxt, R[r]) if q == p else "End"

    def sess(body, r, q):
        t = nxt_sess(body[1], r, q)
        for (p, d, ty) in reversed(body[0]):
            t = "Send<%s, %s>" % (ty, t) if (p, d) == (r, q) else "Recv<%s, %s>" % (ty, t) if (p, d) == (q, r) else t
        return t

    def stack(body, r):
        nxt = body[1]
        if nxt is None:
            t = "RoleEnd"
        else:
            p = pr.states[nxt][0]
            if either:
                t = "Role%stoAll<%s, %s>" % (R[p], stack(pr.states[nxt][1][0], r), stack(pr.states[nxt][1][1], r)) if r == p else "RoleAllto%s<RoleEnd, RoleEnd>" % R[p]
            else:
                t = "RoleBroadcast" if r == p else "Role%s<RoleEnd>" % R[p]
        for (p, d, _) in reversed(body[0]):
            t = "Role%s<%s>" % (R[d], t) if p == r else "Role%s<%s>" % (R[p], t) if d == r else t
        return t

    def mc(body, r):
        return "%s<%s, %s, Name%s>" % (MC, ", ".join(sess(body, r, q) for q in partners(r)), stack(body, r), R[r])

    w("pub mod %s {" % name)
    w("use harness::prelude::*; use mpstthree::role::Role;")
    if either:
        w("use mpstthree::meshedchannels::MeshedChannels;")
        w("use mpstthree::role::{a::RoleA, b::RoleB, c::RoleC}; use mpstthree::name::{a::NameA, b::NameB, c::NameC};")
        w("use mpstthree::role::{a_to_all::RoleAtoAll, b_to_all::RoleBtoAll, c_to_all::RoleCtoAll, all_to_a::RoleAlltoA, all_to_b::RoleAlltoB, all_to_c::RoleAlltoC};")
    else:
        w('mpstthree::generate!("basic", %s, %s);' % (MC, ", ".join(R)))
    for i, (p, br) in enumerate(pr.states):
        for l, b in enumerate(br):
            for r in range(n):
                w("type B%d_%d_%s = %s;" % (i, l, R[r], mc(b, r)))
        if not either:
            for r in partners(p):
                w("pub enum Br%d%s { %s } unsafe impl std::marker::Send for Br%d%s {}" % (i, R[r], ", ".join("L%d(B%d_%d_%s)" % (l, i, l, R[r]) for l in range(len(br))), i, R[r]))
    for r in range(n):
        w("type S_%s = %s;" % (R[r], mc(pr.start, r)))
    items = []
    if not either:
        for i, (p, br) in enumerate(pr.states):
            for l in range(len(br)):
                items.append(("B%d_%d_%s" % (i, l, R[p]), ", ".join("Br%d%s, L%d" % (i, R[q], l) for q in partners(p))))
    arg = ""
    if items:
        w("mpstthree::checker_concat_impl!(%s);" % ", ".join("[%s]" % b for _, b in items))
        arg = " => " + ", ".join("[%s, %s]" % x for x in items)
    w("pub fn check(file: &str) -> super::Raw { super::raw!(mpstthree::checker_concat!(file, %s%s)) }" % (", ".join("S_" + r for r in R), arg))

    def body(b):
        return "super::Body { msgs: vec![%s], next: %s }" % (", ".join("(%d, %d, %d)" % (p, q, 1000 + TYS.index(t)) for (p, q, t) in b[0]), "None" if b[1] is None else "Some(%d)" % b[1])

    w("pub fn proto(file: String) -> super::Proto { super::Proto { file, roles: [%s].iter().map(|s| s.to_string()).collect(), start: %s, states: vec![%s], either: %s, order: (0..%d).collect(), compiled: Some(check) } }" % (
        ", ".join('"%s"' % r for r in R), body(pr.start),
        ", ".join("(%d, vec![%s])" % (p, ", ".join('("L%d".to_string(), %s)' % (l, body(b)) for l, b in enumerate(br))) for p, br in pr.states), "true" if either else "false", n))
    w("}")
    return "\n".join(o)


def main():
    loop3 = {"start": "ca ac >X", "X@c": ["ca ab ba ac >X", "."]}
    two3 = {"start": "ab ac >X", "X@b": ["ba >Y", "bc cb >X", "ac ."], "Y@c": ["ca ab >X", "cb .", "bc >Y"]}
    near3 = {"start": ">X", "X@a": ["ab >Y", "bc >Y", "."], "Y@b": [">X", "ac >Y", "ba cb ."]}
    loop4 = {"start": "ad db >X", "X@d": ["da ab bc cd >X", "ba ca da >Y", "."], "Y@b": ["bd >X", "."]}
    split3 = {"start": "ab ac ab ac ab ac ba ca ."}
    either3 = {"start": "ca ac >X", "X@c": ["ca ab ba ac >Y", "."], "Y@a": ["ab bc .", "ba cb ."]}
    zig = ["Alpha", "B", "M", "Zed"]
    ps = [(parse("loop3", 3, loop3), False), (parse("two3", 3, two3), False), (parse("near3", 3, near3), False), (parse("loop4", 4, loop4, roles=zig), False), (parse("split3", 3, split3), False)]
    ps += [(parse("ec3", 3, either3, style="either"), True)]
    ps += [(rand_proto("c%d" % i, [3, 2, 4, 3, 5][i], 5000 + i), False) for i in range(5)]
    o = ["// Generated by sim/gen/gen_check.py. Do not edit."]
    o.append("const COMPILED: &[&str] = &[%s];" % ", ".join('"%s"' % t.replace(" ", "") for t in TYS))
    for i, (x, e) in enumerate(ps):
        o.append(emit("c%d" % i, x, e))
    o.append("static PROTOS: &[fn(String) -> Proto] = &[%s];" % ", ".join("c%d::proto" % i for i in range(len(ps))))
    with open(os.path.join(OUT, "check.rs"), "w") as f:
        f.write("\n".join(o) + "\n")


if __name__ == "__main__":
    main()
