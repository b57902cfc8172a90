#!/usr/bin/env python3
"""Generates harness/src/gen/broad.rs: protocols with a monitoring participant (the first) that relays
cancellations (fixed seeds). In the specifications below the monitor is a and takes no part."""
import os

from gen import OUT, Fam, Proto, parse, rand_proto
from gen_inter import Half


class Watched(Half):
    def jump(self, nxt, r, q):
        if nxt is None or r == 0 or q == 0:
            return "End"
        p = self.pr.states[nxt][0]
        if r == p:
            return "Send<(End, ABr%d%s), End>" % (nxt, self.pr.roles[q])
        return "Recv<(End, ABr%d%s), End>" % (nxt, self.pr.roles[r]) if q == p else "End"

    def ty(self, body, r):
        if r == 0:
            return "%s<%s, RoleEnd, Name%s>" % (self.mc, ", ".join("End" for _ in self.partners(0)), self.pr.roles[0])
        return Half.ty(self, body, r)


def emit(pr, mod, cancel_close, fns):
    o = []
    w = o.append
    n, R = pr.n, pr.roles
    low = [r.lower() for r in R]
    h = Watched(pr, "Mesh", "A", 0, None)
    partners = h.partners
    w("pub mod %s {" % mod)
    w("use super::bpre::*;")
    if cancel_close == 2:
        w("mpstthree::create_meshedchannels!(Mesh, %d);" % n)
        w("mpstthree::close_mpst_check_cancel!(close_all, Mesh, %d);" % n)
        w("mpstthree::fork_mpst_multi!(fork_mpst, Mesh, %d);" % n)
    else:
        w("mpstthree::%s!(close_all, fork_mpst, Mesh, %d);" % ("bundle_struct_fork_close_multi_cancel" if cancel_close else "bundle_struct_fork_close_multi", n))
    w("mpstthree::create_multiple_normal_role!(%s);" % " ".join("Role%s, Role%sDual |" % (r, r) for r in R))
    w("mpstthree::create_multiple_normal_name!(%s);" % ", ".join("Name%s" % r for r in R))
    for r in range(1, n):
        qs = [q for q in partners(r) if q > 0]
        w("mpstthree::create_send_check_cancel_bundle!(%s => Name%s, Mesh, %d);" % (" ".join("send_%s_to_%s, Role%s, %d |" % (low[r], low[q], R[q], partners(r).index(q) + 1) for q in qs), R[r], n))
        w("mpstthree::create_recv_mpst_session_bundle!(%s => Name%s, Mesh, %d);" % (" ".join("recv_%s_from_%s, Role%s, %d |" % (low[r], low[q], R[q], partners(r).index(q) + 1) for q in qs), R[r], n))
        w("mpstthree::send_cancel!(cancel_%s, Name%s, Mesh, %d, \"%s gives up\");" % (low[r], R[r], n, R[r]))
    # types, without the monitor among those told about choices
    for i, (p, br) in enumerate(pr.states):
        for l, b in enumerate(br):
            for r in range(1, n):
                w("type AB%d_%d_%s = %s;" % (i, l, R[r], h.ty(b, r)))
        for r in range(1, n):
            if r != p:
                w("pub enum ABr%d%s { %s } unsafe impl std::marker::Send for ABr%d%s {}" % (i, R[r], ", ".join("L%d(AB%d_%d_%s)" % (l, i, l, R[r]) for l in range(len(br))), i, R[r]))
        for r in range(1, n):
            w("type AC%d_%s = %s;" % (i, R[r], h.ty(([], i), r)))
    for r in range(n):
        w("type AS_%s = %s;" % (R[r], h.ty(pr.start, r)))

    def others(p):
        return [q for q in range(1, n) if q != p]

    for i, (p, br) in enumerate(pr.states):
        if fns:
            w("mpstthree::create_fn_choose_mpst_cancel_multi_to_all_bundle!(%s => %s => %s => %s => %s => Name%s, Name%s, Mesh, %d);" % (
                " ".join("choose_%d_%d," % (i, l) for l in range(len(br))),
                " ".join("L%d," % l for l in range(len(br))),
                " ".join("AB%d_%d_%s," % (i, l, R[p]) for l in range(len(br))),
                " ".join("ABr%d%s," % (i, R[q]) for q in others(p)),
                " ".join("Name%s," % R[q] for q in others(p)),
                R[0], R[p], p + 1))

    def body(b, r, P):
        pre = "bpre!(h, s, cancel_%s);" % low[r]
        for (p, q, ty) in b[0]:
            if p == r:
                w(P + "%s let x = h.mk::<%s>(%d); let s = send_%s_to_%s(x, s)?; h.sent();" % (pre, ty, q, low[p], low[q]))
            elif q == r:
                w(P + "%s h.rx(%d); let (x, s) = recv_%s_from_%s(s)?; h.got::<%s>(%d, &x);" % (pre, p, low[r], low[p], ty, p))
        if b[1] is None:
            w(P + "%s h.closing(); h.closed(close_all(s))" % pre)
        else:
            w(P + "c%d_%s(s, h)" % (b[1], low[r]))

    for i, (p, br) in enumerate(pr.states):
        for r in range(1, n):
            w("fn c%d_%s(s: AC%d_%s, h: H) -> R {" % (i, low[r], i, R[r]))
            w("  bpre!(h, s, cancel_%s);" % low[r])
            if r == p:
                w("  match h.choice() {")
                for l, b in enumerate(br):
                    code = "choose_%d_%d(s)?" % (i, l) if fns else "mpstthree::choose_mpst_multi_cancel_to_all!(s, %s => %s => Name%s, Name%s, Mesh, %d)" % (" ".join("ABr%d%s::L%d," % (i, R[q], l) for q in others(p)), " ".join("Name%s," % R[q] for q in others(p)), R[0], R[p], p + 1)
                    w("    %s => { let s: AB%d_%d_%s = %s; h.chosen();" % (str(l) if l + 1 < len(br) else "_", i, l, R[r], code))
                    body(b, r, "      ")
                    w("    }")
                w("  }")
            else:
                w("  h.offer(%d);" % p)
                w("  mpstthree::offer_cancel_mpst!(s, recv_%s_from_%s, {" % (low[r], low[p]))
                for l, b in enumerate(br):
                    w("    ABr%d%s::L%d(s) => { h.offered(%d, %d);" % (i, R[r], l, p, l))
                    body(b, r, "      ")
                    w("    },")
                w("  })")
            w("}")
    w("fn start_%s(s: AS_%s, h: H) -> R { bpre!(h, s); h.closing(); h.watching(mpstthree::broadcast_cancel!(s, %d)) }" % (low[0], R[0], n))
    for r in range(1, n):
        w("fn start_%s(s: AS_%s, h: H) -> R {" % (low[r], R[r]))
        body(pr.start, r, "  ")
        w("}")
    w("pub fn go() {")
    w("  let f = catch(|| fork_mpst(%s));" % ", ".join("move |s: AS_%s| H::new(%d).participant(move |h| start_%s(s, h))" % (R[r], r, low[r]) for r in range(n)))
    js = ", ".join("j%d" % r for r in range(n))
    w("  match f { Ok((%s,)) => joined(vec![%s]), Err(e) => not_forked(e) }" % (js, js))
    w("}")
    t = []
    Fam("multi_cancel").table(pr, t.append, n)
    w(t[0].replace("multi_cancel/", "broadcast/").replace("cancel_choices: false", "cancel_choices: true"))
    w("}")
    return "\n".join(o)


def shifted(name, n, seed, **k):
    """A random protocol of roles 1..n-1, the monitor being 0."""
    p = rand_proto(name, n - 1, seed, **k)
    up = lambda b: ([(x + 1, y + 1, t) for (x, y, t) in b[0]], b[1])
    return Proto(name, n, up(p.start), [(c + 1, [up(b) for b in br]) for (c, br) in p.states])


def main():
    ps = [
        parse("ring", 4, {"start": "bc cd db bc cd db ."}),
        parse("pair", 3, {"start": "bc cb bc cb ."}),
        parse("loop", 4, {"start": ">X", "X@d": ["db bd bc cb dc cd >X", "."]}),
        parse("relay", 4, {"start": "bc >X", "X@b": ["bd dc >Y", "cd ."], "Y@c": ["cb >X", "db bc ."]}),
        parse("five", 5, {"start": "bc cd de eb >X", "X@c": ["cb ce ed bd >X", "bc db ."]}),
    ] + [shifted("r%d" % i, [4, 3, 5, 4, 4, 6][i], 5000 + i, maxstates=2, rec=True) for i in range(6)]
    for i, p in enumerate(ps):
        p.roles = ["Z"] + list("BCDEFG"[:p.n - 1])
    o = ["// Generated by sim/gen/gen_broad.py. Do not edit."]
    for i, p in enumerate(ps):
        o.append(emit(p, "b%d" % i, 2 if i in (2, 4, 10) else i % 2, i % 3 != 0))
    o.append("pub static ALL: &[&Proto] = &[%s];" % ", ".join("&b%d::P" % i for i in range(len(ps))))
    with open(os.path.join(OUT, "broad.rs"), "w") as f:
        f.write("\n".join(o) + "\n")


if __name__ == "__main__":
    main()
