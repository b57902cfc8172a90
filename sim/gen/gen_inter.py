#!/usr/bin/env python3
"""Generates harness/src/gen/inter.rs: pairs of protocols that share one thread (fixed seeds).

The shared thread's code is generated as steps (closures that return the next step), so that it can
alternate between its two sessions in any order; everybody else plays straight."""
import os

from gen import OUT, Fam, parse, rand_proto


class Half:
    """One of the two protocols: types and functions of its participants."""

    def __init__(self, pr, mc, pre, off, shared):
        self.pr, self.mc, self.pre, self.off, self.shared = pr, mc, pre, off, shared
        self.low = [r.lower() for r in pr.roles]

    def partners(self, r):
        return [q for q in range(self.pr.n) if q != r]

    def jump(self, nxt, r, q):
        pr, R, X = self.pr, self.pr.roles, self.pre
        if nxt is None:
            return "End"
        p = pr.states[nxt][0]
        if pr.style == "either":
            if r == p:
                return "Send<Either<%sB%d_0_%s, %sB%d_1_%s>, End>" % (X, nxt, R[q], X, nxt, R[q])
            return "Recv<Either<%sB%d_0_%s, %sB%d_1_%s>, End>" % (X, nxt, R[r], X, nxt, R[r]) if q == p else "End"
        if r == p:
            return "Send<%sBr%d%s, End>" % (X, nxt, R[q])
        return "Recv<%sBr%d%s, End>" % (X, nxt, R[r]) if q == p else "End"

    def sess(self, body, r, q):
        t = self.jump(body[1], r, q)
        for (p, d, ty) in reversed(body[0]):
            if p == r and d == q:
                t = "Send<%s, %s>" % (ty, t)
            elif p == q and d == r:
                t = "Recv<%s, %s>" % (ty, t)
        return t

    def stack(self, body, r):
        pr, R = self.pr, self.pr.roles
        msgs, nxt = body
        if nxt is None:
            t = "RoleEnd"
        else:
            p = pr.states[nxt][0]
            if pr.style == "either":
                t = "Role%stoAll<%s, %s>" % (R[p], self.stack(pr.states[nxt][1][0], r), self.stack(pr.states[nxt][1][1], r)) if r == p else "RoleAllto%s<RoleEnd, RoleEnd>" % R[p]
            else:
                t = "RoleBroadcast" if r == p else "Role%s<RoleEnd>" % R[p]
        for (p, d, ty) in reversed(msgs):
            if p == r:
                t = "Role%s<%s>" % (R[d], t)
            elif d == r:
                t = "Role%s<%s>" % (R[p], t)
        return t

    def ty(self, body, r):
        return "%s<%s, %s, Name%s>" % (self.mc, ", ".join(self.sess(body, r, q) for q in self.partners(r)), self.stack(body, r), self.pr.roles[r])

    def types(self, w):
        pr, R, X = self.pr, self.pr.roles, self.pre
        either = pr.style == "either"
        for i, (p, br) in enumerate(pr.states):
            for l, b in enumerate(br):
                for r in range(pr.n):
                    w("type %sB%d_%d_%s = %s;" % (X, i, l, R[r], self.ty(b, r)))
            if not either:
                for r in self.partners(p):
                    w("pub enum %sBr%d%s { %s } unsafe impl std::marker::Send for %sBr%d%s {}" % (X, i, R[r], ", ".join("L%d(%sB%d_%d_%s)" % (l, X, i, l, R[r]) for l in range(len(br))), X, i, R[r]))
            for r in range(pr.n):
                w("type %sC%d_%s = %s;" % (X, i, R[r], self.ty(([], i), r)))
        for r in range(pr.n):
            w("type %sS_%s = %s;" % (X, R[r], self.ty(pr.start, r)))

    def emit(self, w):
        self.types(w)
        for r in range(self.pr.n):
            self.role(w, r, r == self.shared)

    def role(self, w, r, step):
        pr, R, X, low = self.pr, self.pr.roles, self.pre.lower(), self.low
        Y = self.pre
        either = pr.style == "either"
        ret = "N" if step else "R"
        pre = "ipre!(h, s);" if step else "pre!(h, s, m);"
        o, c = ("Ok(more(move || -> N {", "}))") if step else ("", "")

        def body(b, P):
            k = 0
            for (p, q, ty) in b[0]:
                if p == r:
                    w(P + o + pre + " let x = h.mk::<%s>(%d); let s = s.send(x)?; h.sent();" % (ty, q))
                    k += 1
                elif q == r:
                    w(P + o + pre + " h.rx(%d); let (x, s) = s.recv()?; h.got::<%s>(%d, &x);" % (p, ty, p))
                    k += 1
            if b[1] is None:
                if step:
                    w(P + o + pre + " h.closing(); h.closed(s.close())?; Ok(Next::Done)" + c + c * k)
                else:
                    w(P + pre + " h.closing(); h.closed(s.close())")
            else:
                w(P + "%sc%d_%s(s, h)" % (X, b[1], low[r]) + c * k)

        for i, (p, br) in enumerate(pr.states):
            w("fn %sc%d_%s(s: %sC%d_%s, h: H) -> %s {" % (X, i, low[r], Y, i, R[r], ret))
            w("  " + o + pre)
            if r == p:
                w("  match h.choice() {")
                for l, b in enumerate(br):
                    labels = ", ".join("%sBr%d%s::L%d" % (Y, i, R[q], l) for q in self.partners(r))
                    code = "s.choose_%s()" % ["left", "right"][l] if either else "choose_mpst_%s_to_all!(s, %s)" % (low[r], labels)
                    w("    %s => { let s: %sB%d_%d_%s = %s; h.chosen();" % (str(l) if l + 1 < len(br) else "_", Y, i, l, R[r], code))
                    body(b, "      ")
                    w("    }")
                w("  }")
            else:
                w("  h.offer(%d);" % p)
                w("  s.offer(" if either else "  mpstthree::offer_mpst!(s, {")
                for l, b in enumerate(br):
                    if either:
                        w("    move |s: %sB%d_%d_%s| -> %s { h.offered(%d, %d);" % (Y, i, l, R[r], ret, p, l))
                    else:
                        w("    %sBr%d%s::L%d(s) => { h.offered(%d, %d);" % (Y, i, R[r], l, p, l))
                    body(b, "      ")
                    w("    },")
                w("  )" if either else "  })")
            w("  " + c + "}")
        w("fn %sstart_%s(s: %sS_%s, h: H) -> %s {" % (X, low[r], Y, R[r], ret))
        body(pr.start, "  ")
        w("}")


class TimedHalf(Half):
    """A protocol of the timed API, with windows that nobody can miss."""

    W = ["'a', 0, true, -1, true, ' '", "'a', -1, true, 1000000000000, true, ' '", "' ', -2, false, -1, false, ' '", "'a', 0, true, 1000000000000, false, 'a'"]

    def win(self, *key):
        return self.W[sum((i + 3) * ord(c) for i, c in enumerate(str(key))) % 4]

    def jump(self, nxt, r, q):
        t = Half.jump(self, nxt, r, q)
        return t if t == "End" else t.replace("Send<", "SendTimed<").replace("Recv<", "RecvTimed<").replace(", End>", ", %s, End>" % self.win(nxt))

    def sess(self, body, r, q):
        t = self.jump(body[1], r, q)
        for i, (p, d, ty) in reversed(list(enumerate(body[0]))):
            if p == r and d == q:
                t = "SendTimed<%s, %s, %s>" % (ty, self.win(i, p, d, ty), t)
            elif p == q and d == r:
                t = "RecvTimed<%s, %s, %s>" % (ty, self.win(i, p, d, ty), t)
        return t

    def role(self, w, r, step):
        """As for the others, with the participant's clocks (a raw pointer, for the steps) passed on."""
        o = []
        Half.role(self, o.append, r, step)
        for l in o:
            for a, b in ((".send(x)", ".send(x, ck(c))"), (".recv()", ".recv(ck(c))"), (", h: H)", ", h: H, c: *mut Clocks)"), ("(s, h)", "(s, h, c)"), ("to_all!(s, ", "to_all!(s, ck(c), "), ("mpstthree::offer_mpst!(s, {", "h_offer!(s, ck(c), {"), (".choose_left()", ".choose_left(ck(c))?"), (".choose_right()", ".choose_right(ck(c))?")):
                l = l.replace(a, b)
            if l.startswith("  s.offer("):
                l = l.replace("s.offer(", "s.offer(ck(c), ")
            if l.startswith("    move |s:"):
                l = l.replace("move |s:", "move |_: &mut Clocks, s:")
            w(l)


def timed_pair(name, a, b, ia, ib):
    o = []
    w = o.append
    A, B = TimedHalf(a, "MeshOne", "A", 0, ia), TimedHalf(b, "MeshTwo", "B", a.n, ib)
    w("pub mod %s {" % name)
    w("use super::tpre::*;")
    w('mpstthree::generate!("atmp_interleaved", MeshOne, %s, %d, MeshTwo, %s, %d, fork_both);' % (", ".join(a.roles), ia + 1, ", ".join(b.roles), ib + 1))
    w("macro_rules! h_offer { ($s:expr, $c:expr, { $( $p:pat => $r:expr, )+ }) => { offer_mpst!($s, $c, { $( $p => $r, )+ }) } }")
    A.emit(w)
    B.emit(w)
    w("pub fn go() {")
    fs = []
    for h in (A, B):
        for r in h.partners(h.shared):
            fs.append("move |s: %sS_%s, c: &mut Clocks| { let c = ticking(c); H::at(%d, %d).participant(move |h| %sstart_%s(s, h, c)) }" % (h.pre, h.pr.roles[r], r, h.off, h.pre.lower(), h.low[r]))
    fs.append("move |s: AS_%s, c: &mut Clocks, t: BS_%s, d: &mut Clocks| { let (h, k) = (H::at(%d, 0), H::at(%d, %d)); let (c, d) = (ticking(c), ticking(d)); h.participants(k, move || alternate(more(move || astart_%s(s, h, c)), more(move || bstart_%s(t, k, d)))) }" % (a.roles[ia], b.roles[ib], ia, ib, a.n, A.low[ia], B.low[ib]))
    js = ", ".join("j%d" % i for i in range(len(fs)))
    w("  match catch(|| fork_both(%s)) { Ok((%s,)) => joined_two(vec![%s], %d, %d, (%d, %d)), Err(e) => not_forked(e) }" % (",\n    ".join(fs), js, js, a.n, b.n, ia, ib))
    w("}")
    w("fn none() {}")
    for pr, n in ((a, "PA"), (b, "PB")):
        t = []
        Fam("rec_and_cancel").table(pr, t.append, pr.n)
        w(t[0].replace("pub static P:", "pub static %s:" % n).replace(", go }", ", go: none }").replace("cancel_choices: false", "cancel_choices: true"))
    w('pub static P: Pair = Pair { name: "%s", a: &PA, b: &PB, twin: (%d, %d), go };' % (name, ia, ib))
    w("}")
    return "\n".join(o)


def pair(name, a, b, ia, ib):
    o = []
    w = o.append
    A, B = Half(a, "MeshOne", "A", 0, ia), Half(b, "MeshTwo", "B", a.n, ib)
    w("pub mod %s {" % name)
    w("use super::pre::*;")
    w('mpstthree::generate!("interleaved", MeshOne, %s, %d, MeshTwo, %s, %d, fork_both);' % (", ".join(a.roles), ia + 1, ", ".join(b.roles), ib + 1))
    A.emit(w)
    B.emit(w)
    w("pub fn go() {")
    fs = []
    for h in (A, B):
        for r in h.partners(h.shared):
            fs.append("move |s: %sS_%s| H::at(%d, %d).participant(move |h| %sstart_%s(s, h))" % (h.pre, h.pr.roles[r], r, h.off, h.pre.lower(), h.low[r]))
    fs.append("move |s: AS_%s, t: BS_%s| { let (h, k) = (H::at(%d, 0), H::at(%d, %d)); h.participants(k, move || alternate(more(move || astart_%s(s, h)), more(move || bstart_%s(t, k)))) }" % (a.roles[ia], b.roles[ib], ia, ib, a.n, A.low[ia], B.low[ib]))
    js = ", ".join("j%d" % i for i in range(len(fs)))
    w("  match catch(|| fork_both(%s)) { Ok((%s,)) => joined_two(vec![%s], %d, %d, (%d, %d)), Err(e) => not_forked(e) }" % (",\n    ".join(fs), js, js, a.n, b.n, ia, ib))
    w("}")
    w("fn none() {}")
    for pr, n in ((a, "PA"), (b, "PB")):
        t = []
        Fam("rec_and_cancel").table(pr, t.append, pr.n)
        w(t[0].replace("pub static P:", "pub static %s:" % n).replace(", go }", ", go: none }"))
    w('pub static P: Pair = Pair { name: "%s", a: &PA, b: &PB, twin: (%d, %d), go };' % (name, ia, ib))
    w("}")
    return "\n".join(o)


def main():
    R1, R2 = list("ABCD"), list("MNPQ")

    def p(name, n, spec, two, **k):
        return parse(name, n, spec, roles=(R2 if two else R1)[:n], **k)

    def r(name, n, seed, two, **k):
        return rand_proto(name, n, seed, roles=(R2 if two else R1)[:n], **k)

    ps = [
        (p("ring", 3, {"start": "ab bc ca ab bc ca ."}, 0), p("ring", 3, {"start": "ab bc ca ab bc ca ."}, 1), 1, 2),
        (p("loop", 3, {"start": "ca ac >X", "X@c": ["ca ab ba ac >X", "."]}, 0), p("log", 2, {"start": "ab >X", "X@b": ["ba >X", "ab ."]}, 1), 2, 0),
        (p("two", 2, {"start": "ab ba >X", "X@a": ["ab ba >X", "ba ."]}, 0), p("two", 2, {"start": "ba ab >X", "X@b": ["ab >X", "ba ab ."]}, 1), 0, 0),
        (p("cb", 4, {"start": "ba bc cb >X", "X@b": ["ba ac ca ab da >X", "bd cb ."]}, 0), p("log", 3, {"start": "ab ca >X", "X@a": ["bc cb >Y", "."], "Y@b": ["ba >X", "bc ."]}, 1), 1, 1),
    ]
    for i in range(8):
        na, nb = [(3, 2), (2, 3), (3, 3), (2, 2), (4, 2), (2, 4), (3, 4), (4, 3)][i]
        sa = "either" if i in (4, 6) else "enum"
        sb = "either" if i in (5, 6) else "enum"
        a = r("ra%d" % i, na, 2000 + i, 0, style=sa, rec=sa == "enum", maxstates=2)
        b = r("rb%d" % i, nb, 2100 + i, 1, style=sb, rec=sb == "enum", maxstates=2)
        ps.append((a, b, i % na, (i // 2) % nb))
    o = ["// Generated by sim/gen/gen_inter.py. Do not edit."]
    for i, x in enumerate(ps):
        o.append(pair("i%d" % i, *x))
    o.append("pub static ALL: &[&Pair] = &[%s];" % ", ".join("&i%d::P" % i for i in range(len(ps))))
    ts = ps[:4]
    for i in range(5):
        na, nb = [(3, 2), (2, 3), (3, 3), (2, 4), (4, 3)][i]
        a = r("ta%d" % i, na, 2200 + i, 0, rec=i != 1, maxstates=2, style="either" if i == 1 else "enum")
        b = r("tb%d" % i, nb, 2300 + i, 1, rec=True, maxstates=2)
        ts.append((a, b, (i + 1) % na, i % nb))
    for i, x in enumerate(ts):
        o.append(timed_pair("t%d" % i, *x))
    o.append("pub static TIMED: &[&Pair] = &[%s];" % ", ".join("&t%d::P" % i for i in range(len(ts))))
    with open(os.path.join(OUT, "inter.rs"), "w") as f:
        f.write("\n".join(o) + "\n")


if __name__ == "__main__":
    main()
