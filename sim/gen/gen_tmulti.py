#!/usr/bin/env python3
"""Generates harness/src/gen/tmulti.rs: timed multiparty protocols over the generated timed API (fixed seeds).

Every message and every choice has a time window over the clocks of its sender and its receiver, who each
read their own clock of that name. Windows are placed around nominal clock values computed by playing the
protocol punctually; a protocol without recursion is feasible by construction when everybody is punctual.
"""
import os
import random

from gen import OUT, TYS, parse, rand_proto

B = {True: "true", False: "false"}
CL = "ab"


class Clock:
    """Local time and clock start of every participant, on the global time line; None: unknown."""

    def __init__(self, n):
        self.t = [0] * n
        self.c = [{x: 0 for x in CL} for _ in range(n)]

    def copy(self):
        k = Clock(0)
        k.t, k.c = list(self.t), [dict(c) for c in self.c]
        return k

    def val(self, p, x):
        return None if self.c[p][x] is None else self.t[p] - self.c[p][x]


def kinds(seed):
    """Every kind of window in turn: bounds absent, included or excluded at either end."""
    i = seed
    while True:
        yield "nix"[i % 3], "nix"[i // 3 % 3]
        i += 4


def window(rng, k, p, qs, loose, reset=None, force=None):
    """A window for p -> each of qs (same for all), feasible if everybody is punctual. Plays it on k."""
    known = [x for x in CL if all(k.val(r, x) is not None for r in [p] + qs)]
    kind = rng.random()
    r = reset if reset else (rng.choice(CL) if rng.random() < 0.4 else " ")
    if force and not (known and min(k.val(q, x) for x in known for q in [p] + qs) >= 0):
        force = None
    if force:
        kind = 1
    if not known or kind < 0.06:
        x, s, e, si, ei = "a", -2, -1, False, False
        first = lambda q: k.t[q]
    else:
        x = rng.choice(known)
        vals = [k.val(q, x) for q in [p] + qs]
        s = max(0, rng.choice([min(vals), max(vals), max(vals) + 1, max(vals) + 2, min(vals) - 1]))
        si, ei = rng.random() < 0.6, rng.random() < 0.6
        if force:
            s = max(vals) + rng.choice([0, 1, 1, 2])
            si, ei = [rng.random() < 0.5 if f == "n" else f == "i" for f in force]
        first = lambda q: max(k.t[q], k.c[q][x] + s + (0 if si else 1))
        tp = first(p)
        need = max([tp - k.c[p][x]] + [max(first(q), tp) - k.c[q][x] for q in qs])
        e = need + 1 + (rng.choice([60, 100, 1000]) if loose else rng.choice([0, 1, 1, 2, 5]))
        if force and force[1] == "n":
            e = -1
        if kind < 0.16 or (force and force[0] == "n"):
            s, si = -1, si
            tp = k.t[p]
            first = lambda q: k.t[q]
        elif kind < 0.24:
            e = -1
        if s < 0 and e < 0:
            si, ei = False, False
    if reset is None and rng.random() < 0.35:
        r = x
    tp = first(p)
    k.t[p] = tp
    for q in qs:
        k.t[q] = max(first(q), tp)
    if r != " ":
        for q in [p] + qs:
            k.c[q][r] = k.t[q]
    return (x, s, si, e, ei, r)


def ty(w):
    x, s, si, e, ei, r = w
    return "'%s', %d, %s, %d, %s, '%s'" % (x, s, B[si], e, B[ei], r)


def win(w):
    x, s, si, e, ei, r = w
    return "Win { clock: '%s', s: %d, is: %s, e: %d, ie: %s, reset: '%s' }" % (x, s, B[si], e, B[ei], r)


def emit(pr, mod, seed):
    rng = random.Random(seed)
    n, R = pr.n, pr.roles
    low = [r.lower() for r in R]
    o = []
    w = o.append
    either = pr.style == "either"
    loops = any(sum(1 for _, b in [(0, [pr.start])] + [(0, br) for _, br in pr.states] for (_, x) in b if x == i) > 1 for i in range(len(pr.states)))
    tree = not loops
    partners = lambda r: [q for q in range(n) if q != r]
    # windows, in the order of a punctual play
    mw, jw, label = {}, {}, {}
    ks = kinds(seed) if pr.name.startswith("kinds") else None
    nxt_kind = lambda: next(ks) if ks else None
    bodies = {}
    order = []

    def play(key, body, k):
        """Message windows of this body, and its jump's."""
        if key in bodies:
            return
        bodies[key] = body
        order.append(key)
        msgs, nxt = body
        for i, (p, q, _) in enumerate(msgs):
            mw[key, i] = window(rng, k, p, [q], not tree, force=nxt_kind() if ks and rng.random() < 0.5 else None)
        if nxt is not None:
            p, br = pr.states[nxt]
            qs = partners(p)
            if either or rng.random() < 0.6:
                x = window(rng, k, p, qs, not tree, None if tree else "a", nxt_kind())
                jw[key] = {q: x for q in qs}
            else:
                # a different window for every receiver; the chooser performs them at one instant
                jw[key] = {}
                kk = k.copy()
                for q in qs:
                    jw[key][q] = window(rng, kk, p, [q], True, None if tree else "a", nxt_kind())
                    kk.c = [dict(c) for c in k.c]
                t = kk.t[p]
                k.t = [max(a, t) for a in kk.t]
                for q in qs:
                    r = jw[key][q][5]
                    if r != " ":
                        k.c[q][r] = k.t[q]
                        k.c[p][r] = t
                # feasible for all receivers at once
                for q in qs:
                    x, s, si, e, ei, r = jw[key][q]
                    if e >= 0:
                        jw[key][q] = (x, s, si, e + 60, ei, r)
            for l, b in enumerate(br):
                kk = k.copy()
                if not tree:
                    for q in range(n):
                        kk.c[q]["b"] = None
                        kk.c[q]["a"] = 0
                        kk.t[q] = 0
                play((nxt, l), b, kk)

    play("start", pr.start, Clock(n))
    sites = {i: [key for key in order if bodies[key][1] == i] for i in range(len(pr.states))}
    sid = {key: j for j, key in enumerate(order)}

    def jump(key, r, q):
        nxt = bodies[key][1]
        if nxt is None:
            return "End"
        p = pr.states[nxt][0]
        if r == p:
            t = ty(jw[key][q])
            if either:
                return "SendTimed<Either<B%d_0_%s, B%d_1_%s>, %s, End>" % (nxt, R[q], nxt, R[q], t)
            return "SendTimed<Br%d%s, %s, End>" % (nxt, R[q], t)
        if q != p:
            return "End"
        t = ty(jw[key][r])
        if either:
            return "RecvTimed<Either<B%d_0_%s, B%d_1_%s>, %s, End>" % (nxt, R[r], nxt, R[r], t)
        return "RecvTimed<Br%d%s, %s, End>" % (nxt, R[r], t)

    def sess(key, r, q, tail=False):
        t = jump(key, r, q)
        if tail:
            return t
        msgs = bodies[key][0]
        for i in reversed(range(len(msgs))):
            p, d, m = msgs[i]
            if p == r and d == q:
                t = "SendTimed<%s, %s, %s>" % (m, ty(mw[key, i]), t)
            elif p == q and d == r:
                t = "RecvTimed<%s, %s, %s>" % (m, ty(mw[key, i]), t)
        return t

    def stack(key, r, tail=False):
        msgs, nxt = bodies[key]
        if nxt is None:
            t = "RoleEnd"
        else:
            p = pr.states[nxt][0]
            if either:
                t = "Role%stoAll<%s, %s>" % (R[p], stack((nxt, 0), r), stack((nxt, 1), r)) if r == p else "RoleAllto%s<RoleEnd, RoleEnd>" % R[p]
            else:
                t = "RoleBroadcast" if r == p else "Role%s<RoleEnd>" % R[p]
        if tail:
            return t
        for (p, d, _) in reversed(msgs):
            if p == r:
                t = "Role%s<%s>" % (R[d], t)
            elif d == r:
                t = "Role%s<%s>" % (R[p], t)
        return t

    def mc(key, r, tail=False):
        return "MeshedChannels<%s, %s, Name%s>" % (", ".join(sess(key, r, q, tail) for q in partners(r)), stack(key, r, tail), R[r])

    w("pub mod %s {" % mod)
    w("use super::pre::*;")
    w("mpstthree::generate_atmp!(MeshedChannels, %s);" % ", ".join(R))
    for i, (p, br) in enumerate(pr.states):
        for l in range(len(br)):
            for r in range(n):
                w("type B%d_%d_%s = %s;" % (i, l, R[r], mc((i, l), r)))
        if not either:
            for r in partners(p):
                w("pub enum Br%d%s { %s } unsafe impl std::marker::Send for Br%d%s {}" % (i, R[r], ", ".join("L%d(B%d_%d_%s)" % (l, i, l, R[r]) for l in range(len(br))), i, R[r]))
    for key in order:
        if bodies[key][1] is not None:
            for r in range(n):
                w("type C%d_%s = %s;" % (sid[key], R[r], mc(key, r, True)))
    for r in range(n):
        w("type S_%s = %s;" % (R[r], mc("start", r)))

    def emit_body(key, r, ind):
        P = " " * ind
        msgs, nxt = bodies[key]
        for i, (p, q, m) in enumerate(msgs):
            if p == r:
                w(P + "let w = &[(%d, %s)]; tpre!(h, s, w); let x = h.mk::<%s>(%d, w); let s = h.op(cl, |cl| s.send(x, cl))?;" % (q, win(mw[key, i]), m, q))
            elif q == r:
                w(P + "let w = &[(%d, %s)]; tpre!(h, s, w); h.rx(%d, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<%s>(%d, &x);" % (p, win(mw[key, i]), p, m, p))
        if nxt is None:
            w(P + "tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())")
        else:
            w(P + "c%d_%s(s, h, cl)" % (sid[key], low[r]))

    for key in order:
        i = bodies[key][1]
        if i is None:
            continue
        p, br = pr.states[i]
        for r in range(n):
            w("fn c%d_%s(s: C%d_%s, h: T, cl: &mut Clocks) -> R {" % (sid[key], low[r], sid[key], R[r]))
            ws = ", ".join("(%d, %s)" % ((q, win(jw[key][q])) if r == p else (p, win(jw[key][r]))) for q in (partners(p) if r == p else [p]))
            w("  let w = &[%s]; tpre!(h, s, w);" % ws)
            if r == p:
                ex = min(pr.exit[i], len(br) - 1)
                w("  match h.choice(w, %d, %d) {" % (len(br), ex))
                for l, b in enumerate(br):
                    labels = ", ".join("Br%d%s::L%d" % (i, R[q], l) for q in partners(r))
                    code = "s.choose_%s(cl)" % ["left", "right"][l] if either else "Ok(choose_mpst_%s_to_all!(s, cl, %s))" % (low[r], labels)
                    w("    %s => { let s: B%d_%d_%s = h.op(cl, |cl| %s)?;" % (str(l) if l + 1 < len(br) else "_", i, l, R[r], code))
                    emit_body((i, l), r, 6)
                    w("    }")
                w("  }")
            else:
                w("  h.offer(%d, w); let taken = std::cell::Cell::new(false); let taken = &taken;" % p)
                if either:
                    w("  let r = catch(|| s.offer(&mut *cl,")
                    for l in range(2):
                        w("    |cl: &mut Clocks, s: B%d_%d_%s| -> R { h.offered(%d, %d, taken, cl);" % (i, l, R[r], p, l))
                        emit_body((i, l), r, 6)
                        w("    },")
                    w("  ));")
                else:
                    w("  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {")
                    for l in range(len(br)):
                        w("    Br%d%s::L%d(s) => { h.offered(%d, %d, taken, cl);" % (i, R[r], l, p, l))
                        emit_body((i, l), r, 6)
                        w("    },")
                    w("  }) });")
                w("  h.settle(r, taken, cl)")
            w("}")
    for r in range(n):
        w("fn start_%s(s: S_%s, h: T, cl: &mut Clocks) -> R {" % (low[r], R[r]))
        emit_body("start", r, 2)
        w("}")
    w("pub fn go() {")
    w("  let f = catch(|| fork_mpst(%s));" % ", ".join("move |s: S_%s, cl: &mut Clocks| T { me: %d }.participant(cl, |h, cl| start_%s(s, h, cl))" % (R[r], r, low[r]) for r in range(n)))
    w("  match f { Ok((%s,)) => joined(vec![%s]), Err(e) => not_forked(e) }" % (", ".join("j%d" % r for r in range(n)), ", ".join("j%d" % r for r in range(n))))
    w("}")
    w('pub static P: P_ = P_ { name: "timed/%s", n: %d, tree: %s, max: %d, go };' % (pr.name, n, B[tree], 3 + max(len(b[0]) for b in bodies.values())))
    w("}")
    return "\n".join(o)


def main():
    ps = [
        parse("auth", 3, {"start": "ca ac >X", "X@c": ["ba ca ab ac >X", "."]}),
        parse("relay", 3, {"start": "ab bc ca >X", "X@a": ["ab >Y", "ac ."], "Y@b": ["bc cb .", "ba >X"]}),
        parse("line", 4, {"start": "ab bc cd da ."}),
        parse("fan", 4, {"start": "ab ac ad bd >X", "X@a": ["ab ba >X", "bc cd ."]}),
        parse("end", 3, {"start": "."}),
    ]
    for i in range(7):
        ps.append(rand_proto("r3_%d" % i, 3, 500 + i, rec=i % 2 == 0))
    for i in range(3):
        ps.append(rand_proto("r4_%d" % i, 4, 600 + i, maxstates=2, rec=i % 2 == 0))
    ps.append(rand_proto("r2_0", 2, 700))
    for i in range(5):
        ps.append(rand_proto("e3_%d" % i, 3, 800 + i, rec=False, style="either", maxstates=2))
    ps.append(rand_proto("e4_0", 4, 900, rec=False, style="either", maxstates=1))
    for i in range(6):
        either = i % 3 == 2
        last = 5 if not either else 3
        d = {"start": ">X0"}
        for j in range(last):
            d["X%d@%s" % (j, "abc"[(i + j) % 3])] = [("%s " % ["ab", "bc", "ca"][j % 3] if j % 2 else "") + (">X%d" % (j + 1) if j + 1 < last else "."), "."]
        q = parse("kinds%d" % i, 3, d)
        if either:
            q.style = "either"
        ps.append(q)
    o = ["// Generated by sim/gen/gen_tmulti.py. Do not edit."]
    for i, p in enumerate(ps):
        o.append(emit(p, "p%d" % i, 77 + i))
    o.append("pub static ALL: &[&P_] = &[%s];" % ", ".join("&p%d::P" % i for i in range(len(ps))))
    with open(os.path.join(OUT, "tmulti.rs"), "w") as f:
        f.write("\n".join(o) + "\n")


if __name__ == "__main__":
    main()
