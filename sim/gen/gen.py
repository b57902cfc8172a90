#!/usr/bin/env python3
"""Generates typed endpoint code of many protocols for every API family of the library.

Output (committed): ../harness/src/gen/*.rs. A protocol is a set of choice states; a body is a list of
messages followed by End or a jump to a choice state. Projection to the library's types follows its
documentation; each operation is wrapped with the model's begin/end calls (see model.rs).
"""
import random, os, re

OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "src", "gen")
TYS = ["u64", "i64", "String", "Tok", "(u64, Box<Tok>)", "Big", "Option<Vec<u64>>", "()", "u8"]


class Proto:
    """start = (msgs, nxt); states[i] = (p, [(msgs, nxt), ...]); nxt = state index or None (End).
    msgs = [(p, q, ty)]."""

    def __init__(self, name, n, start, states, roles=None, style="enum"):
        self.name, self.n, self.start, self.states, self.style = name, n, start, states, style
        self.roles = roles or list("ABCDEFGHIJK"[:n])
        # exit label per state: leads to End fastest
        dist = {None: 0}
        for _ in range(50):
            for i, (_, br) in enumerate(states):
                ds = [dist[x] + 1 for (_, x) in br if x in dist]
                if ds:
                    dist[i] = min(ds)
        self.exit = []
        for i, (_, br) in enumerate(states):
            assert i in dist, name
            self.exit.append(min(range(len(br)), key=lambda l: dist.get(br[l][1], 10**6)))


def parse(name, n, spec, roles=None, style="enum", seed=0):
    """spec: {'start': 'ab bc >X', 'X@a': ['ab >X', 'bc .']}"""
    rng = random.Random(name + str(seed))
    keys = [k for k in spec if k != "start"]
    idx = {k.split("@")[0]: i for i, k in enumerate(keys)}

    def body(t):
        msgs, nxt = [], None
        for w in t.split():
            if w == ".":
                nxt = None
            elif w[0] == ">":
                nxt = idx[w[1:]]
            else:
                msgs.append(("abcdefghijk".index(w[0]), "abcdefghijk".index(w[1]), rng.choice(TYS)))
        return (msgs, nxt)

    states = []
    for k in keys:
        states.append(("abcdefghijk".index(k.split("@")[1]), [body(b) for b in spec[k]]))
    return Proto(name, n, body(spec["start"]), states, roles, style)


def rand_proto(name, n, seed, roles=None, maxstates=3, rec=True, style="enum"):
    rng = random.Random("p%s%d%d" % (style, seed, n))

    def msgs(lo, hi):
        r = []
        for _ in range(rng.randint(lo, hi)):
            p = rng.randrange(n)
            q = rng.choice([x for x in range(n) if x != p])
            r.append((p, q, rng.choice(TYS)))
        return r

    states = []

    def state(anc):
        i = len(states)
        states.append(None)
        p = rng.randrange(n)
        k = 2 if style == "either" else rng.randint(2, 4)
        brs = []
        for l in range(k):
            opts = ["end", "end"]
            if rec and style != "either":
                opts += ["loop", "loop"] + (["anc"] if anc else [])
            if len(states) < maxstates:
                opts.append("new")
            o = rng.choice(opts)
            if l == 0:
                o = "end" if (not anc or rng.random() < .7) else o
                if o == "loop":
                    o = "end"
            m = msgs(0, 4)
            if o == "end":
                nx = None
            elif o == "loop":
                nx = i
            elif o == "anc":
                nx = rng.choice(anc)
            else:
                nx = state(anc + [i])
            brs.append((m, nx))
        if all(x is not None for (_, x) in brs):
            brs[0] = (brs[0][0], None)
        rng.shuffle(brs)
        states[i] = (p, brs)
        return i

    first = state([])
    return Proto(name, n, (msgs(0, 5), first), states, roles, style)


class Fam:
    def __init__(self, kind):
        self.kind = kind

    # ---- per-family pieces
    def cancel_sends(self):
        return self.kind in ("cancel", "rec_and_cancel", "multi_cancel")

    def cancel_choices(self):
        return False

    def emit(self, pr, modname):
        k = self.kind
        n = pr.n
        R = pr.roles
        o = []
        w = o.append
        MC = "MeshedChannels"
        low = [r.lower() for r in R]

        def partners(r):
            return [q for q in range(n) if q != r]

        def nxt_sess(nxt, r, q):
            if nxt is None:
                return "End"
            p = pr.states[nxt][0]
            if pr.style == "either":
                if r == p:
                    return "Send<Either<B%d_0_%s, B%d_1_%s>, End>" % (nxt, R[q], nxt, R[q])
                return "Recv<Either<B%d_0_%s, B%d_1_%s>, End>" % (nxt, R[r], nxt, R[r]) if q == p else "End"
            if r == p:
                return "Send<Br%d%s, End>" % (nxt, R[q])
            return "Recv<Br%d%s, End>" % (nxt, R[r]) if q == p else "End"

        def sess(body, r, q):
            msgs, nxt = body
            t = nxt_sess(nxt, r, q)
            for (p, d, ty) in reversed(msgs):
                if p == r and d == q:
                    t = "Send<%s, %s>" % (ty, t)
                elif p == q and d == r:
                    t = "Recv<%s, %s>" % (ty, t)
            return t

        def stack(body, r):
            msgs, nxt = body
            if nxt is None:
                t = "RoleEnd"
            else:
                p = pr.states[nxt][0]
                if pr.style == "either":
                    if r == p:
                        t = "Role%stoAll<%s, %s>" % (R[p], stack(pr.states[nxt][1][0], r), stack(pr.states[nxt][1][1], r))
                    else:
                        t = "RoleAllto%s<RoleEnd, RoleEnd>" % R[p]
                else:
                    t = "RoleBroadcast" if r == p else "Role%s<RoleEnd>" % R[p]
            for (p, d, ty) in reversed(msgs):
                if p == r:
                    t = "Role%s<%s>" % (R[d], t)
                elif d == r:
                    t = "Role%s<%s>" % (R[p], t)
            return t

        def mc(body, r):
            return "%s<%s, %s, Name%s>" % (MC, ", ".join(sess(body, r, q) for q in partners(r)), stack(body, r), R[r])

        bodies = [("start", pr.start)]
        for i, (p, br) in enumerate(pr.states):
            for l, b in enumerate(br):
                bodies.append((("br", i, l), b))

        if k == "binary":
            return self.emit_binary(pr, modname)

        w("pub mod %s {" % modname)
        w("use crate::prelude::*;")
        used_pairs = set()
        for _, (m, _) in bodies:
            for (p, q, _) in m:
                used_pairs.add((p, q))
        choose_pairs = set()
        for i, (p, br) in enumerate(pr.states):
            for q in partners(p):
                choose_pairs.add((p, q))
        choosers = sorted(set(p for p, _ in pr.states))
        baked = {"basic": "basic", "recursive": "recursive", "cancel": "cancel", "rec_and_cancel": "rec_and_cancel"}
        cm = ", m"  # generated cancel method
        if k in baked:
            w('mpstthree::generate!("%s", %s, %s);' % (k, MC, ", ".join(R)))
            closef = "s.close()"
        elif k in ("multi", "multi_cancel"):
            cm = ""
            w("mpstthree::%s!(close_all, fork_mpst, %s, %d);" % ("bundle_struct_fork_close_multi" if k == "multi" else "bundle_struct_fork_close_multi_cancel", MC, n))
            w("mpstthree::create_multiple_normal_role!(%s);" % " ".join("Role%s, Role%sDual |" % (r, r) for r in R))
            w("mpstthree::create_multiple_normal_name!(%s);" % ", ".join("Name%s" % r for r in R))
            if pr.style == "either":
                for p in choosers:
                    w("mpstthree::create_broadcast_role!(RoleAllto%s, Role%stoAll);" % (R[p], R[p]))
                w("mpstthree::create_offer_type_multi!(OfferM, %s, %d);" % (MC, n))
                w("mpstthree::create_choose_type_multi!(ChooseM, %s, %d);" % (MC, n))
                for p in choosers:
                    for q in partners(p):
                        w("mpstthree::create_offer_mpst_session_multi!(offer_mpst_session_%s_to_%s, OfferM, RoleAllto%s, Name%s, %s, %d, %d);" % (low[q], low[p], R[p], R[q], MC, n, partners(q).index(p) + 1))
                    w("mpstthree::create_choose_mpst_session_multi_both!(choose_left_mpst_session_%s_to_all, choose_right_mpst_session_%s_to_all, ChooseM, Role%stoAll, Name%s, %s, %d);" % (low[p], low[p], R[p], R[p], MC, p + 1))
            for (p, q) in sorted(used_pairs):
                w("mpstthree::%s!(send_mpst_%s_to_%s, Role%s, Name%s, %s, %d, %d);" % ("create_send_mpst_session" if k == "multi" else "create_send_mpst_cancel", low[p], low[q], R[q], R[p], MC, n, partners(p).index(q) + 1))
            for (p, q) in sorted(used_pairs | (choose_pairs if pr.style == "enum" else set())):
                w("mpstthree::create_recv_mpst_session!(recv_mpst_%s_from_%s, Role%s, Name%s, %s, %d, %d);" % (low[q], low[p], R[p], R[q], MC, n, partners(q).index(p) + 1))
            closef = "close_all(s)"
        elif k == "simple":
            cm = ""
            w("use mpstthree::meshedchannels::MeshedChannels; use mpstthree::functionmpst::{close::close_mpst, fork::fork_mpst};")
            w("mpstthree::create_multiple_normal_role!(%s);" % " ".join("Role%s, Role%sDual |" % (r, r) for r in R))
            w("mpstthree::create_multiple_normal_name!(%s);" % ", ".join("Name%s" % r for r in R))
            for (p, q) in sorted(used_pairs):
                w("mpstthree::create_send_mpst_session_%d!(send_mpst_%s_to_%s, Role%s, Name%s);" % (partners(p).index(q) + 1, low[p], low[q], R[q], R[p]))
            for (p, q) in sorted(used_pairs | (choose_pairs if pr.style == "enum" else set())):
                w("mpstthree::create_recv_mpst_session_%d!(recv_mpst_%s_from_%s, Role%s, Name%s);" % (partners(q).index(p) + 1, low[q], low[p], R[p], R[q]))
            if pr.style == "either":
                w("use mpstthree::functionmpst::OfferMpst;")
                for p in choosers:
                    w("mpstthree::create_broadcast_role!(RoleAllto%s, Role%stoAll);" % (R[p], R[p]))
                    for q in partners(p):
                        w("mpstthree::create_offer_mpst_session_%d!(offer_mpst_session_%s_to_%s, RoleAllto%s, Name%s);" % (partners(q).index(p) + 1, low[q], low[p], R[p], R[q]))
                    q1, q2 = partners(p)
                    w("mpstthree::create_choose_both_from_%d_to_%d_and_%d!(choose_right_mpst_session_%s_to_all, choose_left_mpst_session_%s_to_all, Name%s, Name%s, Role%stoAll, Name%s);" % (p + 1, q1 + 1, q2 + 1, low[p], low[p], R[q1], R[q2], R[p], R[p]))
            closef = "close_mpst(s)"
        elif k in ("func", "lib"):
            cm = "" if k == "func" else ", m"
            w("use mpstthree::meshedchannels::MeshedChannels; use mpstthree::functionmpst::fork::fork_mpst;")
            w("use mpstthree::role::{a::RoleA, b::RoleB, c::RoleC}; use mpstthree::name::{a::NameA, b::NameB, c::NameC};")
            w("use mpstthree::role::{a_to_all::RoleAtoAll, b_to_all::RoleBtoAll, c_to_all::RoleCtoAll, all_to_a::RoleAlltoA, all_to_b::RoleAlltoB, all_to_c::RoleAlltoC};")
            if k == "func":
                w("use mpstthree::functionmpst::{close::close_mpst, send::*, recv::*, choose::*, offer::*};")
            closef = "close_mpst(s)" if k == "func" else "s.close()"
        else:
            raise Exception(k)

        for i, (p, br) in enumerate(pr.states):
            for l, b in enumerate(br):
                for r in range(n):
                    w("type B%d_%d_%s = %s;" % (i, l, R[r], mc(b, r)))
            if pr.style == "enum":
                for r in partners(p):
                    w("pub enum Br%d%s { %s } unsafe impl std::marker::Send for Br%d%s {}" % (i, R[r], ", ".join("L%d(B%d_%d_%s)" % (l, i, l, R[r]) for l in range(len(br))), i, R[r]))
        def form(i):
            # The several ways to make a choice that the family offers.
            return ["plain", "bundle", "create"][(i + len(pr.name) + len(k)) % 3]

        if k in ("basic", "cancel", "multi", "multi_cancel") and pr.style == "enum":
            for i, (p, br) in enumerate(pr.states):
                ls = range(len(br))
                if form(i) == "bundle":
                    w("mpstthree::create_fn_choose_mpst_multi_to_all_bundle!(%s, => %s, => %s, => %s, => %s, => Name%s, %s, %d);" % (
                        ", ".join("ch%d_%d" % (i, l) for l in ls), ", ".join("L%d" % l for l in ls), ", ".join("B%d_%d_%s" % (i, l, R[p]) for l in ls),
                        ", ".join("Br%d%s" % (i, R[q]) for q in partners(p)), ", ".join("Name%s" % R[q] for q in partners(p)), R[p], MC, p + 1))
                elif form(i) == "create":
                    w("mpstthree::choose_mpst_create_multi_to_all!(choose_c%d, Name%s, %s, %d);" % (i, R[p], MC, p + 1))
        for i, (p, br) in enumerate(pr.states):
            for r in range(n):
                w("type C%d_%s = %s;" % (i, R[r], mc(([], i), r)))
        for r in range(n):
            w("type S_%s = %s;" % (R[r], mc(pr.start, r)))

        def send_code(p, q):
            if k in ("basic", "recursive", "lib"):
                return "s.send(x)"
            if k in ("cancel", "rec_and_cancel"):
                return "s.send(x)?"
            f = "send_mpst_%s_to_%s(x, s)" % (low[p], low[q])
            return f + ("?" if k == "multi_cancel" else "")

        def recv_code(r, p):
            if k in ("basic", "recursive"):
                return "s.recv()"
            if k in ("cancel", "rec_and_cancel", "lib"):
                return "s.recv()?"
            return "recv_mpst_%s_from_%s(s)?" % (low[r], low[p])

        def emit_body(body, r, ind):
            msgs, nxt = body
            P = " " * ind
            for (p, q, ty) in msgs:
                if p == r:
                    w(P + "pre!(h, s%s); let x = h.mk::<%s>(%d); let s = %s; h.sent();" % (cm, ty, q, send_code(p, q)))
                elif q == r:
                    w(P + "pre!(h, s%s); h.rx(%d); let (x, s) = %s; h.got::<%s>(%d, &x);" % (cm, p, recv_code(r, p), ty, p))
            if nxt is None:
                w(P + "pre!(h, s%s); h.closing(); h.closed(%s)" % (cm, closef))
            else:
                w(P + "c%d_%s(s, h)" % (nxt, low[r]))

        def choose_code(i, l, r):
            labels = ", ".join("Br%d%s::L%d" % (i, R[q], l) for q in partners(r))
            if pr.style == "either":
                side = ["left", "right"][l]
                if k in ("func", "simple"):
                    q1, q2 = partners(r)
                    b0, b1 = pr.states[i][1]
                    g = [sess(b0, q2, q1), sess(b1, q2, q1), sess(b0, r, q1), sess(b0, r, q2), sess(b1, r, q1), sess(b1, r, q2)]
                    for q in (q1, q2):
                        g += ["<%s as Role>::Dual" % stack(b, q) for b in (b0, b1)]
                    g += [stack(b0, r), stack(b1, r)]
                    return "choose_%s_mpst_session_%s_to_all::<%s>(s)" % (side, low[r], ", ".join(g))
                if k == "multi":
                    return self.multi_either(pr, i, side, r, sess, stack, partners)
                return "s.choose_%s()" % side
            if k in ("recursive", "rec_and_cancel"):
                return "choose_mpst_%s_to_all!(s, %s)" % (low[r], labels)
            if k in ("basic", "cancel", "multi", "multi_cancel"):
                f = form(i)
                if f == "bundle":
                    return "ch%d_%d(s)" % (i, l)
                if f == "create":
                    return "choose_c%d!(s, %s)" % (i, labels)
                return "mpstthree::choose_mpst_multi_to_all!(s, %s, => Name%s, %s, %d)" % (labels, R[r], MC, r + 1)
            if k == "simple":
                if r == 2:
                    return "mpstthree::choose_mpst_to_all!(s, %s, => Name%s)" % (labels, R[r])
                return "mpstthree::choose_mpst_multi_to_all!(s, %s, => Name%s, %s, %d)" % (labels, R[r], MC, r + 1)
            return "mpstthree::choose_mpst_%s_to_all!(s, %s)" % (low[r], labels)

        def offer_open(i, r, p):
            if k in ("basic", "recursive", "rec_and_cancel"):
                return "offer_mpst!(s, {"
            if k == "cancel":
                return "mpstthree::offer_mpst!(s, {"
            if k in ("multi", "multi_cancel", "simple"):
                return "mpstthree::offer_mpst!(s, recv_mpst_%s_from_%s, {" % (low[r], low[p])
            return "mpstthree::offer_mpst_%s_to_%s!(s, {" % (low[r], low[p])

        for i, (p, br) in enumerate(pr.states):
            for r in range(n):
                w("fn c%d_%s(s: C%d_%s, h: H) -> R {" % (i, low[r], i, R[r]))
                w("  pre!(h, s%s);" % cm)
                if r == p:
                    w("  match h.choice() {")
                    for l, b in enumerate(br):
                        pat = str(l) if l + 1 < len(br) else "_"
                        w("    %s => { let s: B%d_%d_%s = %s; h.chosen();" % (pat, i, l, R[r], choose_code(i, l, r)))
                        emit_body(b, r, 6)
                        w("    }")
                    w("  }")
                elif pr.style == "either":
                    w("  h.offer(%d);" % p)
                    if k in ("func",):
                        w("  offer_mpst_session_to_%s_from_%s(s," % (low[r], low[p]))
                    elif k in ("multi", "simple"):
                        w("  offer_mpst_session_%s_to_%s(s," % (low[r], low[p]))
                    else:
                        w("  s.offer(")
                    for l, b in enumerate(br):
                        w("    move |s: B%d_%d_%s| -> R { h.offered(%d, %d);" % (i, l, R[r], p, l))
                        emit_body(b, r, 6)
                        w("    },")
                    w("  )")
                else:
                    w("  h.offer(%d);" % p)
                    w("  " + offer_open(i, r, p))
                    for l, b in enumerate(br):
                        w("    Br%d%s::L%d(s) => { h.offered(%d, %d);" % (i, R[r], l, p, l))
                        emit_body(b, r, 6)
                        w("    },")
                    w("  })")
                w("}")
        for r in range(n):
            w("fn start_%s(s: S_%s, h: H) -> R {" % (low[r], R[r]))
            emit_body(pr.start, r, 2)
            w("}")
        w("pub fn go() {")
        w("  let f = catch(|| fork_mpst(%s));" % ", ".join("move |s: S_%s| H::new(%d).participant(move |h| start_%s(s, h))" % (R[r], r, low[r]) for r in range(n)))
        w("  match f { Ok((%s,)) => joined(vec![%s]), Err(e) => not_forked(e) }" % (", ".join("j%d" % r for r in range(n)), ", ".join("j%d" % r for r in range(n))))
        w("}")
        self.table(pr, w, n)
        w("}")
        return "\n".join(o)

    def table(self, pr, w, n):
        def b(body):
            msgs, nxt = body
            return "(&[%s], %s)" % (", ".join("(%d, %d)" % (p, q) for (p, q, _) in msgs), "END" if nxt is None else str(nxt))

        st = []
        for i, (p, br) in enumerate(pr.states):
            st.append("State { chooser: %d, exit: %d, branches: &[%s] }" % (p, pr.exit[i], ", ".join(b(x) for x in br)))
        w("pub static P: Proto = Proto { name: \"%s/%s\", n: %d, cancel_sends: %s, cancel_choices: %s, start: %s, states: &[%s], go };" % (self.kind, pr.name, n, "true" if self.cancel_sends() else "false", "true" if self.cancel_choices() else "false", b(pr.start), ", ".join(st)))

    def multi_either(self, pr, i, side, r, sess, stack, partners):
        # generics of create_choose_mpst_session_multi_{left,right}; see its expansion
        n = pr.n
        assert r == n - 1, "the generated names number the chooser last"
        bs = pr.states[i][1]
        g = [sess(b, x, y) for b in bs for x in range(n) for y in range(x + 1, n)]
        for q in range(n - 1):
            g += ["<%s as Role>::Dual" % stack(b, q) for b in bs] + ["Name%s" % pr.roles[q]]
        g += [stack(b, r) for b in bs]
        return "choose_%s_mpst_session_%s_to_all::<%s>(s)" % (side, pr.roles[r].lower(), ", ".join(g))

    def emit_binary(self, pr, modname):
        o = []
        w = o.append
        w("pub mod %s {" % modname)
        w("use crate::prelude::*; use mpstthree::binary::{send::send, recv::recv, close::close, fork::{fork, fork_with_thread_id}};")
        either = pr.style == "either"
        if either:
            w("use mpstthree::binary::{choose::*, offer::*};")

        def sess(body, r):
            msgs, nxt = body
            if nxt is None:
                t = "End"
            else:
                t = "C%d_%d" % (nxt, r)
            for (p, d, ty) in reversed(msgs):
                t = "%s<%s, %s>" % ("Send" if p == r else "Recv", ty, t)
            return t

        for i, (p, br) in enumerate(pr.states):
            for l, b in enumerate(br):
                for r in range(2):
                    w("type B%d_%d_%d = %s;" % (i, l, r, sess(b, r)))
            q = 1 - p
            if either:
                w("type C%d_%d = Send<Either<B%d_0_%d, B%d_1_%d>, End>; type C%d_%d = Recv<Either<B%d_0_%d, B%d_1_%d>, End>;" % (i, p, i, q, i, q, i, q, i, q, i, q))
            else:
                w("pub enum Br%d { %s } unsafe impl std::marker::Send for Br%d {}" % (i, ", ".join("L%d(B%d_%d_%d)" % (l, i, l, q) for l in range(len(br))), i))
                w("type C%d_%d = Send<Br%d, End>; type C%d_%d = Recv<Br%d, End>;" % (i, p, i, i, q, i))
        for r in range(2):
            w("type S_%d = %s;" % (r, sess(pr.start, r)))

        def emit_body(body, r, ind):
            msgs, nxt = body
            P = " " * ind
            for (p, q, ty) in msgs:
                if p == r:
                    w(P + "pre!(h, s); let x = h.mk::<%s>(%d); let s = send(x, s); h.sent();" % (ty, q))
                else:
                    w(P + "pre!(h, s); h.rx(%d); let (x, s) = recv(s)?; h.got::<%s>(%d, &x);" % (p, ty, p))
            if nxt is None:
                w(P + "pre!(h, s); h.closing(); h.closed(close(s))")
            else:
                w(P + "c%d_%d(s, h)" % (nxt, r))

        for i, (p, br) in enumerate(pr.states):
            for r in range(2):
                w("fn c%d_%d(s: C%d_%d, h: H) -> R {" % (i, r, i, r))
                w("  pre!(h, s);")
                if r == p:
                    w("  match h.choice() {")
                    for l, b in enumerate(br):
                        pat = str(l) if l + 1 < len(br) else "_"
                        if either:
                            c = "choose_%s::<B%d_0_%d, B%d_1_%d>(s)" % (["left", "right"][l], i, r, i, r)
                        else:
                            c = "mpstthree::choose!(Br%d::L%d, s)" % (i, l)
                        w("    %s => { let s: B%d_%d_%d = %s; h.chosen();" % (pat, i, l, r, c))
                        emit_body(b, r, 6)
                        w("    }")
                    w("  }")
                else:
                    w("  h.offer(%d);" % p)
                    if either:
                        w("  offer_either(s,")
                        for l, b in enumerate(br):
                            w("    move |s: B%d_%d_%d| -> R { h.offered(%d, %d);" % (i, l, r, p, l))
                            emit_body(b, r, 6)
                            w("    },")
                        w("  )")
                    else:
                        w("  mpstthree::offer!(s, {")
                        for l, b in enumerate(br):
                            w("    Br%d::L%d(s) => { h.offered(%d, %d);" % (i, l, p, l))
                            emit_body(b, r, 6)
                            w("    },")
                        w("  })")
                w("}")
        for r in range(2):
            w("fn start_%d(s: S_%d, h: H) -> R {" % (r, r))
            emit_body(pr.start, r, 2)
            w("}")
        w("pub fn go() {")
        w("  if alone() { match catch(|| fork(move |s: S_1| H::new(1).participant(move |h| start_1(s, h)))) {")
        w("    Ok(s) => root_alone(0, move || H::new(0).participant(move |h| start_0(s, h))),")
        w("    Err(e) => not_forked(e) } } else {")
        w("  match catch(|| fork_with_thread_id(move |s: S_1| H::new(1).participant(move |h| start_1(s, h)))) {")
        w("    Ok((j, s)) => root_joined(0, move || H::new(0).participant(move |h| start_0(s, h)), j),")
        w("    Err(e) => not_forked(e) } }")
        w("}")
        self.table(pr, w, 2)
        w("}")
        return "\n".join(o)


def bin_file(fname, mods):
    """mods: [(kind, proto)]"""
    o = ["// Generated by sim/gen/gen.py. Do not edit."]
    names = []
    for kind, pr in mods:
        m = "%s_%s" % (kind, pr.name)
        names.append(m)
        o.append(Fam(kind).emit(pr, m))
    o.append("pub static ALL: &[&harness::model::Proto] = &[%s];" % ", ".join("&%s::P" % m for m in names))
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, fname), "w") as f:
        f.write("\n".join(o) + "\n")


# ---------------------------------------------------------------- protocols
def P2(name, spec, **k):
    return parse(name, 2, spec, **k)


def main():
    # two participants, plain binary sessions
    b = [
        P2("ping", {"start": "ab ba ."}),
        P2("burst", {"start": "ab ab ab ab ab ba ba ba ."}),
        P2("cross", {"start": "ab ba ab ab ba ba ab ba ."}),
        P2("loop", {"start": ">X", "X@a": ["ab ba >X", "."]}),
        P2("server", {"start": "ba >X", "X@b": ["ba ab >X", "ba ba >Y", "ab ."], "Y@a": ["ab >X", ".", "ab ab >Y"]}),
        P2("stream", {"start": ">X", "X@a": ["ab ab ab >X", "ba ."]}),
        P2("four", {"start": "ab >X", "X@a": ["ab >Y", "ba .", "ba ba >X", "ab ."], "Y@b": ["ba >X", "ab >Y", "."]}),
    ]
    for i in range(4):
        b.append(rand_proto("r%d" % i, 2, i))
    e = [
        P2("either", {"start": "ab >X", "X@a": ["ab ba .", "ba ."]}, style="either"),
        P2("nested", {"start": ">X", "X@b": ["ab >Y", "ba ."], "Y@a": ["ab .", "ab ba >Z"], "Z@b": ["ba .", "."]}, style="either"),
    ]
    for x in e:
        x.name = "e" + x.name
    bin_file("binary.rs", [("binary", x) for x in b + e])

    loop3 = {"start": "ca ac >X", "X@c": ["ca ab ba ac >X", "."]}
    ring3 = {"start": "ab bc ca >X", "X@a": ["ab bc ca >X", "ac cb ba >X", "."]}
    two3 = {"start": "ab ac >X", "X@b": ["ba >Y", "bc cb >X", "ac ."], "Y@c": ["ca ab >X", "cb .", "bc >Y"]}
    split3 = {"start": "ab ac ab ac ab ac ba ca ."}
    loop4 = {"start": "ad db >X", "X@d": ["da ab bc cd >X", "ba ca da >Y", "."], "Y@b": ["bd >X", "."]}
    star5 = {"start": "ab ac ad ae >X", "X@a": ["ba ca da ea >X", "ab bc cd de ea >X", "."]}
    zig4 = ["M", "B", "Zed", "Alpha"]

    wheel6 = {"start": "fa ab bf >X", "X@f": ["fa fb fc fd fe af bf cf df ef >X", "ab bc cd de ef fa >Y", "."], "Y@c": ["ca ce ac >X", "fd df cf .", "eb be >Y"]}
    wheel7 = {"start": "ga ab bc cd de ef fg >X", "X@d": ["da eg gb bf fc >X", "db dc de df dg ga >Y", "ad bd cd ed fd gd ."], "Y@g": ["ga gb gc gd ge gf >X", "ae bf cg .", "fa >Y"]}
    wheel8 = {"start": "ah hb bg gc cf fd de >X", "X@h": ["ha hb hc hd he hf hg >X", "ab bc cd de ef fg gh >Y", "."], "Y@a": ["ab ac ad ae af ag ah .", "ha ga fa ea da ca ba >X"]}
    wheel11 = {"start": "jk ka aj bk kb ij ja >X", "X@j": ["ja jb jc jd je jf jg jh ji jk kj ij ai >X", "ab bc cd de ef fg gh hi ij jk ka >Y", "."], "Y@b": ["ba bk bj kb ka jb ji ij >X", "ak bk ck dk ek ja ka ."]}
    count11 = ["R%d" % i for i in range(1, 12)]
    mess6 = ["Q", "Bob", "Zulu", "Alpha", "Y1", "C"]
    either5 = {"start": "ea ab >X", "X@e": ["ea eb ec ed ab cd >Y", "de ."], "Y@e": ["be ec da .", "ae cb >Z"], "Z@e": ["ab .", "."]}
    multi3 = {"start": "ab >X", "X@c": ["ca ab bc >Y", "bc ."], "Y@c": ["ca cb .", "ac ."]}

    def mk(name, n, spec, **k):
        return parse(name, n, spec, **k)

    def std3(tag):
        return [mk("loop3" + tag, 3, loop3), mk("ring3" + tag, 3, ring3), mk("two3" + tag, 3, two3), mk("split3" + tag, 3, split3)]

    either3 = {"start": "ca ac >X", "X@c": ["ca ab ba ac >Y", "."], "Y@a": ["ab bc .", "ba cb ."]}
    either3b = {"start": "ab >X", "X@b": ["ba bc ca .", "ac >Y"], "Y@c": ["ca cb .", "ab ."]}
    either3a = {"start": ">X", "X@a": ["ab bc ca .", "ac cb ba >Y"], "Y@b": ["ba .", "bc >Z"], "Z@a": ["ab .", "ac ."]}
    either4 = {"start": "ad >X", "X@b": ["ba bc bd dc >Y", "cd ."], "Y@d": ["da db dc ab .", "ac ."]}
    ei3 = [mk("ec3", 3, either3, style="either"), mk("eb3", 3, either3b, style="either"), mk("ea3", 3, either3a, style="either")]
    ei4 = [mk("e4", 4, either4, style="either")]

    m = []
    for kind in ("basic", "recursive"):
        m += [(kind, x) for x in std3("")]
        m += [(kind, mk("loop4", 4, loop4, roles=zig4)), (kind, mk("star5", 5, star5))]
        m += [(kind, mk("wheel6", 6, wheel6, roles=mess6)), (kind, mk("wheel7", 7, wheel7)) if kind == "basic" else (kind, mk("wheel8", 8, wheel8))]
        m += [(kind, mk("wheel11", 11, wheel11, roles=count11))] if kind == "recursive" else []
        m += [(kind, rand_proto("r%d" % i, [2, 3, 4][i % 3], 10 + i + (50 if kind == "basic" else 0))) for i in range(4)]
        m += [(kind, x) for x in (ei3 if kind == "basic" else ei3[:1]) + ei4]
    bin_file("bake.rs", m)

    m = []
    for kind in ("cancel", "rec_and_cancel"):
        m += [(kind, x) for x in std3("")]
        m += [(kind, mk("loop4", 4, loop4, roles=zig4)), (kind, mk("star5", 5, star5))]
        m += [(kind, mk("wheel6", 6, wheel6, roles=mess6)), (kind, mk("wheel7", 7, wheel7)) if kind == "basic" else (kind, mk("wheel8", 8, wheel8))]
        m += [(kind, mk("wheel11", 11, wheel11, roles=count11))] if kind == "recursive" else []
        m += [(kind, mk("wheel11", 11, wheel11, roles=count11))] if kind == "rec_and_cancel" else []
        m += [(kind, rand_proto("r%d" % i, [2, 3, 4][i % 3], 100 + i + (50 if kind == "cancel" else 0))) for i in range(4)]
        m += [(kind, x) for x in (ei3 if kind == "cancel" else ei3[1:2]) + ei4]
    bin_file("bakec.rs", m)

    m = []
    for kind in ("multi", "multi_cancel"):
        m += [(kind, x) for x in std3("")]
        m += [(kind, mk("loop4", 4, loop4, roles=zig4)), (kind, mk("star5", 5, star5))]
        m += [(kind, mk("wheel6", 6, wheel6, roles=mess6)), (kind, mk("wheel7", 7, wheel7)) if kind == "multi" else (kind, mk("wheel8", 8, wheel8))]
        m += [(kind, mk("wheel11", 11, wheel11, roles=count11))]
        m += [(kind, mk("em3", 3, multi3, style="either")), (kind, mk("em5", 5, either5, style="either"))] if kind == "multi" else []
        m += [(kind, rand_proto("r%d" % i, [2, 3, 4][i % 3], 200 + i + (50 if kind == "multi" else 0))) for i in range(4)]
    bin_file("multi.rs", m)

    m = []
    abc = [mk("loop3", 3, loop3), mk("ring3", 3, ring3), mk("two3", 3, two3), mk("split3", 3, split3)]
    for kind in ("simple", "func", "lib"):
        if kind != "lib":
            m += [(kind, x) for x in abc]
            m += [(kind, rand_proto("r%d" % i, 3, 300 + i + (50 if kind == "func" else 0))) for i in range(3)]
        else:
            m += [(kind, x) for x in abc[3:]]
        m += [(kind, x) for x in ei3]
        m += [(kind, rand_proto("re%d" % i, 3, 400 + i + {"simple": 0, "func": 20, "lib": 40}[kind], style="either")) for i in range(2)]
    bin_file("three.rs", m)


if __name__ == "__main__":
    main()
