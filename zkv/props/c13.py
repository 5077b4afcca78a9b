"""C13 Verdicts do not depend on what a statement object was used for before."""
from hypothesis import strategies as st
from zksk.base import NIZK

from zkv import core, gen, model, mutate, ref
from zkv.core import Prop, Sub, must, must_accept, must_reject, require
from zkv.props import c04
from zkv.proto import copy_nizk, interactive, over_wire, roundtrip, verify

OPS = ["prove", "prove", "verify", "verify", "verify", "bad", "bad", "sim", "simcheck", "int", "int", "abort",
       "wrong", "cross", "badint"]
BAD = ["msg", "resp", "resp-all", "sub", "pre-none", "pre-other", "pre-leaf", "pre-cut", "hash", "challenge", "sim",
       "junk"]


def make(kinds, groups=None, depth=2, width=3, ops=9):
    @st.composite
    def strat(draw):
        g = gen.G(draw, groups=draw(groups) if groups is not None else None, kinds=kinds,
                  depth=draw(st.integers(0, depth)), width=width, p_ext=2)
        tree = g.tree()
        seq = [[g.pick(OPS), g.i(0, 9), g.i(0, 9), g.i(0, 9), g.pick(BAD)] for _ in range(g.i(3, ops))]
        case = g.case(tree, ops=seq, pure=int(all(n["k"] == "dl" for n in model.leaves(tree))))
        if g.b():
            case["style"] = {s: "bd" for s in case["style"]}
        return case
    return strat()


def marks(stmt):
    """Which parts are marked as simulated."""
    return [bool(stmt.simulated)] + [marks(s) for s in getattr(stmt, "subproofs", ())]


class World:
    def __init__(self, case):
        self.case = case
        self.party = model.prover_party(case)
        self.vparty = model.Party(case, "V", False)
        self.P = [self.party.build() for _ in range(2)]
        self.V = [self.vparty.build() for _ in range(2)]
        self.proofs = []       # (nizk, message, bytes)
        self.sims = []
        self.values = self.snapshot()
        self.mapping = list(self.party.mapping.items())
        self.marks = [marks(s) for s in self.P + self.V]

    def snapshot(self):
        return {n: None if s.value is None else int(s.value) for n, s in self.party.secrets.items()}

    def check_caller(self):
        given = {s.name: int(v) for s, v in self.party.mapping.items()}
        for n, s in self.party.secrets.items():
            now = None if s.value is None else int(s.value)
            if s.name in given:
                require(now in (None, given[s.name]), "secret %s has a value nobody gave", n)
            else:
                require(now == self.values[n], "the value of a secret was changed by using a statement")
        now = list(self.party.mapping.items())
        require(len(now) == len(self.mapping) and all(a is c and type(b) is type(d) and int(b) == int(d) for (a, b), (c, d)
                                                      in zip(now, self.mapping)), "the caller's mapping was changed")
        require([marks(s) for s in self.P + self.V] == self.marks, "using a statement changed its simulate marks")
        for n, s in self.vparty.secrets.items():
            require(s.value is None, "a verifier's secret obtained a value")
        for nizk, _, raw in self.proofs:
            require(nizk.serialize() == raw, "a proof object was changed by using it")

    def stmt(self, k):
        k %= 6
        if k < 2:
            return self.P[k], "P"
        if k < 5:
            return self.V[k % 2], "V"
        return model.verifier_stmt(self.case), "new"

    def proof(self, i):
        if not self.proofs:
            self.prove(0, None)
        return self.proofs[i % len(self.proofs)]

    def prove(self, i, msg):
        nizk = must("proving", self.party.prove, self.P[i % 2], msg)
        self.proofs.append((nizk, msg, nizk.serialize()))

    def sim(self, k):
        s, _ = self.stmt(k)
        self.sims.append(must("simulating", s.simulate))


def bad_proof(w, kind, i, j):
    """A changed version of an accepted proof and a message to try it with, or None."""
    r = core.rng()
    nizk, msg, _ = w.proof(i)
    if kind == "msg":
        return nizk, (msg or "") + "x"
    if kind in ("resp", "resp-all", "sub"):
        rstmt = ref.constructed(model.verifier_stmt(w.case), nizk.precommitment)
        a = c04.apply_response([kind, i, j, "+1", "+g", 0], rstmt, nizk.challenge, nizk.responses, r)
        if not a:
            return None
        com = ref.recompute(rstmt, nizk.challenge, nizk.responses)
        if ref.check(rstmt, com, nizk.challenge, a):
            return None
        return copy_nizk(nizk, responses=a), msg
    pre = nizk.precommitment
    if kind == "pre-none":
        return (copy_nizk(nizk, precommitment=None), msg) if pre is not None else None
    if kind == "pre-other":
        other = w.proof(i + 1)[0].precommitment
        return (copy_nizk(nizk, precommitment=other), msg) if ref.plain(other) != ref.plain(pre) else None
    if kind == "pre-leaf":
        ls = [(p, v) for p, v in ref.flatten(pre) if v is not None]
        if not ls:
            return None
        p, v = ls[j % len(ls)]
        new = mutate.change_leaf(v, "+g" if hasattr(v, "export") else "+1", 1 << 300, r)
        return None if new is None else (copy_nizk(nizk, precommitment=ref.replace(pre, p, new)), msg)
    if kind == "pre-cut":
        if not isinstance(pre, list) or not pre:
            return None
        return copy_nizk(nizk, precommitment=pre[:-1]), msg
    if kind == "hash":
        return copy_nizk(nizk, stmt_hash=bytes(32)), msg
    if kind == "challenge":
        return copy_nizk(nizk, challenge=nizk.challenge + 1), msg
    if kind == "sim":
        if not w.sims:
            w.sim(i)
        t = w.sims[i % len(w.sims)]
        return NIZK(challenge=t.challenge, responses=t.responses, precommitment=t.precommitment,
                    stmt_hash=t.stmt_hash), msg
    return copy_nizk(nizk, responses=[[], [None], 3][j % 3]), msg


def start(w, p):
    prover = must("get_prover", w.party.get_prover, p)
    require(prover is not None, "no prover for a provable statement")
    return prover


def flow(prover, verifier):
    verifier.process_precommitment(prover.precommit())
    com = prover.commit()
    c = verifier.send_challenge(com)
    return verifier.verify(prover.compute_response(c))


def step(w, op, labels):
    what, a, b, c, kind = op
    if what == "prove":
        w.prove(a, gen.MESSAGES[b])
    elif what == "verify":
        nizk, msg, _ = w.proof(a)
        s, who = w.stmt(b)
        labels.add("verify:" + who)
        must_accept("honest proof on a %s statement used before" % who, verify, s,
                    roundtrip(nizk) if c == 0 else nizk, msg)
    elif what == "bad":
        made = bad_proof(w, kind, a, c)
        if made:
            s, who = w.stmt(b)
            labels.add("bad:" + kind)
            must_reject("%s-changed proof on a %s statement used before" % (kind, who), verify, s, *made)
    elif what == "sim":
        w.sim(a)
    elif what == "simcheck":
        if not w.sims:
            w.sim(a)
        t = w.sims[b % len(w.sims)]
        s, who = w.stmt(c)
        require(must("consistency check", s.verify_simulation_consistency, t) is True,
                "simulated transcript inconsistent on a %s statement used before", who)
    elif what == "int":
        p = w.P[a % 2]
        s, who = w.stmt(b)
        labels.add("int:" + who)
        if w.case["pure"] and c < 4:
            # two runs at once
            p1, p2 = start(w, p), start(w, p)
            v1, v2 = s.get_verifier(), s.get_verifier()
            m1, m2 = p1.commit(), p2.commit()
            c2, c1 = v2.send_challenge(m2), v1.send_challenge(m1)
            r1, r2 = p1.compute_response(c1), p2.compute_response(c2)
            must_accept("first of two simultaneous runs", v1.verify, r1)
            must_accept("second of two simultaneous runs", v2.verify, r2)
            must_reject("responses swapped between runs", v1.verify, r2)
            labels.add("simultaneous")
        else:
            must_accept("honest run on statements used before", flow, start(w, p), s.get_verifier())
    elif what == "badint":
        s, who = w.stmt(2 + b % 3)
        prover, verifier = start(w, w.P[a % 2]), s.get_verifier()
        pre = prover.precommit()
        verifier.process_precommitment(pre)
        ch = verifier.send_challenge(prover.commit())
        resp = prover.compute_response(ch)
        worse = c04.apply_response(["resp", a, c, "+1", "+g", 0], s, ch, resp, core.rng())
        if worse and not ref.check(s, verifier.commitment, ch, worse):
            must_reject("changed response", verifier.verify, worse)
        must_accept("honest response after a changed one", verifier.verify, resp)
    elif what == "abort":
        prover = start(w, w.P[a % 2])
        s, who = w.stmt(2 + b % 4)
        labels.add("abort:%d" % (c % 5))
        if c % 5 > 0:
            pre = prover.precommit()
            if c % 5 > 1:
                verifier = s.get_verifier()
                verifier.process_precommitment(pre)
                if c % 5 > 2:
                    com = prover.commit()
                    if c % 5 > 3:
                        verifier.send_challenge(com)
    elif what == "wrong":
        # wrong values in a mapping of the caller's, once
        if w.party.mapping:
            keys = list(w.party.mapping)
            bad = dict(w.party.mapping)
            k = keys[c % len(keys)]
            bad[k] = bad[k] + 1 + b
            try:
                nizk = w.P[a % 2].prove(bad)
            except Exception:
                nizk = None
            values = dict(w.case["v"])
            values.update({n: int(bad[s]) for n, s in w.party.secrets.items() if s in bad})
            labels.add("wrong-values")
            if nizk is not None and model.provable(
                    w.case["tree"], w.case["v"], values, set(w.case["unk"])) == "no":
                must_reject("proof from wrong values", verify, w.stmt(b)[0], nizk, None)
            for s, v in w.party.mapping.items():
                s.value = None if s.name not in w.values else w.values[s.name]
            w.prove(a, None)
            must_accept("honest proof after an attempt with wrong values", verify, w.stmt(b)[0],
                        w.proofs[-1][0], None)
    else:
        # a proof of one object verified by the other, right after being made
        w.prove(a, gen.MESSAGES[c])
        must_accept("honest proof on another object", verify, w.P[(a + 1) % 2], w.proofs[-1][0], w.proofs[-1][1])


def run(case):
    if model.provable(case["tree"], case["v"], case["v"], set(case["unk"])) != "yes":
        return {"not-provable"}
    labels = gen.describe(case)
    w = World(case)
    for op in case["ops"]:
        step(w, op, labels)
        labels.add("op:" + op[0])
        w.check_caller()
    w.prove(0, "end")
    for s in w.P + w.V:
        must_accept("honest proof at the end", verify, s, w.proofs[-1][0], "end")
        must_reject("honest proof at the end, other message", verify, s, w.proofs[-1][0], "")
    return labels | {"nontrivial"}


# ---------------------------------------------------------------- leftovers of an earlier session
EARLIER = ["verify", "verify", "interactive", "reject", "process", "prove"]


def leftover(kinds, groups, depth):
    @st.composite
    def strat(draw):
        g = gen.G(draw, groups=draw(groups), kinds=kinds, depth=draw(st.integers(0, depth)), width=3, p_ext=1, marks=False,
                  unknown=False, false_ok=False)
        tree = g.tree()
        return g.case(tree, earlier=[g.pick(EARLIER) for _ in range(g.i(1, 3))], drop=g.i(0, 5), int=g.i(0, 1),
                      msg=gen.message(draw))
    return strat()


def witness(stmt, out):
    stmt = ref.inner(stmt)
    if ref.kind(stmt) == "dl":
        out.update({s.name: int(s.value) for s in stmt.secret_vars if s.value is not None})
    else:
        for s in stmt.subproofs:
            witness(s, out)
    return out


def run_leftover(case):
    """A transcript that leaves out (part of) its precommitment, made to fit what an earlier session left behind. The verdict
    has to be that of a fresh object."""
    msg = case["msg"]
    labels = gen.describe(case)
    party = model.prover_party(case)
    stmt = must("building", party.build)
    nizk = must("proving", party.prove, stmt, msg)
    used = model.verifier_stmt(case)
    for e in case["earlier"]:
        labels.add("earlier:" + e)
        if e == "verify":
            must_accept("honest proof", verify, used, nizk, msg)
        elif e == "reject":
            must_reject("proof for another message", verify, used, nizk, (msg or "") + "!")
        elif e == "process":
            used.get_verifier().process_precommitment(nizk.precommitment)
        elif e == "interactive":
            prover = model.prover_party(case)
            p = prover.get_prover(prover.build())
            must("an interactive run", interactive, p, used.get_verifier())
            must_accept("honest proof", verify, used, nizk, msg)
    if case["earlier"][-1] == "prove":
        used = stmt
    parts = [p for p, v in ref.flatten(nizk.precommitment) if v is not None]
    cut = nizk.precommitment
    if cut is None:
        return labels
    if case["drop"] and isinstance(cut, list):
        # the component of one child only
        i = parts[case["drop"] % len(parts)][0]
        cut = ref.replace(cut, (i,), None)
    else:
        cut = None
    known = ref.constructed(model.verifier_stmt(case), nizk.precommitment)
    # names of internal secrets differ between the objects: by position
    own = [s.name for s in secrets(stmt)]
    other = [s.name for s in secrets(known)]
    if len(own) != len(other):
        return labels
    w = witness(stmt, {})
    w = {b: w[a] for a, b in zip(own, other) if a in w}
    ref_prover = ref.RefProver(known, w, core.rng())
    try:
        com = ref_prover.commit()
    except ref.Unknown:
        return labels
    fresh = model.verifier_stmt(case)
    if case["int"]:
        labels.add("interactive")

        def session(s):
            v = s.get_verifier()
            v.process_precommitment(cut)
            c = v.send_challenge((known.prehash_statement().digest(), com))
            return v.verify(ref_prover.respond(c))
        a, b = core.accepted(session, used), core.accepted(session, fresh)
    else:
        c, digest = ref.fs(known, cut, com, msg)
        bad = NIZK(challenge=c, responses=ref_prover.respond(c), precommitment=cut, stmt_hash=digest)
        a, b = core.accepted(verify, used, bad, msg), core.accepted(verify, fresh, bad, msg)
    require(a == b, "a transcript without its precommitment: %s by the used object, %s by a fresh one", a, b)
    return labels | {"nontrivial", "accepted" if a else "rejected"}


def secrets(stmt):
    stmt = ref.inner(stmt)
    if ref.kind(stmt) == "dl":
        return list(stmt.secret_vars)
    return [x for s in stmt.subproofs for x in secrets(s)]


# ---------------------------------------------------------------- several sessions of one prover and one verifier object
SESSIONS = ["nizk", "nizk", "int", "int", "wire", "again", "abort", "mixed", "reject", "badint"]


def sessions(kinds, groups, depth, width=3, most=8):
    @st.composite
    def strat(draw):
        g = gen.G(draw, groups=draw(groups), kinds=kinds, depth=draw(st.integers(0, depth)), width=width, p_ext=2)
        tree = g.tree()
        plan = [[g.pick(SESSIONS), g.i(0, 2), g.i(0, 2), g.i(0, 9)] for _ in range(g.i(2, most))]
        return g.case(tree, plan=plan, msg=gen.message(draw), fresh=g.i(0, 3))
    return strat()


def run_sessions(case):
    if model.provable(case["tree"], case["v"], case["v"], set(case["unk"])) != "yes":
        return {"not-provable"}
    labels = gen.describe(case)
    party = model.prover_party(case)
    stmt = party.build()
    # two provers of one object, and one of another; each is made when it is first needed
    provers, sources = {}, [stmt, stmt, party.build()]
    vs = [model.verifier_stmt(case) for _ in range(2)]
    verifiers = [vs[0].get_verifier(), vs[0].get_verifier(), vs[1].get_verifier()]
    pre, last, runs = {}, None, 0
    for what, a, b, c in case["plan"]:
        if case["fresh"]:
            # mostly one prover object and one verifier object
            a, b = a // 2 * (case["fresh"] - 1) // 2, b // 2
        if what == "again" and a not in pre:
            continue
        if what != "again":
            # a new session replaces the precommitment that the statement keeps
            pre = {k: x for k, x in pre.items() if sources[k] is not sources[a]}
        if a not in provers:
            provers[a] = must("get_prover", party.get_prover, sources[a])
        prover, verifier = provers[a], verifiers[b]
        msg = case["msg"] if c % 2 else gen.MESSAGES[c]
        labels.add("session:" + what)
        runs += 1
        if what in ("nizk", "reject"):
            nizk = must("proving with a prover used before", prover.get_nizk_proof, *([msg] if msg is not None else []))
            if what == "reject":
                must_reject("proof for another message by a verifier used before",
                            lambda: verifier.verify_nizk(nizk, (msg or "") + "!"))
            must_accept("proof by a prover used before", verify, model.verifier_stmt(case), nizk, msg)
            must_accept("proof by a prover used before, by a verifier used before",
                        lambda: verifier.verify_nizk(nizk, *([msg] if msg is not None else [])))
            pre[a] = nizk.precommitment
        elif what == "abort":
            last = must("precommitting", prover.precommit)
            pre[a] = last
            if c % 3 > 0:
                verifier.process_precommitment(last)
                if c % 3 > 1:
                    verifier.send_challenge(must("committing", prover.commit))
        elif what == "again":
            # another commitment under the precommitment in force
            verifier.process_precommitment(pre[a])
            ch = verifier.send_challenge(must("committing again", prover.commit))
            must_accept("second commitment under a precommitment", verifier.verify, prover.compute_response(ch))
        elif what == "mixed":
            # a session that is interrupted by a proof
            now = must("precommitting", prover.precommit)
            nizk = must("proving meanwhile", prover.get_nizk_proof)
            must_accept("proof made in place of a commitment", verify, model.verifier_stmt(case), nizk, None)
            pre[a] = nizk.precommitment
        elif what == "badint":
            verifier.process_precommitment(must("precommitting", prover.precommit))
            ch = verifier.send_challenge(must("committing", prover.commit))
            resp = must("responding", prover.compute_response, ch)
            must_reject("responses of a run, to the next challenge", second_verdict, prover, verifier, resp)
        else:
            must_accept("run by a prover and a verifier used before", over_wire if what == "wire" else interactive, prover, verifier)
    return labels | ({"nontrivial"} if runs > 1 else set())


def second_verdict(prover, verifier, resp):
    verifier.process_precommitment(prover.precommit())
    verifier.send_challenge(prover.commit())
    return verifier.verify(resp)


ec1 = st.sampled_from([[g] for g in gen.FAST])
pairs = st.sampled_from([["G1"], ["G1", "G2"], ["G2"], ["GT"], ["G1", "ec713"]])

PROP = Prop("C13", [
    Sub("dl", make(("dl",)), run, 900, rule="representation trees"),
    Sub("ext", make(("dl", "dlne", "rng", "p2", "cust"), ec1), run, 420, rule="with primitives"),
    Sub("pair", make(("dl", "bbs", "dlne"), pairs, 1, 3, 6), run, 60, rule="over pairing groups"),
    Sub("sessions", sessions(("dl",), ec1, 2), run_sessions, 500, rule="prover and verifier objects that serve several sessions"),
    Sub("sessions-ext", sessions(("dl", "dlne", "rng", "p2", "cust"), ec1, 1), run_sessions, 300, rule="same, with primitives"),
    Sub("sessions-pair", sessions(("dl", "bbs", "dlne"), pairs, 1, 2, 5), run_sessions, 40, rule="same, over pairing groups"),
    Sub("leftover", leftover(("dl", "dlne", "rng", "p2"), ec1, 2), run_leftover, 700, rule="a transcript lacking what an earlier session left"),
    Sub("leftover-pair", leftover(("dl", "bbs", "dlne"), pairs, 1), run_leftover, 40, rule="the same over pairing groups"),
], rule="A case is a provable statement and a sequence of up to nine operations (prove, verify, verify a changed proof, "
   "simulate, interactive runs whole, aborted, simultaneous or with a wrong response, proving with wrong values) on two "
   "prover-side and two verifier-side objects. Non-trivial: all operations were judged and the objects, "
   "secrets, mappings and proofs of the caller were compared with what they were before.")
