"""C22 The interactive verifier accepts exactly the valid transcripts."""
import contextlib

from hypothesis import strategies as st
from petlib import bn as petbn

from zkv import core, gen, model, mutate, ref
from zkv.core import Prop, Sub, accepted, must, must_accept, must_reject, require
from zkv.model import bn
from zkv.proto import Answers, runner
from zkv.props import c04

CH = ref.CH


@contextlib.contextmanager
def next_challenge(c):
    """The next number drawn below 2^128 is c, so that transcripts can be made for it beforehand."""
    inner = petbn.Bn.random

    def draw(self):
        if int(self) == CH and todo:
            return bn(todo.pop())
        return inner(self)

    todo = [c]
    petbn.Bn.random = draw
    try:
        yield
    finally:
        petbn.Bn.random = inner


# ---------------------------------------------------------------- verdicts on arbitrary transcripts
SPLIT = ["good", "good", "good", "good", "over", "under", "carry", "off1", "surplus", "short", "big", "top", "high",
         "zero", "all-equal", "empty"]
WHAT = ["none", "none", "resp", "resp", "resp-fit", "resp-fit", "com", "com-swap", "com-drop", "com-extra", "plus-q", "plus-q-all",
        "split-secret", "split-secret", "resp-drop", "resp-extra", "resp-nest", "other-c", "resp-swap", "sub", "neg-c",
        "com-fit-other", "com-none"]


@st.composite
def transcript(draw, kinds=("dl",), groups=None, depth=3, width=3):
    g = gen.G(draw, groups=draw(groups) if groups is not None else None, kinds=kinds,
              depth=draw(st.sampled_from(list(range(depth + 1)))), width=width, marks=False, unknown=False)
    tree = g.tree()
    if g.b():
        for n in model.leaves(tree):
            if n["k"] == "dl" and g.b():
                n["off"] = g.i(1, 9)      # transcripts are simulated, truth does not matter
    runs = [{"split": g.pick(SPLIT), "which": g.i(0, 5), "what": g.pick(WHAT), "i": g.i(0, 40), "j": g.i(0, 40),
             "delta": mutate.draw_delta(g), "move": g.pick(mutate.POINTS), "kind": g.pick(c04.KINDS[:5]),
             "c": g.pick(["rand", "rand", "rand", "0", "1", "max", "small"]),
             "via": g.pick(["plain"] * 6 + ["ignore", "ignore", "digest", "runner", "runner"])} for _ in range(g.i(1, 4))]
    return g.case(tree, runs=runs)


class Splitter:
    """Subchallenges for the disjunctions of a transcript; one of them is treated in a special way."""

    def __init__(self, how, which):
        self.how, self.which, self.count = how, which, -1

    def __call__(self, r, total, n):
        self.count += 1
        chs = ref.split(r, total, n)
        if self.count != self.which or self.how == "good":
            return chs
        how = self.how
        if how == "over":
            chs[r.randrange(n)] += CH
        elif how == "under":
            chs[r.randrange(n)] -= CH
        elif how == "carry":
            # adds up over the integers only
            chs = [r.randrange(max(1, total // n + 1)) for _ in range(n - 1)]
            chs.append(total - sum(chs))
        elif how == "off1":
            chs[-1] = (chs[-1] + r.choice([1, -1, 1 << 64, 1 << 127])) % CH
        elif how == "big":
            chs[-1] = total - sum(chs[:-1])
        elif how == "top":
            chs = [CH - 1] * (n - 1) + [(total - (n - 1) * (CH - 1)) % CH]
        elif how == "high":
            chs = [CH] + ref.split(r, total, n - 1) if n > 1 else chs
        elif how == "zero":
            chs = [0] * (n - 1) + [total % CH]
        elif how == "all-equal":
            chs = [total] * n
        return chs


def fit(stmt, c, resp):
    return ref.recompute(stmt, c, resp)


def nested(resp, i):
    """Places inside a response structure that are lists."""
    out = []

    def go(x, path):
        if isinstance(x, (list, tuple)):
            out.append(path)
            for j, y in enumerate(x):
                go(y, path + (j,))
    go(resp, ())
    return out[i % len(out)]


def disturb(o, stmt, com, c, resp, r, sim):
    what = o["what"]
    i, j = o["i"], o["j"]
    resps = [x for x in ref.response_info(stmt, c, resp) if x[0] == "resp"]
    if what in ("resp", "resp-fit"):
        new = c04.apply_response([o["kind"], i, j, o["delta"], None, None], stmt, c, resp, r)
        if new is not None:
            resp = new
            if what == "resp-fit":
                com = fit(stmt, c, resp)
    elif what in ("com", "com-swap"):
        pts = [(p, v) for p, v in ref.flatten(com)]
        p, v = pts[i % len(pts)]
        if what == "com":
            com = ref.replace(com, p, mutate.move_point(v, o["move"], r))
        else:
            p2, v2 = pts[j % len(pts)]
            if model.same_group(v.group, v2.group):
                com = ref.replace(ref.replace(com, p, v2), p2, v)
    elif what in ("com-drop", "com-extra"):
        if isinstance(com, list):
            com = com[:-1] if what == "com-drop" else com + com[-1:]
    elif what == "com-none":
        com = None
    elif what in ("plus-q", "plus-q-all"):
        _, path, q, v = resps[i % len(resps)]
        for _, p, q2, w in resps:
            if p == path or (what == "plus-q-all" and w == v and q2 == q):
                resp = ref.replace(resp, p, bn(w + q))
    elif what == "split-secret":
        # one occurrence of a secret answers on its own, the commitment fits
        _, path, q, v = resps[i % len(resps)]
        resp = ref.replace(resp, path, bn((v + 1 + r.randrange(q - 1)) % q))
        com = fit(stmt, c, resp)
    elif what in ("resp-drop", "resp-extra", "resp-nest"):
        p = nested(resp, i)
        x = ref.get(resp, p)
        if what == "resp-drop":
            x = x[:-1]
        elif what == "resp-extra":
            x = x + x[-1:]
        else:
            x = [x]
        resp = ref.replace(resp, p, x) if p else x
    elif what == "other-c":
        com, resp = sim((c + 1 + r.randrange(CH - 1)) % CH)
    elif what == "resp-swap":
        _, p, _, v = resps[i % len(resps)]
        _, p2, _, v2 = resps[j % len(resps)]
        resp = ref.replace(ref.replace(resp, p, bn(v2)), p2, bn(v))
        if i % 2:
            com = fit(stmt, c, resp)
    elif what == "sub":
        subs = [x for x in ref.response_info(stmt, c, resp) if x[0] == "sub"]
        if subs:
            _, p, _, v = subs[i % len(subs)]
            resp = ref.replace(resp, p, bn(mutate.shift(v, o["delta"], resps[0][2], r)))
            if j % 2:
                com = fit(stmt, c, resp)
    elif what == "neg-c":
        com = fit(stmt, -c, resp)
    elif what == "com-fit-other":
        com = fit(stmt, (c + 1) % CH, resp)
    return com, resp


def run_transcript(case):
    r = core.rng()
    labels = gen.describe(case)
    party = model.Party(case, "P", False)
    stmt = party.build()
    stmt.prepare_simulate_proof()
    pre = ref.precommitment_of(stmt)
    ref.constructed(stmt, pre)
    vstmt = model.verifier_stmt(case)
    n = 0
    for o in case["runs"]:
        c = {"rand": r.randrange(CH), "0": 0, "1": 1, "max": CH - 1, "small": r.randrange(256)}[o["c"]]

        def sim(c):
            return ref.sim(stmt, c, r, splitter=Splitter(o["split"], o["which"] % 3))

        com, resp = sim(c)
        if o["split"] in ("surplus", "short", "empty"):
            ors = [p for p in (nested(resp, i) for i in range(60)) if isinstance(ref.get(resp, p), tuple)]
            if ors:
                p = ors[o["which"] % len(ors)]
                chs, rs = ref.get(resp, p)
                new = {"surplus": (chs + [bn(0)], rs), "short": (chs[:-1], rs), "empty": ([], [])}[o["split"]]
                resp = ref.replace(resp, p, new) if p else new
                labels.add("split:" + o["split"])
                o = dict(o, what="none")
        else:
            com, resp = disturb(o, stmt, com, c, resp, r, sim)
        verifier = vstmt.get_verifier() if o["j"] % 2 else model.verifier_stmt(case).get_verifier()
        via = o["via"]
        labels.add("via:" + via)
        try:
            verifier.process_precommitment(pre)
            digest = verifier.stmt.prehash_statement().digest()
            if via == "runner":
                with next_challenge(c):
                    v = accepted(runner, verifier, Answers(pre, (digest, com), resp), bool(o["i"] % 2))
                require(v == ref.check(stmt, com, int(verifier.challenge), resp), "verdict of the protocol runner: %s", v)
                labels |= {"what:" + o["what"], "split:" + o["split"], "verdict:%s" % v}
                n += 1
                continue
            with next_challenge(c):
                if via == "ignore" and case["tree"]["k"] in ("dl", "and", "or"):
                    got = verifier.send_challenge(com, ignore_statement_hash_checks=True)
                elif via == "digest":
                    digest = bytes(32) if o["i"] % 2 else bytes([digest[0] ^ 1]) + digest[1:]
                    got = verifier.send_challenge((digest, com))
                    must_reject("transcript naming another statement", verifier.verify, resp)
                    n += 1
                    continue
                else:
                    got = verifier.send_challenge((digest, com))
        except core.Violation:
            raise
        except Exception:
            # a commitment of the wrong form may be refused right away
            require(via == "digest" or not ref.check(stmt, com, c, resp), "the verifier refused a valid commitment")
            labels.add("refused")
            n += 1
            continue
        if int(got) != c:
            labels.add("challenge-not-forced")
            c = int(got)
        want = ref.check(stmt, com, c, resp)
        v = accepted(verifier.verify, resp)
        require(v == want, "verdict on a transcript (%s, subchallenges %s): %s, equations: %s", o["what"], o["split"], v, want)
        labels |= {"what:" + o["what"], "split:" + o["split"], "verdict:%s" % want}
        require(accepted(verifier.verify, resp) == want, "the verdict changes when asked again")
        n += 1
    if n:
        labels.add("nontrivial")
    return labels


# ---------------------------------------------------------------- extraction
@st.composite
def extraction(draw, kinds=("dl",), groups=None, depth=3, width=3):
    g = gen.G(draw, groups=draw(groups) if groups is not None else None, kinds=kinds,
              depth=draw(st.integers(0, depth)), width=width)
    return g.case(g.tree(), lib=g.i(0, 1), near=g.i(0, 3))


def extract(stmt, c1, r1, c2, r2, out):
    """Values from two answers to one commitment. Returns False where the challenges agree."""
    stmt = ref.inner(stmt)
    k = ref.kind(stmt)
    if k == "dl":
        q = int(stmt.bases[0].group.order())
        d = (int(c1) - int(c2)) % q
        if d == 0:
            return False
        xs = [(int(a) - int(b)) * pow(d, -1, q) % q for a, b in zip(r1, r2)]
        require(ref.wsum(stmt, xs) == stmt.lhs, "two accepted answers do not give a representation of the public value")
        for s, x in zip(stmt.secret_vars, xs):
            require(out.setdefault((s.name, q), x) == x, "two accepted answers give two values for one secret")
        return True
    if k == "and":
        return all([extract(s, c1, a, c2, b, out) for s, a, b in zip(stmt.subproofs, r1, r2)])
    return any([extract(s, x, a, y, b, {}) for s, x, a, y, b in zip(stmt.subproofs, r1[0], r1[1], r2[0], r2[1])])


def run_extraction(case):
    r = core.rng()
    labels = gen.describe(case)
    party = model.prover_party(case)
    stmt = party.build()
    prover = must("get_prover", party.get_prover, stmt)
    pre = must("precommit", prover.precommit)
    com = must("commit", prover.commit)
    answers = []
    for k in range(3):
        v = model.verifier_stmt(case).get_verifier()
        v.process_precommitment(pre)
        # neighbouring challenges as well as independent ones
        if case["near"] and answers:
            with next_challenge((answers[0][0] + case["near"] * k) % CH):
                c = v.send_challenge(com)
        else:
            c = v.send_challenge(com)
        try:
            resp = prover.compute_response(c)
        except Exception:
            if answers:
                labels.add("one-answer-only")
                break
            raise
        must_accept("honest answer %d" % k, v.verify, resp)
        require(ref.check(v.stmt, com[1], c, resp), "an accepted answer does not satisfy the equations")
        answers.append((int(c), ref.deep(resp), v))
    for i in range(len(answers)):
        for j in range(i):
            c1, r1, v1 = answers[i]
            c2, r2, v2 = answers[j]
            if c1 == c2:
                continue
            out = {}
            require(extract(v1.stmt, c1, r1, c2, r2, out), "two accepted answers do not give a witness")
            for v, c, resp in ((v1, c1, r2), (v2, c2, r1)):
                want = ref.check(v.stmt, com[1], c, resp)
                require(accepted(v.verify, resp) == want, "answer to another challenge: verdict differs from the equations (%s)", want)
                labels.add("crossed:%s" % want)
    if len(answers) > 1:
        labels.add("nontrivial")
    return labels


# ---------------------------------------------------------------- challenges
@st.composite
def fresh(draw):
    g = gen.G(draw, kinds=("dl", "dlne", "rng"), groups=[draw(st.sampled_from(gen.FAST))], depth=draw(st.integers(0, 2)), width=3)
    return g.case(g.tree(), same=g.i(0, 2))


def run_fresh(case):
    labels = gen.describe(case) | {"reuse:%d" % case["same"], "nontrivial"}
    party = model.prover_party(case)
    prover = must("get_prover", party.get_prover, party.build())
    pre = prover.precommit()
    com = must("commit", prover.commit)
    vstmt = model.verifier_stmt(case)
    verifier = vstmt.get_verifier()
    cs = []
    for k in range(64):
        if case["same"] == 0 or k == 0:
            verifier = vstmt.get_verifier()
            verifier.process_precommitment(pre)
        elif case["same"] == 1:
            verifier.process_precommitment(pre)
        c = must("send_challenge", verifier.send_challenge, com)
        require(0 <= int(c) < CH, "challenge out of range")
        cs.append(int(c))
    require(len(set(cs)) == len(cs), "challenges repeat for one commitment")
    for b in range(128):
        require(len({(c >> b) & 1 for c in cs}) == 2, "bit %d of the challenge is constant", b)
    # no two neighbouring challenges are related by a fixed difference
    require(len({(a - b) % CH for a, b in zip(cs, cs[1:])}) == len(cs) - 1, "challenges follow a fixed step")
    must_accept("answer to the last challenge", verifier.verify, prover.compute_response(c))
    return labels


# ---------------------------------------------------------------- histories
@st.composite
def history(draw, groups=None):
    g = gen.G(draw, groups=draw(groups) if groups is not None else None, kinds=("dl",), depth=draw(st.integers(0, 2)), width=3)
    ops = [["send", g.i(0, 1), 0, 0]]
    for _ in range(g.i(3, 12)):
        ops.append([g.pick(["send", "send", "answer", "answer", "answer", "replay", "commit"]), g.i(0, 1), g.i(0, 2), g.i(0, 9)])
    return g.case(g.tree(), ops=ops, shared=g.i(0, 1))


def run_history(case):
    """Two verifiers and several commitments; a verdict is about the verifier's last commitment and challenge."""
    r = core.rng()
    labels = gen.describe(case)
    party = model.Party(case, "P", False)
    stmt = party.build()
    witness = {party.secrets[s].name: v for s, v in case["v"].items() if s not in case["unk"]}
    probe = ref.RefProver(stmt, witness, r)
    if not probe._provable(stmt):
        return labels
    v0 = model.verifier_stmt(case)
    verifiers = [v0.get_verifier(), (v0 if case["shared"] else model.verifier_stmt(case)).get_verifier()]
    state = [None, None]
    sessions, answers = [], []
    judged = 0

    def session(k):
        while len(sessions) <= k:
            p = ref.RefProver(stmt, witness, r)
            sessions.append((p, p.commit()))
        return sessions[k]

    for op, v, k, a in case["ops"]:
        if op == "commit":
            sessions[:] = sessions[:k]
        elif op == "send":
            p, com = session(k)
            c = must("send_challenge", verifiers[v].send_challenge, (stmt.prehash_statement().digest(), com))
            state[v] = (com, int(c), p)
        elif state[v] is not None:
            com, c, p = state[v]
            if op == "answer":
                # by the prover of the current run or of another one
                who = p if a < 6 else session(k)[0]
                resp = who.respond(c)
                answers.append(resp)
            elif answers:
                resp = answers[a % len(answers)]
            else:
                continue
            want = ref.check(stmt, com, c, resp)
            got = accepted(verifiers[v].verify, resp)
            require(got == want, "verdict in a history: %s, equations: %s", got, want)
            labels.add("verdict:%s" % want)
            judged += 1
    if judged:
        labels.add("nontrivial")
    return labels


ec1 = st.sampled_from([[g] for g in gen.FAST])
pairs = st.sampled_from([["G1"], ["G1", "G2"], ["GT"], ["G1", "ec713"]])

PROP = Prop("C22", [
    Sub("transcript", transcript(), run_transcript, 2400, rule="simulated, disturbed and refitted transcripts"),
    Sub("transcript-ext", transcript(("dl", "dlne", "rng", "p2", "cust"), ec1, 2), run_transcript, 700, rule="with primitives"),
    Sub("transcript-pair", transcript(("dl", "bbs"), pairs, 1, 2), run_transcript, 110, rule="over pairing groups"),
    Sub("extraction", extraction(), run_extraction, 800, rule="several challenges for one commitment"),
    Sub("extraction-ext", extraction(("dl", "dlne", "rng", "p2"), ec1, 1), run_extraction, 260, rule="with primitives"),
    Sub("fresh", fresh(), run_fresh, 120, rule="64 challenges for one commitment"),
    Sub("history", history(), run_history, 1000, rule="two verifiers, several commitments, answers replayed"),
], rule="A case is a statement and transcripts for it, made for a challenge that is fixed in advance (the verifier's next draw), so "
   "that any combination of responses, subchallenges and commitments can be presented. The verdict is compared with the equations "
   "evaluated by the harness, in both directions. Non-trivial: at least one verdict was compared.",
   assumptions=["Challenges are drawn as random numbers below 2^128; otherwise the forced challenge is not used and transcripts only fail."])
