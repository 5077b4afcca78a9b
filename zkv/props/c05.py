"""C05 A disjunction cannot be proved without proving one disjunct."""
from hypothesis import strategies as st

from zksk.base import NIZK

from zkv import core, gen, model, ref
from zkv.core import Prop, Sub, must_reject, accepted
from zkv.model import bn
from zkv.proto import verify

CH = ref.CH
DRAWS = ["random", "random", "zero", "one", "equal", "max", "small"]
FIXES = ["none", "surplus", "surplus-front", "surplus+resp", "surplus-pair", "shift+", "shift-", "shift-all",
         "shift-neg", "replace", "replace-first", "missing", "missing-both", "single", "empty", "negate",
         "big-replace", "none-resp", "nonint", "tuple-swap", "mod-c", "surplus-zero", "repeat"]


class Attack:
    def __init__(self, draw, fix, index):
        self.how, self.fixname, self.index = draw, fix, index

    def draw(self, r, n):
        how = self.how
        if how == "zero":
            return [0] * n
        if how == "one":
            return [1] * n
        if how == "equal":
            x = r.randrange(CH)
            return [x] * n
        if how == "max":
            return [CH - 1] * n
        if how == "small":
            return [r.randrange(256) for _ in range(n)]
        return [r.randrange(CH) for _ in range(n)]

    def fix(self, r, c, stmt, chs, resps):
        n = len(chs)
        i = self.index % n
        d = (int(c) - sum(chs)) % CH
        k = self.fixname

        def order(j):
            s = ref.inner(stmt.subproofs[j])
            while ref.kind(s) != "dl":
                s = ref.inner(s.subproofs[0])
            return int(s.bases[0].group.order())

        q = order(i)
        mult = (d * pow(q, -1, CH)) % CH
        if k == "surplus":
            chs.append(d)
        elif k == "surplus-front":
            chs.insert(0, d)
        elif k == "surplus+resp":
            chs.append(d)
            resps.append(resps[i])
        elif k == "surplus-pair":
            x = r.randrange(CH)
            chs += [x, (d - x) % CH]
        elif k == "surplus-zero":
            chs += [0, d, 0]
        elif k == "shift+":
            chs[i] += mult * q
        elif k == "shift-":
            chs[i] -= (-d * pow(q, -1, CH)) % CH * q
        elif k == "shift-neg":
            chs[i] += (mult - CH) * q
        elif k == "shift-all":
            rest = d
            for j in range(n - 1):
                m = r.randrange(CH)
                chs[j] += m * order(j)
                rest -= m * order(j)
            q = order(n - 1)
            chs[n - 1] += (rest * pow(q, -1, CH)) % CH * q
        elif k == "replace":
            chs[i] = (chs[i] + d) % CH
        elif k == "replace-first":
            chs[0] = (chs[0] + d) % CH
        elif k == "big-replace":
            chs[i] = int(c) - (sum(chs) - chs[i])
        elif k == "missing":
            del chs[i]
        elif k == "missing-both":
            del chs[i], resps[i]
        elif k == "single":
            chs, resps = [int(c)], resps[:1]
        elif k == "empty":
            chs, resps = [], []
        elif k == "negate":
            chs = [-x for x in chs]
        elif k == "none-resp":
            resps[i] = None
            chs[i] = (chs[i] + d) % CH
        elif k == "nonint":
            return ([float(x) for x in chs], resps)
        elif k == "tuple-swap":
            return (resps, [bn(x) for x in chs])
        elif k == "mod-c":
            chs[i] = int(c)
        elif k == "repeat":
            chs = chs + chs
            resps = resps + resps
        return ([bn(x) for x in chs], resps)


@st.composite
def strat(draw, kinds=("dl",), groups=None, depth=3, width=4, need_or=True):
    g = gen.G(draw, groups=draw(groups) if groups is not None else None, kinds=kinds,
              depth=draw(st.integers(1, depth)) if need_or else 0, width=width, marks=False,
              unknown=False)
    tree = g.tree(kind="or" if need_or and g.i(0, 2) else None)
    attacks = [[g.pick(DRAWS), g.pick(FIXES), g.i(0, 5), g.i(0, 20), g.pick(["nizk", "int"]), g.i(0, 1)]
               for _ in range(g.i(1, 4))]
    return g.case(tree, msg=gen.message(draw), attacks=attacks)


def one(case, attack, labels):
    draw, fix, index, which, mode, every = attack
    r = core.rng()
    party = model.Party(case, "V", False)
    stmt = party.build()
    stmt.prepare_simulate_proof()
    pre = ref.precommitment_of(stmt)
    verifier_stmt = model.verifier_stmt(case)
    ref.constructed(stmt, pre)
    ors = list(ref.disjunctions(stmt))
    if not ors:
        return False
    path, _ = ors[which % len(ors)]
    witness = {party.secrets[s].name: v for s, v in case["v"].items()}
    dead = {path: Attack(draw, fix, index)}
    # Secrets inside primitives have no known values: what depends on them is simulated as well.
    probe = ref.RefProver(stmt, witness, r)
    live = ref.towards(stmt, path)
    for p, _ in ors:
        if p not in live and (every or not probe._provable(ref.at(stmt, p))):
            dead.setdefault(p, Attack(draw, fix, index))
    prover = ref.RefProver(stmt, witness, r, live=live, dead=dead)
    try:
        com = prover.commit()
    except ref.Unknown:
        return False
    labels |= {"fix:" + fix, "draw:" + draw, "attack-depth:%d" % len(path), "mode:" + mode}
    if mode == "nizk":
        c, digest = ref.fs(stmt, pre, com, case["msg"])
        resp = prover.respond(c)
        if legit(fix, stmt, com, c, resp):
            return False
        nizk = NIZK(challenge=c, responses=resp, precommitment=pre, stmt_hash=digest)
        must_reject("disjunction with every clause simulated (%s)" % fix, verify, verifier_stmt, nizk,
                    case["msg"])
        return True
    v = verifier_stmt.get_verifier()
    v.process_precommitment(pre)
    try:
        c = v.send_challenge((verifier_stmt.prehash_statement().digest(), com))
    except Exception:
        return True
    resp = prover.respond(c)
    if legit(fix, stmt, com, c, resp):
        return False
    must_reject("interactive disjunction with every clause simulated (%s)" % fix, v.verify, resp)
    return True


def legit(fix, stmt, com, c, resp):
    """Neutral public values make the challenge of a clause irrelevant; then anything in range goes."""
    return ref.check(stmt, com, c, resp)


def run(case):
    labels = gen.describe(case)
    n = sum([one(case, a, labels) for a in case["attacks"]])
    if n:
        labels.add("nontrivial")
    return labels


@st.composite
def grind(draw):
    g = gen.G(draw, groups=[draw(st.sampled_from(["ec713", "ec415"]))], depth=1, width=3, marks=False,
              unknown=False)
    tree = g.tree(kind="or")
    for n in model.leaves(tree):
        if g.b():
            n["off"] = g.i(1, 9)
    if g.one_in(3):
        tree = {"k": "and", "op": 0, "c": [tree, g.leaf([])]}
    return g.case(tree, part=g.pick(["low8", "top8", "low16m", "mod7", "mod255", "top8of256", "byte8"]),
                  draw=g.pick(["random", "zero", "one", "small", "equal"]))


def run_grind(case):
    """Search messages until some part of the challenge fits."""
    r = core.rng()
    party = model.Party(case, "V", False)
    stmt = party.build()
    path = () if case["tree"]["k"] == "or" else (0,)
    witness = {party.secrets[s].name: v for s, v in case["v"].items()}
    prover = ref.RefProver(stmt, witness, r, dead={path: Attack(case["draw"], "none", 0)})
    com = prover.commit()
    chs = ref.get(prover.plan, (3,) if path == () else (1, 0, 3))
    S = sum(chs) % CH
    part = case["part"]
    key = {"low8": lambda x: x % 256, "low16m": lambda x: x % 256, "top8": lambda x: (x % CH) >> 120,
           "mod7": lambda x: x % 7, "mod255": lambda x: x % 255, "top8of256": lambda x: x >> 248,
           "byte8": lambda x: (x >> 64) % 256}[part]
    vstmt = model.verifier_stmt(case)
    tries = 0
    for tries in range(700):
        msg = "m%d" % tries
        c, digest = ref.fs(stmt, None, com, msg)
        if key(int(c)) == key(S):
            break
    else:
        return {"no-match"}
    resp = prover.respond(c)
    if ref.check(stmt, com, c, resp):
        return {"neutral"}
    must_reject("disjunction whose subchallenges fit the challenge only in part (%s)" % part, verify, vstmt,
                NIZK(challenge=c, responses=resp, precommitment=None, stmt_hash=digest), msg)
    return gen.describe(case) | {"part:" + part, "nontrivial"}


ec1 = st.sampled_from([[g] for g in gen.FAST])
pairs = st.sampled_from([["G1"], ["G1", "G2"], ["GT"], ["G1", "ec713"]])

PROP = Prop("C05", [
    Sub("dl", strat(), run, 2600, rule="representation trees"),
    Sub("ext", strat(("dl", "dlne", "rng", "p2", "cust"), ec1, 2, 3), run, 600, rule="with primitives"),
    Sub("bits", strat(("rng", "p2"), ec1, need_or=False), run, 500,
        rule="the bit disjunctions inside range proofs, all simulated"),
    Sub("pair", strat(("dl", "bbs"), pairs, 1, 3), run, 120, rule="over pairing groups"),
    Sub("grind", grind(), run_grind, 160, rule="messages searched until part of the challenge fits"),
], rule="A case is a statement with a disjunction at some depth (also the disjunctions inside range proofs) "
   "and attacks: all its clauses are simulated by the reference prover, the rest is proved honestly, and "
   "after the challenge is known the subchallenges are patched in one of the listed ways. Non-trivial: the "
   "attack produced a transcript, the reference equations call it invalid, and the library judged it.")
