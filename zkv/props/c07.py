"""C07 A disjunction's proof does not reveal which clause is true."""
import msgpack
from hypothesis import strategies as st
from petlib.bn import Bn
from petlib.pack import decode

from zkv import core, gen, model, ref
from zkv.core import Prop, Sub, must, must_accept, require
from zkv.proto import verify


def make(kinds, groups=None, depth=2, width=3):
    @st.composite
    def strat(draw):
        g = gen.G(draw, groups=draw(groups) if groups is not None else None, kinds=kinds,
                  depth=draw(st.integers(1, depth)), width=width, marks=False, unknown=False)
        tree = g.tree(kind="or")
        path = []
        for _ in range(g.pick([0, 0, 0, 1])):
            sib = g.leaf([])
            i = g.i(0, 1)
            tree = {"k": "and", "op": g.i(0, 1), "c": [tree, sib] if i else [sib, tree]}
            path = [0 if i else 1] + path
        for n in model.walk(tree):
            if "op" in n:
                n["op"] = 0
        return g.case(tree, path=path, way=[g.pick(["pre", "post", "unk"]) for _ in range(8)],
                      msg=gen.message(draw))
    return strat()


def live(case, i):
    """The case with every clause but one made unusable."""
    c = gen.clone(case)
    node = c["tree"]
    for p in case["path"]:
        node = node["c"][p]
    keep = set(model.all_secrets(node["c"][i]))
    for j, n in enumerate(node["c"]):
        if j == i:
            continue
        way = case["way"][j % 8]
        own = [s for s in model.all_secrets(n) if s not in keep]
        if way == "unk" and own and all(m["k"] in ("dl", "dlne", "rng", "p2") for m in model.leaves(n)) \
                and all(any(s not in keep for s in model.all_secrets(m)) for m in model.leaves(n)):
            c["unk"] = sorted(set(c["unk"]) | set(own))
        else:
            n["mark"] = "post" if way == "post" else "pre"
    return c


def pattern(values):
    ids = {}
    return [ids.setdefault(v, len(ids)) for v in values]


def points_info(x):
    """Positions that are neutral elements, and equality pattern of the points and numbers."""
    out, keys = [], []
    for p, v in ref.flatten(x):
        if hasattr(v, "export"):
            out.append((p, v == v.group.infinite()))
            keys.append((type(v).__name__, bytes(v.export())))
        elif isinstance(v, Bn):
            keys.append(("Bn", int(v)))
        else:
            keys.append(repr(v))
    return out, pattern(keys)


def form(nizk, rstmt):
    info = list(ref.response_info(rstmt, nizk.challenge, nizk.responses))
    for kind, p, q, v in info:
        if kind == "sub":
            require(0 <= v < ref.CH, "subchallenge out of its range: %s", v)
        else:
            require(0 <= v < q, "response not reduced: %s", v)
    require(0 <= int(nizk.challenge) < 1 << 256, "challenge out of range")
    top = max(q for k, _, q, _ in info if k != "sub")
    for p, v in ref.flatten(nizk.precommitment):
        require(not isinstance(v, Bn) or 0 <= int(v) < top, "number of the precommitment not reduced: %s", v)
    wire = [ref.shape(decode(x)) for x in msgpack.unpackb(nizk.serialize())]
    commitment = ref.recompute(rstmt, nizk.challenge, nizk.responses)
    return {
        "responses": ref.shape(nizk.responses),
        "precommitment": ref.shape(nizk.precommitment),
        "precommitment keys": [list(d) for d in dicts(nizk.precommitment)],
        "precommitment values": points_info(nizk.precommitment),
        "challenge": type(nizk.challenge).__name__,
        "digest size": len(nizk.stmt_hash),
        "positions": [(k, p, q) for k, p, q, _ in info],
        "repeated responses": pattern([(k, v) for k, _, _, v in info]),
        "commitments": points_info(commitment),
        "wire form": wire,
        "attributes": sorted(vars(nizk)),
    }


def dicts(x):
    if isinstance(x, dict):
        yield x
        for v in x.values():
            yield from dicts(v)
    elif isinstance(x, (list, tuple)):
        for v in x:
            yield from dicts(v)


def run(case):
    node = case["tree"]
    for p in case["path"]:
        node = node["c"][p]
    forms = []
    labels = gen.describe(case)
    for i in range(len(node["c"])):
        c = live(case, i)
        party = model.prover_party(c)
        nizk = must("proving clause %d" % i, party.prove, None, case["msg"])
        must_accept("honest proof", verify, model.verifier_stmt(case), nizk, case["msg"])
        rstmt = ref.constructed(model.verifier_stmt(case), nizk.precommitment)
        forms.append(form(nizk, rstmt))
        prover = party.get_prover(party.build())
        pre = prover.precommit()
        com = prover.commit()
        resp = prover.compute_response(model.bn(core.rng().randrange(ref.CH)))
        forms[-1]["interactive"] = [ref.shape(pre), ref.shape(com), ref.shape(resp)]
        require(len(com[0]) == 32, "digest")
        forms[-1]["interactive values"] = [points_info(pre)[1], points_info(com[1])]
    for i, f in enumerate(forms[1:], 1):
        for k in f:
            require(f[k] == forms[0][k], "%s differ between a proof of clause 0 and of clause %d: %r / %r",
                    k, i, forms[0][k], f[k])
    return labels | {"nontrivial", "clauses:%d" % len(forms)}


# ---------------------------------------------------------------- distribution
@st.composite
def stat(draw):
    g = gen.G(draw, groups=[draw(st.sampled_from(["ec713", "ec415"]))], depth=1, width=3, marks=False,
              unknown=False, kinds=("dl",))
    tree = g.tree(kind="or")
    if g.one_in(3):
        tree["c"][g.i(0, len(tree["c"]) - 1)] = {"k": g.pick(["or", "and"]), "op": 0, "c": [g.leaf([]), g.leaf([])]}
    for n in model.walk(tree):
        if "op" in n:
            n["op"] = 0
    return g.case(tree, path=[], way=[g.pick(["pre", "post", "unk"]) for _ in range(8)], msg=None)


N = 220


def run_stat(case):
    """Each number of the proof is spread evenly, whichever clause is the real one."""
    n = len(case["tree"]["c"])
    for i in range(n):
        c = live(case, i)
        party = model.prover_party(c)
        stmt = party.build()
        rstmt = model.verifier_stmt(case)
        bits, seen, qs = {}, {}, {}
        for _ in range(N):
            nizk = party.prove(stmt)
            for k, p, q, v in ref.response_info(rstmt, nizk.challenge, nizk.responses):
                key = (k, p)
                seen.setdefault(key, set()).add(v)
                qs.setdefault(key, []).append(v * 8 // q if 0 <= v < q else 99)
                b = bits.setdefault(key, [0] * 128)
                for j in range(128):
                    b[j] += (v >> j) & 1
        for key, b in bits.items():
            require(len(seen[key]) == N, "%s repeats its values when clause %d is real", key, i)
            for j, x in enumerate(b):
                # 8 standard deviations
                require(abs(x - N / 2) < 4 * N ** 0.5, "bit %d of %s is biased when clause %d is real: %d of %d",
                        j, key, i, x, N)
            for octant in range(8):
                x = qs[key].count(octant)
                # expected N/8 = 27; the chance of 0 or of more than 72 is below 1e-12
                require(0 < x < 75, "%s avoids part of its range when clause %d is real: octant %d has %d of %d",
                        key, i, octant, x, N)
            require(99 not in qs[key], "%s leaves its range when clause %d is real", key, i)
    return gen.describe(case) | {"nontrivial"}


ec1 = st.sampled_from([[g] for g in gen.FAST])
pairs = st.sampled_from([["G1"], ["G1", "G2"], ["GT"], ["G1", "ec713"]])

PROP = Prop("C07", [
    Sub("dl", make(("dl",)), run, 1200, rule="disjunctions of representation trees"),
    Sub("ext", make(("dl", "dlne", "rng", "p2", "cust"), ec1), run, 500, rule="with primitives"),
    Sub("pair", make(("dl", "bbs", "dlne"), pairs, 1, 3), run, 90, rule="over pairing groups"),
    Sub("stat", stat(), run_stat, 56, rule="%d proofs of each clause, bit by bit and by octant" % N),
], rule="A case is a disjunction all of whose clauses are true; one proof is made through each clause with the "
   "others marked or without values, and form, positions, ranges, equalities and neutral elements are "
   "compared; in the last check the numbers of many proofs are tested for even spread. Non-trivial: a proof "
   "through every clause was obtained and accepted.")
