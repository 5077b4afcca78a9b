"""C11 Serialised proofs round-trip with the same verdict."""
from hypothesis import strategies as st
from petlib.bn import Bn
from zksk import DLRep, Secret
from zksk.base import NIZK
from zksk.composition import AndProofStmt, OrProofStmt
from zksk.expr import wsum_secrets

from zkv import core, gen, model, mutate, ref
from zkv.core import Prop, Sub, accepted, must, must_accept, require
from zkv.props import c04
from zkv.proto import copy_nizk, roundtrip, verify


def make(kinds, groups=None, depth=3, width=4):
    @st.composite
    def strat(draw):
        g = gen.G(draw, groups=draw(groups) if groups is not None else None, kinds=kinds,
                  depth=draw(st.integers(0, depth)), width=width)
        tree = g.tree()
        muts = [[g.pick(c04.KINDS), g.i(0, 40), g.i(0, 40), mutate.draw_delta(g), g.pick(mutate.POINTS), g.i(0, 11)]
                for _ in range(g.i(1, 3))]
        return g.case(tree, muts=muts, msg=gen.message(draw), msg2=gen.message(draw))
    return strat()


def same_content(a, b):
    return all(ref.plain(getattr(a, f)) == ref.plain(getattr(b, f))
               for f in ("challenge", "responses", "precommitment", "stmt_hash"))


def types(x):
    """Types of the values, containers compared by kind."""
    if isinstance(x, dict):
        return {k: types(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [types(v) for v in x]
    t = type(x).__name__
    # small numbers may be plain or big
    return "number" if t in ("Bn", "int") else t.replace("bytearray", "bytes")


def check_round(nizk, what):
    raw = must("serialising " + what, nizk.serialize)
    require(isinstance(raw, bytes), "serialised form is not a byte string")
    back = must("reading back " + what, NIZK.deserialize, raw)
    require(same_content(nizk, back), "%s changed by serialisation", what)
    for f in ("challenge", "responses", "precommitment", "stmt_hash"):
        require(types(getattr(nizk, f)) == types(getattr(back, f)), "types in %s changed by serialisation", f)
    for (p, v), (_, w) in zip(ref.flatten(nizk.responses), ref.flatten(back.responses)):
        require(isinstance(w, Bn) or not isinstance(v, Bn), "a response is no big number any more")
    require(must("serialising again", back.serialize) == raw, "serialising again gives other bytes")
    again = must("reading back twice", NIZK.deserialize, back.serialize())
    require(same_content(again, nizk), "%s changed by the second round", what)
    # the original is left alone
    require(nizk.serialize() == raw, "serialising twice differs")
    return back


def mutated(case, m, nizk, rstmt):
    kind, i, j, delta, how, k = m
    r = core.rng()
    if kind.startswith(("resp", "sub")) and kind != "sub+resp":
        a = c04.apply_response(m, rstmt, nizk.challenge, nizk.responses, r)
        return a and copy_nizk(nizk, responses=a)
    if kind == "challenge":
        return copy_nizk(nizk, challenge=model.bn(mutate.shift(nizk.challenge, delta, 7, r)))
    if kind == "pre-none":
        return copy_nizk(nizk, precommitment=None)
    if kind.startswith("pre"):
        leaves = [(p, v) for p, v in ref.flatten(nizk.precommitment) if v is not None]
        if not leaves:
            return copy_nizk(nizk, precommitment=[None] * (i % 3))
        p, v = leaves[i % len(leaves)]
        new = mutate.change_leaf(v, delta if not hasattr(v, "export") else how, 1 << 30, r)
        return None if new is None else copy_nizk(nizk, precommitment=ref.replace(nizk.precommitment, p, new))
    if kind == "hash":
        return copy_nizk(nizk, stmt_hash=[None, b"", nizk.stmt_hash[:-1], nizk.stmt_hash + b"\0"][k % 4])
    return None


def run(case):
    party = model.prover_party(case)
    nizk = must("proving", party.prove, None, case["msg"])
    back = check_round(nizk, "an honest proof")
    v = lambda: model.verifier_stmt(case)
    must_accept("deserialised proof", verify, v(), back, case["msg"])
    must_accept("original proof", verify, v(), nizk, case["msg"])
    labels = gen.describe(case) | {"nontrivial"}
    if nizk.precommitment is not None:
        labels.add("precommitment")
    if (case["msg2"] or "") != (case["msg"] or ""):
        require(accepted(verify, v(), nizk, case["msg2"]) == accepted(verify, v(), back, case["msg2"]),
                "verdicts differ under another message")
    rstmt = ref.constructed(v(), nizk.precommitment)
    for m in case["muts"]:
        bad = mutated(case, m, nizk, rstmt)
        if not bad:
            continue
        back = check_round(bad, "a changed proof")
        a, b = accepted(verify, v(), bad, case["msg"]), accepted(verify, v(), back, case["msg"])
        require(a == b, "verdict on a changed proof is %s, after serialisation %s", a, b)
        labels.add("mut:" + m[0])
    return labels


# ---------------------------------------------------------------- arbitrary content
def points():
    return st.tuples(st.just("pt"), st.sampled_from(model.EC + model.PAIR), st.sampled_from(
        [0, 1, 2, 3, "inf", "neg", "r"])).map(list)


numbers = st.one_of(st.integers(-(2 ** 600), 2 ** 600), st.sampled_from([0, 1, -1, 255, 256, -256, 2 ** 31 - 1, -2 ** 31,
                                                                      2 ** 63, 2 ** 64 - 1, 2 ** 256]))
leaf = st.one_of(numbers.map(lambda v: ["bn", v]), points(), st.just(["v", None]),
                 st.binary(max_size=20).map(lambda b: ["bytes", b.hex()]),
                 st.sampled_from(["", "x", "\u00e9"]).map(lambda v: ["v", v]),
                 st.sampled_from([0, 1, -5, True, False, 2 ** 40]).map(lambda v: ["v", v]))
content = st.recursive(leaf, lambda c: st.one_of(st.lists(c, max_size=4).map(lambda v: ["list", v]),
                                                 st.dictionaries(st.sampled_from(["A1", "Cs", "rand", "a", ""]), c,
                                                                 max_size=3).map(lambda v: ["dict", v])), max_leaves=10)


def thaw(x):
    k, v = x[0], x[1]
    if k == "bn":
        return model.bn(v)
    if k == "v":
        return v
    if k == "bytes":
        return bytes.fromhex(v)
    if k == "list":
        return [thaw(y) for y in v]
    if k == "dict":
        return {a: thaw(b) for a, b in v.items()}
    gid, how = x[1], x[2]
    side = model.SIDES["P"]
    if how == "inf":
        return side.group(gid).infinite()
    if how == "neg":
        return model.bn(model.order(gid) - 1) * side.group(gid).generator()
    if how == "r":
        return model.bn(core.rng().randrange(1, model.order(gid))) * side.group(gid).generator()
    return side.base(gid, how)


def run_any(case):
    nizk = NIZK(challenge=thaw(case["c"]), responses=thaw(case["r"]), precommitment=thaw(case["p"]),
                stmt_hash=thaw(case["h"]))
    check_round(nizk, "a proof object")
    for (_, v), (_, w) in zip(ref.flatten(thaw(case["p"])), ref.flatten(roundtrip(nizk).precommitment)):
        if hasattr(v, "export") and not case["p"][0] == "pt":
            require(type(v) is type(w), "point type changed")
    labels = {"nontrivial"}
    for _, v in ref.flatten([nizk.responses, nizk.precommitment]):
        labels.add("leaf:" + type(v).__name__)
    return labels


# ---------------------------------------------------------------- size
@st.composite
def big(draw):
    g = gen.G(draw, groups=["ec713"])
    return {"shape": g.pick(["and", "or", "terms", "mixed"]), "g": g.pick(gen.FAST),
            "n": 1 << g.i(1, 12), "more": g.i(0, 7), "sz": g.pick([0, 8, 64, 400]), "msg": g.pick([None, "a", "m" * 70000])}


def run_big(case):
    """Proofs from a few bytes to a few hundred thousand."""
    n = case["n"] + case["more"]
    shape = case["shape"]
    if shape != "terms":
        n = min(n, 700)
    bases = [model.SIDES["P"].base(case["g"], j) for j in range(3)]
    q = model.order(case["g"])
    r = core.rng()
    vals = [r.randrange(1 << case["sz"]) % q if case["sz"] else i % 2 for i in range(n)]

    def build(known):
        xs = [Secret(model.bn(v) if known else None) for v in vals]
        if shape == "terms":
            lhs = model.bn(sum(vals) % q) * bases[0]
            return DLRep(lhs, wsum_secrets(xs, [bases[0]] * n))
        subs = [DLRep(model.bn(v) * bases[i % 3], x * bases[i % 3]) for i, (x, v) in enumerate(zip(xs, vals))]
        if shape == "mixed":
            half = max(2, n // 2)
            return OrProofStmt(AndProofStmt(*subs[:half]), OrProofStmt(*subs[:2]))
        return (AndProofStmt if shape == "and" else OrProofStmt)(*subs)

    args = [] if case["msg"] is None else [case["msg"]]
    nizk = must("proving", build(True).prove, {}, *args)
    back = check_round(nizk, "an honest proof")
    must_accept("deserialised proof", build(False).verify, back, *args)
    leaves = [(p, v) for p, v in ref.flatten(nizk.responses)]
    p, v = leaves[r.randrange(len(leaves))]
    bad = copy_nizk(nizk, responses=ref.replace(nizk.responses, p, model.bn(int(v) ^ 1)))
    back = check_round(bad, "a changed proof")
    require(not accepted(build(False).verify, back, *args), "a changed proof is accepted when read back")
    size = len(nizk.serialize())
    return {"nontrivial", "shape:" + shape, "bytes:2^%d" % size.bit_length()}


ec1 = st.sampled_from([[g] for g in gen.FAST])
pairs = st.sampled_from([["G1"], ["G1", "G2"], ["G2"], ["GT"], ["G1", "G2", "GT"], ["G1", "ec713"]])

PROP = Prop("C11", [
    Sub("dl", make(("dl",)), run, 2200, rule="representation trees"),
    Sub("ext", make(("dl", "dlne", "rng", "p2", "cust"), ec1, 2, 3), run, 800, rule="with primitives"),
    Sub("pair", make(("dl", "bbs", "dlne"), pairs, 1, 3), run, 170, rule="over pairing groups"),
    Sub("size", big(), run_big, 100, rule="statements of up to four thousand terms or 700 clauses"),
    Sub("any", st.fixed_dictionaries({"c": numbers.map(lambda v: ["bn", v]), "r": content, "p": content, "h": leaf}),
        run_any, 1600, rule="proof objects with arbitrary numbers, points and containers"),
], rule="A case is a proof (honest and changed, or with arbitrary content). Non-trivial: it was serialised, read "
   "back, compared field by field, and both forms were judged by verifiers.")
