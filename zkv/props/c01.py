"""C01 True statements always prove and verify."""
from hypothesis import strategies as st

from zkv import gen, model
from zkv.core import Prop, Sub, must, must_accept, require
from zkv.proto import interactive, over_wire, roundtrip, runner, verify


def has_ext(tree):
    return any(n["k"] in ("dlne", "rng", "p2", "bbs", "cust") for n in model.walk(tree))


def make(kinds, groups=None, depth=3, width=4, **kw):
    @st.composite
    def strat(draw):
        g = gen.G(draw, groups=draw(groups) if groups is not None else None, kinds=kinds,
                  depth=draw(st.sampled_from(list(range(depth + 1)) + [depth] * 2)), width=width, **kw)
        tree = g.tree()
        return g.case(tree, msg=gen.message(draw), mode=draw(st.sampled_from(["nizk", "ser", "int", "int0", "same", "runner", "wire", "again"])),
                      palias=int(g.one_in(5)),
                      stale=g.pick([0, 0, 0, 1, -1, 1 << 70]))
    return strat()


def run(case):
    require_ok(case)
    party = model.prover_party(case)
    stmt = must("building the prover's statement", party.build)
    vstmt = must("building the verifier's statement", model.verifier_stmt, case)
    mode, msg = case["mode"], case["msg"]
    labels = gen.describe(case) | {"mode:" + mode}
    if mode in ("nizk", "ser", "same", "again"):
        nizk = must("proving a true statement", party.prove, stmt, msg)
        if mode == "ser":
            nizk = must("serialisation", roundtrip, nizk)
        must_accept("honest proof", verify, vstmt, nizk, msg)
        if mode == "same":
            must_accept("honest proof on the prover's own statement", verify, stmt, nizk, msg)
        if mode == "again":
            # the verifier's statement receives proofs of several provers
            other = model.prover_party(case)
            nizk = must("proving a true statement", other.prove, None, msg)
            must_accept("another proof on the same verifier's statement", verify, vstmt, nizk, msg)
            must_accept("interactive run on the same verifier's statement", interactive,
                        must("get_prover", other.get_prover, other.build()), vstmt.get_verifier())
    else:
        prover = must("get_prover", party.get_prover, stmt)
        require(prover is not None, "no prover for a provable statement")
        verifier = must("get_verifier", vstmt.get_verifier)
        if mode == "runner":
            must_accept("honest run by the protocol runner", runner, verifier, prover)
            return labels | {"nontrivial"}
        if mode == "wire":
            must_accept("honest interactive run with packed messages", over_wire, prover, verifier)
            return labels | {"nontrivial"}
        # without precommitments the documented flow starts with the commitment
        must_accept("honest interactive run", interactive, prover, verifier,
                    mode == "int" or has_ext(case["tree"]))
    return labels | {"nontrivial"}


def require_ok(case):
    p = model.provable(case["tree"], case["v"], case["v"], set(case["unk"]))
    if p != "yes":
        raise RuntimeError("generator produced a case that is not provable: " + p)


ec1 = st.sampled_from([[g] for g in gen.FAST + ["ec713", "ec415"]])
pairs = st.sampled_from([["G1"], ["G2"], ["G1", "G2"], ["G1", "G2", "GT"], ["GT"], ["G1", "ec713"]])

PROP = Prop(
    "C01",
    [
        Sub("dl", make(("dl",)), run, 4000, rule="trees of representations over all groups"),
        Sub("flat", make(("dl",), depth=1, width=8), run, 1600, rule="wide one-level compositions"),
        Sub("ext", make(("dl", "dlne", "rng", "p2"), ec1), run, 1600,
            rule="trees with inequality and range primitives"),
        Sub("pair", make(("dl", "dlne", "rng", "bbs"), pairs, depth=2, width=3), run, 240,
            rule="trees over pairing groups with signature proofs"),
    ],
    rule="A case is a statement tree with secret values, clause marks, unknown secrets, value styles, "
    "a message and a proof mode; prover and verifier are built separately from it. Every case whose "
    "honest run was carried to a verdict is non-trivial (all are provable by construction).",
)
