"""C02 A prover without a witness never convinces a verifier."""
from hypothesis import strategies as st

from zkv import gen, model, ref
from zkv.core import Prop, Sub, accepted, must, must_reject, require
from zkv.proto import Tampered, interactive, runner, verify
from zkv.props import c06


LIES = ["none", "none", "empty", "tuple", "string", "zero", "neutral", "drop", "cut", "all-none", "nan"]


def lie(commitment, lies):
    """What a dishonest prover sends in place of its commitments."""
    for how, i in lies:
        if how == "cut":
            commitment = commitment[:-1] if isinstance(commitment, list) else None
            continue
        if how == "all-none":
            commitment = [None] * len(commitment) if isinstance(commitment, list) else None
            continue
        leaves = list(ref.flatten(commitment))
        if not leaves:
            return commitment
        path, p = leaves[i % len(leaves)]
        if how == "drop":
            if path:
                up = commitment
                for k in path[:-1]:
                    up = up[k]
                commitment = ref.replace(commitment, path[:-1], list(up[:path[-1]]) + list(up[path[-1] + 1:]))
            continue
        new = {"none": None, "empty": [], "tuple": (p,), "string": "", "zero": 0, "nan": float("nan")}.get(how)
        if how == "neutral" and hasattr(p, "group"):
            new = p.group.infinite()
        commitment = ref.replace(commitment, path, new)
    return commitment


@st.composite
def broken(draw, kinds=("dl",), groups=None, depth=3, width=3):
    """A provable tree, then damage chosen so that nothing usable is true."""
    g = gen.G(draw, groups=draw(groups) if groups is not None else None, kinds=kinds,
              depth=draw(st.sampled_from(list(range(depth + 1)) + [depth])), width=width)
    tree = g.tree()
    wrong = {}
    ways = [0]

    def damage(n):
        k = n["k"]
        if not model.usable(n, set(g.unk)):
            return
        if k == "or":
            for c in n["c"]:
                damage(c)
        elif k == "and":
            # damage a non-empty set of conjuncts
            first = g.i(0, len(n["c"]) - 1)
            for j, c in enumerate(n["c"]):
                if j == first or g.one_in(4):
                    damage(c)
        else:
            names = model.bbs_msgs(n) if k == "bbs" else model.all_secrets(n)
            if k in ("dl", "dlne", "bbs") and g.i(0, 2) == 0:
                ways[0] += 1
                g.falsify(n)
            elif k in ("rng", "p2") and g.b():
                ways[0] += 1
                g.falsify(n)
            else:
                s = g.pick(names)
                q = model.cls_order(g.cls[s])
                delta = g.pick([1, -1, q // 2, g.i(1, q - 1)])
                wrong[s] = wrong.get(s, g.v[s]) + delta
    damage(tree)
    return g.case(tree, wrong=wrong, msg=gen.message(draw),
                  mode=draw(st.sampled_from(["nizk", "int", "cross", "crossint", "runner", "liar"])),
                  liar=[[g.pick(LIES), g.i(0, 30)] for _ in range(g.i(1, 3))])


def run(case):
    unk = set(case["unk"])
    values = dict(case["v"])
    values.update({s: v for s, v in case["wrong"].items() if s in values})
    if model.provable(case["tree"], case["v"], values, unk) != "no":
        return {"still-provable"}
    party = model.prover_party(case, values=values)
    mode, msg = case["mode"], case["msg"]
    labels = gen.describe(case) | {"mode:" + mode}
    vstmt = model.verifier_stmt(case)
    try:
        stmt = party.build()
        if mode == "nizk":
            nizk = party.prove(stmt, msg)
        else:
            prover = party.get_prover(stmt)
            if prover is None:
                return labels | {"refused", "nontrivial"}
            if mode in ("int", "runner", "liar"):
                if mode == "liar":
                    must_reject("interactive run without a witness and with altered commitments", interactive,
                                Tampered(prover, lambda c: lie(c, case["liar"])), vstmt.get_verifier())
                elif mode == "int":
                    must_reject("interactive run without a witness", interactive, prover,
                                vstmt.get_verifier())
                else:
                    must_reject("run by the protocol runner without a witness", runner, vstmt.get_verifier(), prover)
                return labels | {"nontrivial", "rejected"}
            if mode == "cross":
                nizk = ref.cross_nizk(prover, vstmt, msg)
            else:
                must_reject("interactive run without a witness, digest replaced",
                            ref.cross_interactive, prover, vstmt.get_verifier())
                return labels | {"nontrivial", "rejected"}
    except Exception as e:
        if type(e).__name__ == "Violation":
            raise
        return labels | {"refused", "nontrivial"}
    must_reject("proof without a witness", verify, vstmt, nizk, msg)
    must_reject("proof without a witness, on the prover's statement", verify, stmt, nizk, msg)
    return labels | {"nontrivial", "rejected"}


ec1 = st.sampled_from([[g] for g in gen.FAST])
pairs = st.sampled_from([["G1"], ["G1", "G2"], ["GT"], ["G2"]])

PROP = Prop("C02", [
    Sub("dl", broken(), run, 4500, rule="representation trees"),
    Sub("ext", broken(("dl", "dlne", "rng", "p2"), ec1, 2), run, 1600, rule="with primitives"),
    Sub("pair", broken(("dl", "bbs", "dlne", "rng"), pairs, 1), run, 240, rule="over pairing groups"),
    Sub("shared", c06.make(("dl",), width=3), c06.run, 600,
        rule="every component is true by itself, but not for one value of the secret that they share"),
    Sub("shared-ext", c06.make(("dl", "dlne", "rng"), ec1, width=3), c06.run, 200, rule="same, with primitives"),
], rule="A case is a provable tree damaged so that no usable clause is satisfied by the prover's values "
   "(wrong secret values, public values shifted off, signatures, ranges or inequalities that are "
   "false). Non-trivial: the integer model says that nothing usable is true, and the run reached a "
   "refusal or a verdict.")
