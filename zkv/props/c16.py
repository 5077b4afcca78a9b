"""C16 Inequality proofs verify exactly when the logarithms differ."""
from hypothesis import strategies as st

from zkv import core, gen, model, mutate, ref, wrap
from zkv.core import Prop, Sub, accepted, must, must_accept, must_reject, require
from zkv.proto import interactive, roundtrip, verify


def dlne_case(draw, groups):
    """A wrapped inequality: H0 = x0*b0, H1 = y*b1 (+ z*b2); ``give`` is the prover's value of the secret."""
    gid = draw(groups)
    g = gen.G(draw, groups=[gid], kinds=("dl",))
    q = model.order(gid)
    x0 = g.new_secret(model.cls(gid))
    v = g.v[x0]
    y = g.pick([v, v + 1, v - 1, -v, 2 * v, v + q, 0, g.i(0, q - 1), v + (1 << 128), v + q // 2])
    b0, b1 = g.i(0, 3), g.i(0, 3)
    h1 = [[y, b1]]
    if g.one_in(4):
        b2 = g.i(0, 3)
        h1.append([g.pick([0, 1, v, q, g.i(1, q - 1)]), b2])
    node = {"k": "dlne", "g": gid, "x": x0, "b": [b0, b1], "d": 0, "off": 0, "bind": g.i(0, 1),
            "pub": {"h0": [[v, b0]], "h1": h1}}
    if gid in model.PAIR and g.b():
        node["hg"] = g.pick([p for p in model.PAIR if p != gid])
    return g, node, x0, v, q


def truth(groups):
    @st.composite
    def strat(draw):
        g, node, x, v, q = dlne_case(draw, groups)
        tree, path = wrap.wrap(g, node)
        give = g.pick([v, v, v, v + q, v - q, v + 1, -v, 0, 1, g.i(0, q - 1)])
        share = None
        if g.one_in(3):
            # another representation of the same secret, true for the prover's value
            share = {"k": "dl", "g": node["g"], "t": [[x, g.i(0, 4)]], "off": 0, "w": 0}
            share["pub"] = {"lhs": [[give, share["t"][0][1]]]}
            two = {"k": "and", "op": 0, "c": [node, share] if g.b() else [share, node]}
            tree = two
        return g.case(tree, give=give, x=x, shared=int(bool(share)), msg=gen.message(draw),
                      mode=g.pick(["nizk", "nizk", "int", "cross"]))
    return strat()


def run_truth(case):
    values = dict(case["v"])
    values[case["x"]] = case["give"]
    can = model.provable(case["tree"], case["v"], values)
    labels = gen.describe(case) | {"mode:" + case["mode"], "true" if can == "yes" else "false"}
    if case["shared"]:
        labels.add("shared")
    party = model.prover_party(case, values=values)
    vstmt = model.verifier_stmt(case)
    msg, mode = case["msg"], case["mode"]
    if can == "yes":
        if mode == "int":
            must_accept("true inequality, interactive", interactive, must("get_prover", party.get_prover, party.build()),
                        vstmt.get_verifier())
        else:
            nizk = must("proving a true inequality", party.prove, None, msg)
            must_accept("true inequality", verify, vstmt, nizk, msg)
            must_accept("true inequality after serialisation", verify, vstmt, roundtrip(nizk), msg)
        return labels | {"nontrivial"}
    require(can == "no", "unexpected model verdict")
    try:
        if mode == "nizk":
            nizk = party.prove(None, msg)
        elif mode == "cross":
            nizk = ref.cross_nizk(party.get_prover(party.build()), vstmt, msg)
        else:
            must_reject("false inequality, interactive", ref.cross_interactive,
                        party.get_prover(party.build()), vstmt.get_verifier())
            return labels | {"nontrivial"}
    except core.Violation:
        raise
    except Exception:
        return labels | {"nontrivial", "refused"}
    must_reject("false inequality", verify, vstmt, nizk, msg)
    return labels | {"nontrivial"}


# ---------------------------------------------------------------- adversaries
def adversary(groups, how=None):
    @st.composite
    def strat(draw):
        g, node, x, v, q = dlne_case(draw, groups)
        tree, path = wrap.wrap(g, node)
        return g.case(tree, path=path, x=x, blind=g.pick([1, 2, -1, g.i(1, q - 1)]),
                      how=g.pick(["honest", "neutral", "neutral", "neutral-zero", "altered", "random", "wrong-x",
                                  "half", "free", "free"] if how is None else how),
                      wx=v + g.pick([1, -1, g.i(1, q - 1)]), move=g.pick(mutate.POINTS), msg=gen.message(draw),
                      mode=g.pick(["nizk", "int", "ser"]))
    return strat()


FIELD = 0x2523648240000001BA344D80000000086121000000000013A700000000000013    # below BilinearGroupPair


def torsion(gid, r):
    """A point other than the neutral one whose order divides the cofactor of the curve."""
    group = model.SIDES["P"].group(gid)
    if gid == "GT":
        # minus one, in the field around the group
        one = bytes(group.infinite().export())
        i = one.index(b"\x01") - 31
        elem = type(group.infinite().pt).from_bytes(one[:i] + (FIELD - 1).to_bytes(32, "big") + one[i + 32:],
                                                    group.infinite().pt.group)
        return type(group.infinite())(elem, group.infinite().bp)
    while True:
        p = group.hash_to_point(r.randbytes(16))
        p = group.order() * p
        if p != group.infinite():
            return p


def run_adversary(case):
    r = core.rng()
    path, how = case["path"], case["how"]
    node = case["tree"]
    for i in path:
        node = node["c"][i]
    gid = model.hgroup(node)
    if how.startswith("torsion") and gid in ("G1", "G2"):
        return {"no-torsion"}
    q = model.order(gid)
    side = model.SIDES["P"]
    x, b = case["v"][case["x"]], case["blind"]
    b0, b1 = node["b"]
    h1 = [tuple(t) for t in node["pub"]["h1"]]
    claimed = case["wx"] if how == "wrong-x" else x

    def diff(value, blind):
        return side.lincomb(gid, [(blind * value, b1)] + [(-blind * a, c) for a, c in h1])

    alpha, beta = b * claimed, -b
    D = diff(claimed, b)
    if how in ("neutral", "neutral-zero"):
        D = side.group(gid).infinite()
        if how == "neutral-zero":
            alpha = beta = 0
    elif how == "torsion":
        # a point of small order, which an even (or fitting) challenge cancels
        D = torsion(gid, r)
    elif how == "torsion-shift":
        D = D + torsion(gid, r)
    elif how == "altered":
        D = mutate.move_point(D, case["move"], r)
    elif how == "random":
        D = side.lincomb(gid, [(r.randrange(1, q), b1)])
    elif how == "half":
        beta = 0
    elif how == "free":
        # fits the representation of the difference alone
        alpha, beta = r.randrange(1, q), r.randrange(1, q)
        D = side.lincomb(gid, [(alpha, b1)] + [(beta * a, c) for a, c in h1])
    party = model.Party(case, "P", False)
    stmt = party.build()
    pre = wrap.place(stmt, path, D)
    ref.constructed(stmt, pre)
    inner = ref.at(stmt, path)
    names = [s.name for s in inner.subproofs[0].secret_vars]
    witness = {s.name: case["v"][n] for n, s in party.secrets.items()}
    witness.update(zip(names, (alpha, beta)))
    if how == "wrong-x":
        witness[party.secrets[case["x"]].name] = claimed
    prover = ref.RefProver(stmt, witness, r, live=ref.towards(stmt, tuple(path)))
    verdict, holds = wrap.attempt(stmt, prover, pre, case["mode"], case["msg"], model.verifier_stmt(case))
    labels = gen.describe(case) | {"how:" + how, "mode:" + case["mode"]}
    neutral = D == side.group(gid).infinite()
    if how.startswith("torsion"):
        # in the group itself the difference is neutral exactly when the logarithms are equal
        if how == "torsion" or diff(x, 1) == side.group(gid).infinite():
            must_reject("an inequality with a point of small order as its difference", verdict)
            return labels | {"nontrivial", "reject"}
        return labels
    if holds:
        labels.add("equations-hold")
    if holds and not neutral:
        # the equations and the validation are all there is
        must_accept("transcript that satisfies everything", verdict)
        equal = diff(x, 1) == side.group(gid).infinite()
        require(not equal, "the equations hold although the logarithms are equal")
        return labels | {"nontrivial", "accept"}
    must_reject("%s inequality transcript%s" % (how, " with the neutral element" if neutral else ""), verdict)
    if how == "honest" and not neutral:
        labels.add("control-failed")
    return labels | {"nontrivial", "reject"}


# ---------------------------------------------------------------- binding
def binding(groups):
    @st.composite
    def strat(draw):
        g, node, x, v, q = dlne_case(draw, groups)
        base = g.i(0, 4)
        other = g.new_secret(model.cls(node["g"]), v + g.pick([0, 1, -1, q, g.i(1, q - 1)]))
        dl = {"k": "dl", "g": node["g"], "t": [[other, base]], "off": 0, "w": 0}
        order = g.i(0, 1)
        tree = {"k": "and", "op": 0, "c": [node, dl] if order else [dl, node]}
        return g.case(tree, x=x, other=other, msg=gen.message(draw), mode=g.pick(["nizk", "int"]),
                      more=g.i(0, 1))
    return strat()


def run_binding(case):
    if model.provable(case["tree"], case["v"], case["v"]) != "yes":
        return {"false"}
    joint = gen.clone(case)
    for n in model.leaves(joint["tree"]):
        model.freeze(n, case["v"]) if "pub" not in n else None
        gen.rename(n, case["other"], case["x"])
    node = [n for n in model.leaves(case["tree"]) if n["k"] == "dlne"][0]
    q = model.order(node["g"])
    same = (case["v"][case["x"]] - case["v"][case["other"]]) % q == 0
    party = model.prover_party(case)
    v = model.verifier_stmt(joint)
    labels = {"bind:%d" % node["bind"], "values:" + ("same" if same else "different"), "nontrivial"}
    if case["mode"] == "nizk":
        verdict = lambda n=ref.cross_nizk(party.get_prover(party.build()), v, case["msg"]): verify(
            model.verifier_stmt(joint), n, case["msg"])
    else:
        verdict = lambda: ref.cross_interactive(party.get_prover(party.build()), v.get_verifier())
    if not node["bind"]:
        must_accept("a secret outside a non-binding inequality with another value", verdict)
    else:
        # separate randomisers, or different values: never accepted
        must_reject("separate secrets presented as the bound one", verdict)
        if same:
            must_accept("bound secret with one value", verify, v, must(
                "proving", model.prover_party(joint).prove, None, case["msg"]), case["msg"])
    return labels


ec1 = st.sampled_from(gen.FAST)
pairs = st.sampled_from(["G1", "G2", "GT"])

PROP = Prop("C16", [
    Sub("truth", truth(ec1), run_truth, 1900, rule="logarithms and prover values with generated relations"),
    Sub("truth-pair", truth(pairs), run_truth, 170, rule="same over pairing groups"),
    Sub("adversary", adversary(ec1), run_adversary, 2200, rule="reference prover with chosen blinded difference"),
    Sub("adversary-pair", adversary(pairs), run_adversary, 170, rule="same over pairing groups"),
    Sub("cofactor", adversary(st.sampled_from(["ec707", "ec721"]), ["torsion", "torsion", "torsion-shift", "honest"]),
        run_adversary, 120, rule="points of small order as the blinded difference, on curves with a cofactor"),
    Sub("cofactor-gt", adversary(st.just("GT"), ["torsion", "torsion", "torsion-shift", "honest"]), run_adversary, 40,
        rule="minus one as the blinded difference, or times it, in GT"),
    Sub("binding", binding(ec1), run_binding, 700, rule="another occurrence of the secret with another value"),
    Sub("binding-pair", binding(pairs), run_binding, 80, rule="same over pairing groups"),
], rule="A case fixes both pairs by scalars, so that it is known whether the logarithms differ, the prover's value or "
   "the blinded difference and internal values of an adversary, the place of the statement in a tree and a mode. "
   "Non-trivial: a verdict (or the library prover's refusal) was compared with the integers.")
