"""C23 User-defined primitives get the guarantees of built-in ones."""
from hypothesis import strategies as st
from petlib.pack import decode, encode

from zkv import core, custom, gen, model, mutate, ref, wrap
from zkv.core import Prop, Sub, accepted, must, must_accept, must_reject, require
from zkv.proto import copy_nizk, interactive, roundtrip, verify

MODES = ["nizk", "ser", "int", "int-wire", "same"]


def customs(tree):
    return [n for n in model.leaves(tree) if n["k"] == "cust"]


def tagged(tree):
    for i, n in enumerate(customs(tree)):
        n["tag"] = i
    return tree


def typed(x):
    """Comparable form that tells types apart."""
    if isinstance(x, dict):
        return {"d": sorted([[str(k), typed(v)] for k, v in x.items()])}
    if isinstance(x, (list, tuple)):
        return [typed(v) for v in x]
    return [type(x).__name__.replace("bytearray", "bytes"), ref.plain(x)]


def make(groups, depth=3, kinds=("dl", "cust")):
    @st.composite
    def strat(draw):
        g = gen.G(draw, groups=draw(groups), kinds=kinds, depth=draw(st.sampled_from([0, 0, 1, 1, 2, depth])), width=3, p_ext=1)
        tree = g.tree()
        if not customs(tree):
            tree = {"k": "and", "op": 0, "c": [tree, g.leaf_cust([], g.pick(g.groups))]}
        for n in customs(tree):
            if n["form"] == "const" and g.b():
                n["lax"] = 1
        return g.case(tagged(tree), msg=gen.message(draw), mode=g.pick(MODES))
    return strat()


def run(case):
    """Proves, verifies and follows every precommitment from the prover to the verifier's primitive."""
    labels = gen.describe(case) | {"mode:" + case["mode"], "nontrivial"}
    for n in customs(case["tree"]):
        labels.add("form:" + n["form"])
        labels.add("inner:" + n["inner"])
    mode, msg = case["mode"], case["msg"]
    party = model.prover_party(case)
    stmt = must("building", party.build)
    vstmt = stmt if mode == "same" else model.verifier_stmt(case)
    custom.LOG = log = []
    try:
        if mode in ("int", "int-wire"):
            prover, verifier = must("get_prover", party.get_prover, stmt), vstmt.get_verifier()
            pre = must("precommit", prover.precommit)
            verifier.process_precommitment(pre if mode == "int" else decode(encode(pre)))
            com = must("commit", prover.commit)
            c = must("send_challenge", verifier.send_challenge, com if mode == "int" else (com[0], decode(encode(com[1]))))
            resp = must("compute_response", prover.compute_response, c)
            must_accept("interactive proof with user-defined primitives", verifier.verify, resp if mode == "int" else decode(encode(resp)))
        else:
            nizk = must("proving with user-defined primitives", party.prove, stmt, msg)
            if mode == "ser":
                nizk = roundtrip(nizk)
            must_accept("proof with user-defined primitives", verify, vstmt, nizk, msg)
    finally:
        custom.LOG = None
    if mode != "same":
        # further runs with the same verifier's statement
        for k in range(2):
            if mode in ("nizk", "ser") or k:
                again = must("proving again", model.prover_party(case).prove, None, msg)
                must_accept("another proof, on the same verifier's statement", verify, vstmt, again, msg)
            else:
                other = model.prover_party(case)
                must_accept("another interactive run, on the same verifier's statement", interactive,
                            must("get_prover", other.get_prover, other.build()), vstmt.get_verifier())
    made, got, checked = {}, {}, {}
    for event, prover, tag, value in log:
        if event == "made":
            require(prover or mode == "same", "the verifier made a precommitment")
            made[tag] = value
        elif event == "construct":
            got[tag] = (prover, value)
        elif event == "validate":
            checked[tag] = value
    for n in customs(case["tree"]):
        tag = n["tag"]
        require(tag in got, "a primitive was never constructed by the verifier")
        prover, value = got[tag]
        require(mode == "same" or not prover, "the last construction was the prover's")
        if n["form"] == "plain":
            require(typed(value) == typed([]), "a primitive without precommitment got %r", value)
            continue
        require(tag in made, "no precommitment was made")
        require(typed(made[tag]) == typed(value), "the precommitment arrived changed: %r became %r", made[tag], value)
        require(tag in checked, "a primitive was not asked to validate")
        require(typed(checked[tag]) == typed(value), "validation saw another precommitment than construction")
    return labels


# ---------------------------------------------------------------- precommitments that change on the way
ALTER = ["leaf", "leaf", "leaf", "drop", "extra", "type", "other", "whole", "falsy"]


def altering(groups):
    @st.composite
    def strat(draw):
        g = gen.G(draw, groups=draw(groups), kinds=("dl",), depth=0)
        gid = g.pick(g.groups)
        node = g.leaf_cust([], gid)
        while node["form"] == "plain" and g.b():
            node = g.leaf_cust([], gid)
        if node["form"] == "const":
            node["lax"] = g.pick([0, 1, 1])
        tree, path = wrap.wrap(g, node)
        return g.case(tagged(tree), path=path, how=g.pick(ALTER), i=g.i(0, 30), j=g.i(0, len(custom.CONSTS) - 1),
                      delta=mutate.draw_delta(g), move=g.pick(mutate.POINTS), msg=gen.message(draw),
                      mode=g.pick(["nizk", "nizk", "ser"]))
    return strat()


def containers(x, path=()):
    if isinstance(x, (list, tuple, dict)):
        yield path
        for k, v in (x.items() if isinstance(x, dict) else enumerate(x)):
            yield from containers(v, path + (k,))


def alter(own, case, q, r, make):
    how, i = case["how"], case["i"]
    leaves = [x for x in ref.flatten(own)]
    if how == "leaf" and leaves:
        p, v = leaves[i % len(leaves)]
        new = mutate.change_leaf(v, case["move"] if hasattr(v, "export") else case["delta"], q, r)
        return own if new is None else ref.replace(own, p, new)
    if how == "type" and leaves:
        p, v = leaves[i % len(leaves)]
        if isinstance(v, bool) or v is None:
            return ref.replace(own, p, 0 if not v else 1)
        if isinstance(v, int):
            return ref.replace(own, p, str(v))
        return ref.replace(own, p, [v])
    cs = list(containers(own))
    if how in ("drop", "extra") and cs:
        p = cs[i % len(cs)]
        c = ref.deep(ref.get(own, p))
        if isinstance(c, dict):
            if how == "drop" and c:
                c.pop(sorted(c)[i % len(c)])
            elif how == "extra":
                c["zz"] = 0
        elif how == "drop" and c:
            c = c[:-1]
        else:
            c = list(c) + [None]
        return ref.replace(own, p, c) if p else c
    if how == "other":
        return make()
    if how == "falsy":
        return custom.CONSTS[case["j"] % 6]
    return custom.CONSTS[case["j"]]


def run_altering(case):
    r = core.rng()
    node = customs(case["tree"])[0]
    q = model.order(node["g"])
    path = case["path"]
    party = model.prover_party(case)
    nizk = must("proving", party.prove, None, case["msg"])
    vstmt = model.verifier_stmt(case)
    must_accept("proof", verify, vstmt, nizk, case["msg"])
    own = nizk.precommitment
    for p in path:
        own = None if own is None else own[p]
    other = lambda: wrap.at(model.prover_party(case).build(), path).simulate_precommit()
    new = alter(own, case, q, r, other)
    labels = gen.describe(case) | {"form:" + node["form"], "how:" + case["how"]}
    if typed(new) == typed(own):
        return labels | {"same"}

    def put(pre, path):
        if not path:
            return new
        pre = list(pre) if pre is not None else [None] * (path[0] + 1)
        pre[path[0]] = put(pre[path[0]], path[1:])
        return pre
    try:
        bad = copy_nizk(nizk, precommitment=put(nizk.precommitment, path))
        if case["mode"] == "ser":
            bad = roundtrip(bad)
    except Exception:
        return labels | {"unencodable"}
    must_reject("proof whose precommitment was altered (%s)" % case["how"], verify, model.verifier_stmt(case), bad, case["msg"])
    must_accept("the proof itself, afterwards", verify, vstmt, nizk, case["msg"])
    return labels | {"nontrivial"}


# ---------------------------------------------------------------- validation
def cheating(groups):
    @st.composite
    def strat(draw):
        g = gen.G(draw, groups=draw(groups), kinds=("dl", "cust"), depth=draw(st.sampled_from([0, 1, 1, 2, 2, 3])), width=3, p_ext=1)
        tree = g.tree()
        pres = [n for n in customs(tree) if n["form"] == "pre"]
        if not pres:
            node = g.leaf_cust([], g.pick(g.groups))
            node["form"], node["cont"] = "pre", g.pick(custom.CONTAINERS)
            if g.b():
                tree = {"k": "and", "op": 0, "c": [tree, node]}
            else:
                node["mark"] = g.pick(["pre", "post"])
                # the disjunction must not share secrets with the rest
                tree = {"k": "or", "op": 0, "c": [node, tree] if g.b() else [tree, node]}
            pres = [node]
        cheat = g.pick(["inf", "inf", "inf", "shift"])
        bad = g.pick(pres)
        bad["cheat"] = cheat
        if cheat == "shift":
            bad["off"] = bad["off"] or g.i(1, 9)
        return g.case(tagged(tree), cheat=cheat, tag=bad["tag"] if "tag" in bad else 0, msg=gen.message(draw),
                      mode=g.pick(["nizk", "ser", "int", "same"]))
    return strat()


def run_cheating(case):
    labels = gen.describe(case) | {"cheat:" + case["cheat"], "mode:" + case["mode"]}
    honest = gen.clone(case)
    for n in customs(honest["tree"]):
        if n.pop("cheat", None) and case["cheat"] == "shift":
            n["off"] = 0
    node = [n for n in customs(case["tree"]) if n.get("cheat")][0]
    labels.add("marked-cheat" if node.get("mark") else "cheat-live-or-inside")
    party = model.prover_party(case)
    vstmt = model.verifier_stmt(case)
    mode, msg = case["mode"], case["msg"]
    try:
        stmt = party.build()
        if mode == "int":
            prover = party.get_prover(stmt)
            verifier = vstmt.get_verifier()
            verdict = lambda: interactive(prover, verifier)
        else:
            nizk = party.prove(stmt, msg)
            if mode == "ser":
                nizk = roundtrip(nizk)
            verdict = lambda: verify(stmt if mode == "same" else vstmt, nizk, msg)
    except Exception:
        return labels | {"no-proof"}
    must_reject("proof with a precommitment its primitive does not accept (%s)" % case["cheat"], verdict)
    # the same case without the cheat is accepted, so the precommitment was the reason
    if case["cheat"] == "inf" and model.provable(honest["tree"], honest["v"], honest["v"], set(honest["unk"])) == "yes":
        must_accept("the same proof without the cheat", verify, model.verifier_stmt(honest),
                    must("proving", model.prover_party(honest).prove, None, msg), msg)
        labels.add("control")
    return labels | {"nontrivial"}


# ---------------------------------------------------------------- arguments of a verification
ARGS = [[[], {}], [["x"], {}], [["x", 3], {}], [[], {"allow": True}], [["x"], {"allow": True, "more": None}], [[None], {"list": [1, 2]}]]
REFUSE = [[["refuse"], {}], [["x", "refuse"], {}], [[], {"allow": False}], [["x"], {"allow": False, "more": 1}]]


def arguments(groups):
    @st.composite
    def strat(draw):
        g = gen.G(draw, groups=draw(groups), kinds=("dl", "cust"), depth=draw(st.sampled_from([0, 1, 1, 2, 2, 3])), width=3, p_ext=1)
        tree = g.tree()
        if not customs(tree):
            tree = {"k": "and", "op": g.i(0, 1), "c": [tree, g.leaf_cust([], g.pick(g.groups))]}
        return g.case(tagged(tree), ok=g.pick(ARGS), no=g.pick(REFUSE), msg=gen.message(draw), mode=g.pick(["nizk", "nizk", "int"]))
    return strat()


def run_arguments(case):
    """What a verifier is given besides the proof reaches the validation of every primitive."""
    labels = gen.describe(case) | {"mode:" + case["mode"], "nontrivial"}
    party = model.prover_party(case)
    stmt = must("building", party.build)
    tags = {n["tag"] for n in customs(case["tree"])}
    if case["mode"] == "nizk":
        nizk = must("proving", party.prove, stmt, case["msg"])

        def session(a, k):
            v = model.verifier_stmt(case).get_verifier()
            return v.verify_nizk(nizk, case["msg"] or "", *a, **k)
    else:
        def session(a, k):
            prover, v = party.get_prover(stmt), model.verifier_stmt(case).get_verifier()
            v.process_precommitment(prover.precommit())
            c = v.send_challenge(prover.commit())
            return v.verify(prover.compute_response(c), *a, **k)
    for (a, k), fine in ((case["ok"], True), (case["no"], False), (case["ok"], True)):
        custom.LOG = log = []
        try:
            if fine:
                must_accept("proof verified with further arguments", session, a, k)
            else:
                must_reject("proof whose primitive refuses the arguments of the verification", session, a, k)
        finally:
            custom.LOG = None
        seen = {tag: value for event, prover, tag, value in log if event == "args" and not prover}
        if fine:
            require(set(seen) == tags, "a primitive was not asked to validate")
        for tag, (a2, k2) in seen.items():
            require(list(a2) == a and k2 == k, "validation was given %r, %r instead of %r, %r", a2, k2, a, k)
    return labels


# ---------------------------------------------------------------- without simulation
def nosim(groups):
    @st.composite
    def strat(draw):
        g = gen.G(draw, groups=draw(groups), kinds=("dl",), depth=0)
        gid = g.pick(g.groups)
        node = g.leaf_cust([], gid)
        node["nosim"] = 1
        tree, path = wrap.wrap(g, node)
        if g.one_in(3):
            # another one beside it
            n2 = g.leaf_cust([], gid)
            n2["nosim"] = g.i(0, 1)
            tree = {"k": "and", "op": g.i(0, 1), "c": [tree, n2]}
        return g.case(tagged(tree), msg=gen.message(draw), mode=g.pick(MODES))
    return strat()


ec1 = st.sampled_from([[g] for g in gen.FAST])
ecs = st.sampled_from([["ec713", "ec415"], ["ec415", "ec704"], ["ec706"], ["ec409"]])
pairs = st.sampled_from([["G1"], ["G2"], ["GT"], ["G1", "G2"]])

PROP = Prop("C23", [
    Sub("complete", make(ec1), run, 1900, rule="trees of generated primitives, precommitments followed to the verifier"),
    Sub("complete-mixed", make(ecs, 2, ("dl", "cust", "dlne", "rng")), run, 600, rule="with built-in primitives, several groups"),
    Sub("complete-pair", make(pairs, 1), run, 130, rule="over pairing groups"),
    Sub("altering", altering(ec1), run_altering, 1500, rule="one precommitment altered"),
    Sub("cheating", cheating(ec1), run_cheating, 1300, rule="a precommitment its primitive rejects, live or simulated"),
    Sub("cheating-pair", cheating(pairs), run_cheating, 60, rule="same over pairing groups"),
    Sub("arguments", arguments(ec1), run_arguments, 500, rule="further arguments of a verification reach every primitive"),
    Sub("nosim", nosim(ec1), run, 700, rule="primitives without simulation, where they are really proved"),
], rule="Primitives are generated: with or without precommitment (any serialisable value, falsy ones and containers included), "
   "validation, simulation and internal secrets; their inner statement is a representation, a conjunction or a disjunction. They "
   "log what their methods give and get. Non-trivial: a proof was judged and, when accepted, its precommitments compared.",
   assumptions=["Precommitments with tuples are not generated: the encoding turns tuples into lists."])
