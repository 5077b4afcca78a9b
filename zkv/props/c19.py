"""C19 Signature proofs verify only for holders of a valid signature."""
from hypothesis import strategies as st

from zkv import core, gen, model, mutate, ref, wrap
from zkv.core import Prop, Sub, accepted, must, must_accept, must_reject, require
from zkv.model import bn
from zkv.proto import interactive, roundtrip, verify

BAD = [None, None, None, "A", "e", "s", "key", "msg"]


def bbs_case(draw, key=(0, 1), nmax=3):
    """A signature statement with its own secrets. The values of e and s are in the case too."""
    g = gen.G(draw, groups=["G1"], kinds=("dl",))
    n = g.i(1, nmax) if g.i(0, 5) else g.i(nmax + 1, 9)
    msgs = []
    for _ in range(n):
        msgs.append(g.pick(msgs) if msgs and g.one_in(6) else g.new_secret("pair"))
    bind = g.i(0, 1)
    node = {"k": "bbs", "key": g.pick(list(key)), "sid": g.i(0, 99), "bind": bind, "bad": None}
    if bind:
        e, s = model.sig_es(node)
        node["s"] = [g.new_secret("pair", e), g.new_secret("pair", s)] + msgs
    else:
        node["s"] = msgs
    return g, node, msgs


def partner(g, node, msgs):
    """Another statement that shares a secret with the signature statement."""
    q = model.order("G1")
    m = g.pick(msgs)
    kind = g.pick(["dl", "dl", "bbs", "rng", "dlne", "es"])
    if kind == "es" and not node["bind"]:
        kind = "dl"
    gid = g.pick(["G1", "G1", "G1", "G2", "GT"]) if kind == "dl" else "G1"
    if kind == "es":
        return {"k": "dl", "g": "G1", "t": [[g.pick(node["s"][:2]), g.i(0, 4)]], "off": 0, "w": 0}, None
    if kind == "dl":
        t = [[m, g.i(0, 4)]]
        if g.b():
            t.append([g.new_secret("pair"), g.i(0, 4)])
        return {"k": "dl", "g": gid, "t": t, "off": 0, "w": 0}, m
    if kind == "bbs":
        other = [g.new_secret("pair") for _ in range(g.i(0, 1))]
        names = [m] + other if g.b() else other + [m]
        return {"k": "bbs", "key": g.i(0, 1), "sid": g.i(100, 199), "s": names, "bind": 0, "bad": None}, m
    if kind == "rng":
        w = g.pick([1, 2, 3, 7, 8])
        lo = g.v[m] - g.i(0, w - 1)
        return {"k": "rng", "g": "G1", "x": m, "r": g.new_secret("pair"), "b": [0, 1], "lo": lo, "hi": lo + w,
                "off": 0}, m
    return {"k": "dlne", "g": "G1", "x": m, "b": [0, g.i(0, 3)], "d": g.pick([1, -1, 5]), "off": 0, "bind": 1}, m


@st.composite
def truth(draw):
    g, node, msgs = bbs_case(draw)
    node["bad"] = g.pick(BAD)
    shared = None
    if g.b():
        other, shared = partner(g, node, msgs)
        # the signature's own secrets get their values when its statement is built
        first = g.b() or shared is None
        tree = {"k": "and", "op": g.i(0, 1), "c": [node, other] if first else [other, node]}
        if g.one_in(3):
            sib = g.leaf_dl([], "G1")
            sib["mark"] = "pre"
            tree["op"] = 0
            tree = {"k": "or", "op": 0, "c": [tree, sib] if g.b() else [sib, tree]}
    else:
        tree, _ = wrap.wrap(g, node)
    give = {}
    if g.one_in(3):
        m = g.pick(msgs)
        give[m] = g.v[m] + g.pick([1, -1, model.order("G1"), 0, 7])
    return g.case(tree, give=give, used=g.pick([0, 0, 1, 1 << 90]), msg=gen.message(draw), mode=g.pick(["nizk", "nizk", "int", "cross"]),
                  shared=int(shared is not None))


def run_truth(case):
    values = dict(case["v"], **case["give"])
    can = model.provable(case["tree"], case["v"], values)
    labels = gen.describe(case) | {"mode:" + case["mode"], "provable:" + can}
    for n in model.leaves(case["tree"]):
        if n["k"] == "bbs":
            labels.add("bad:%s" % n["bad"])
    if case["shared"]:
        labels.add("shared")
    party = model.prover_party(case, values=values)
    vstmt = model.verifier_stmt(case)
    msg, mode = case["msg"], case["mode"]
    if can == "yes":
        if mode == "int":
            must_accept("proof of a valid signature, interactive", interactive,
                        must("get_prover", party.get_prover, party.build()), vstmt.get_verifier())
        else:
            nizk = must("proving a valid signature", party.prove, None, msg)
            must_accept("proof of a valid signature", verify, vstmt, nizk, msg)
            must_accept("the same proof, decoded, for another verifier", verify, model.verifier_stmt(case),
                        roundtrip(nizk), msg)
            again = must("proving a valid signature again", model.prover_party(case, values=values).prove, None, msg)
            must_accept("another proof, on the same verifier's statement", verify, vstmt, again, msg)
        return labels | {"nontrivial"}
    if can != "no":
        return labels
    try:
        if mode == "nizk":
            nizk = party.prove(None, msg)
        elif mode == "cross":
            nizk = ref.cross_nizk(party.get_prover(party.build()), vstmt, msg)
        else:
            must_reject("signature proof without a valid signature, interactive", ref.cross_interactive,
                        party.get_prover(party.build()), vstmt.get_verifier())
            return labels | {"nontrivial"}
    except core.Violation:
        raise
    except Exception:
        return labels | {"nontrivial", "refused"}
    must_reject("signature proof without a valid signature", verify, vstmt, nizk, msg)
    return labels | {"nontrivial"}


# ---------------------------------------------------------------- adversaries
HOW = ["honest", "honest", "A1", "A2", "A1-free", "no-link", "no-link2", "no-sig", "other-key", "wrong-e", "wrong-s",
       "wrong-m", "delta", "r2", "neutral", "neutral-all", "swap", "zero-r", "split-e", "split-r1", "split-d1", "split-m"]


@st.composite
def adversary(draw):
    how = draw(st.sampled_from(HOW))
    trap = how in ("A1-free", "no-link", "no-link2", "split-e", "split-r1", "split-d1", "no-sig", "neutral", "neutral-all")
    g, node, msgs = bbs_case(draw, key=(model.TRAP, model.TRAP + 1) if trap else (0, 1, model.TRAP))
    tree, path = wrap.wrap(g, node)
    q = model.order("G1")
    return g.case(tree, path=path, how=how, d=g.pick([1, -1, g.i(1, q - 1)]), i=g.i(0, 9), move=g.pick(mutate.POINTS),
                  msg=gen.message(draw), mode=g.pick(["nizk", "int", "ser"]))


def run_adversary(case):
    r = core.rng()
    path, how, d = case["path"], case["how"], case["d"]
    node = case["tree"]
    for i in path:
        node = node["c"][i]
    q = model.order("G1")
    side = model.SIDES["P"]
    key = node["key"]
    gens = side.pk(key).generators
    lin = lambda terms: side.lincomb("G1", terms)
    names = model.bbs_msgs(node)
    m = [case["v"][x] for x in names]
    e, s = model.sig_es(node)

    def valid(A, e, s, m):
        return lin([(model.gamma(key) + e, A)]) == lin(list(zip([1, s] + list(m), gens)))

    if how == "other-key":
        A = model.signature(dict(node, bad="key"), case["v"], side).A
    else:
        A = model.signature(dict(node, bad=None), case["v"], side).A
    if how == "wrong-e":
        e = (e + d) % q
    elif how == "wrong-s":
        s = (s + d) % q
    elif how == "wrong-m":
        m = list(m)
        k = case["i"] % len(m)
        for j, x in enumerate(names):
            if x == names[k]:
                m[j] += d
    r1, r2 = r.randrange(1, q), r.randrange(1, q)
    if how == "zero-r":
        r1 = r2 = 0
    d1, d2 = r1 * e % q, r2 * e % q
    A1, A2 = lin([(r1, gens[1]), (r2, gens[2])]), lin([(r1, gens[2]), (1, A)])
    split = None
    t = lambda i: model.trap(key, i)
    if how in ("A1-free", "no-link", "no-link2", "split-e", "split-r1", "split-d1", "no-sig", "neutral", "neutral-all"):
        # no signature at all: A is neutral, s is zero, delta1 makes up for the rest of the pairing equation
        s = 0
        total = t(0) + sum(x * t(2 + i) for i, x in enumerate(m))
        if how in ("neutral", "neutral-all"):
            r1 = r2 = 0
        A2 = lin([(r1, gens[2])])
        d1 = (e * r1 - total) % q
        if how == "no-sig":
            d1 = r1 * e % q
        if how == "A1-free":
            # fits the equation with e alone
            A1 = lin([(d1 * pow(e, -1, q), gens[1]), (d2 * pow(e, -1, q), gens[2])])
        elif how == "no-link2":
            d1, d2 = (e * r1 - total) % q, r.randrange(q)
            A1 = lin([(r1, gens[1]), (r2, gens[2])])
        elif how == "neutral-all":
            A1 = A2 = lin([])
            d2 = 0
        elif how == "neutral":
            A1 = lin([])
            d2 = 0
        else:
            A1 = lin([(r1, gens[1]), (r2, gens[2])])
        if how == "split-e":
            e2 = d1 * pow(r1, -1, q) % q
            d2 = r2 * e2 % q
            split = {(1, 2): e2}
        elif how == "split-r1":
            # the first equation sees another r1 than the pairing equation
            A1 = lin([(d1 * pow(e, -1, q), gens[1]), (r2, gens[2])])
            split = {(0, 0): d1 * pow(e, -1, q) % q}
        elif how == "split-d1":
            split = {(1, 0): r1 * e % q}
    elif how == "A1":
        A1 = mutate.move_point(A1, case["move"], r)
    elif how == "A2":
        A2 = mutate.move_point(A2, case["move"], r)
    elif how == "delta":
        d1, d2 = (d1 + d) % q, (d2 + case["i"]) % q
    elif how == "r2":
        r2 = (r2 + d) % q
    elif how == "swap":
        A1, A2 = A2, A1
    party = model.Party(case, "P", False)
    stmt = party.build()
    pre = wrap.place(stmt, path, {"A1": A1, "A2": A2})
    ref.constructed(stmt, pre)
    inner = ref.at(stmt, path)
    labels = gen.describe(case) | {"how:" + how, "mode:" + case["mode"]}
    witness = {x.name: case["v"][n] for n, x in party.secrets.items()}
    shape = [len(p.secret_vars) for p in inner.subproofs] if ref.kind(inner) == "and" else []
    if shape != [2, 3, 4 + len(m)]:
        # the internal equations have another form than this adversary knows: go by position as far as possible
        labels.add("control-failed")
    flat = [v for p in getattr(inner, "subproofs", [inner]) for v in p.secret_vars]
    for v, x in zip(flat, [r1, r2, d1, d2, e, e, r1, d1, s] + list(m)):
        witness[v.name] = x
    for v in flat:
        witness.setdefault(v.name, 0)
    value = None
    if how == "split-m":
        k = case["i"] % len(m)
        split = {(2, 4 + k): m[k] + d}
        if names.count(names[k]) == 1:
            A = None
    if split:
        value = lambda p, i, s: split.get((p[len(path)], i)) if len(p) == len(path) + 1 and list(p[:-1]) == path else None
    prover = ref.RefProver(stmt, witness, r, live=ref.towards(stmt, tuple(path)), value=value)
    verdict, holds = wrap.attempt(stmt, prover, pre, case["mode"], case["msg"], model.verifier_stmt(case))
    good = (not split and valid(A2 + lin([(-r1, gens[2])]), e, s, m)
            and A1 == lin([(r1, gens[1]), (r2, gens[2])]) and (d1 - r1 * e) % q == 0 and (d2 - r2 * e) % q == 0)
    labels.add("good" if good else "bad")
    if holds:
        labels.add("equations-hold")
    if good:
        if holds:
            must_accept("transcript of a holder of a valid signature", verdict)
        elif "control-failed" not in labels:
            labels.add("control-failed")
        return labels | {"nontrivial"}
    must_reject("%s signature transcript" % how, verdict)
    return labels | {"nontrivial"}


# ---------------------------------------------------------------- altered library proofs
@st.composite
def altered(draw):
    g, node, msgs = bbs_case(draw)
    tree, path = wrap.wrap(g, node)
    return g.case(tree, path=path, which=g.pick(["A1", "A2", "A1", "A2", "both", "other", "drop", "swap"]),
                  move=g.pick(mutate.POINTS), msg=gen.message(draw), mode=g.pick(["nizk", "int", "recomputed"]))


def run_altered(case):
    """The library's prover with other blinded elements than it used."""
    r = core.rng()
    path, which = case["path"], case["which"]
    party = model.prover_party(case)
    stmt = party.build()
    labels = gen.describe(case) | {"which:" + which, "mode:" + case["mode"]}

    def change(pre):
        p = ref.deep(pre)
        own = ref.get(p, path)
        before = dict(own)
        if which in ("A1", "both"):
            own["A1"] = mutate.move_point(own["A1"], case["move"], r)
        if which in ("A2", "both"):
            own["A2"] = mutate.move_point(own["A2"], case["move"], r)
        if which == "other":
            second = model.prover_party(case)
            own.update(ref.get(second.get_prover(second.build()).precommit(), path))
        if which == "drop":
            del own["A1"]
        if which == "swap":
            own["A1"], own["A2"] = own["A2"], own["A1"]
        if own.keys() == before.keys() and all(own[k] == before[k] for k in own):
            labels.add("same")
        return p

    if case["mode"] == "int":
        prover = party.get_prover(stmt)
        verifier = model.verifier_stmt(case).get_verifier()
        pre = must("precommit", prover.precommit)

        def verdict():
            verifier.process_precommitment(change(pre))
            com = prover.commit()[1]
            c = verifier.send_challenge((verifier.stmt.prehash_statement().digest(), com))
            return verifier.verify(prover.compute_response(c))
    elif case["mode"] == "nizk":
        nizk = must("proving", party.prove, stmt, case["msg"])
        nizk.precommitment = change(nizk.precommitment)
        verdict = lambda: verify(model.verifier_stmt(case), nizk, case["msg"])
    else:
        def verdict():
            nizk = ref.cross_nizk(party.get_prover(stmt), model.verifier_stmt(case), case["msg"], change)
            return verify(model.verifier_stmt(case), nizk, case["msg"])
    ok = accepted(verdict)
    if "same" in labels:
        return labels
    require(not ok, "proof with altered blinded signature elements (%s): accepted", which)
    return labels | {"nontrivial"}


# ---------------------------------------------------------------- sharing
@st.composite
def sharing(draw):
    g, node, msgs = bbs_case(draw)
    q = model.order("G1")
    other, m = partner(g, node, msgs)
    while m is None:
        other, m = partner(g, node, msgs)
    # the partner has a secret of its own, with another value or the same
    diff = g.pick([0, 1, -1, q, g.i(1, q - 1)]) if other["k"] in ("dl", "bbs") else 0
    own = g.new_secret("pair", g.v[m] + diff)
    gen.rename(other, m, own)
    swap = g.i(0, 1)
    return g.case({"k": "and", "op": 0, "c": [node, other][::-1 if swap else 1]}, m=m, own=own, msg=gen.message(draw),
                  mode=g.pick(["nizk", "int"]))


def run_sharing(case):
    joint = gen.clone(case)
    for n in model.leaves(joint["tree"]):
        if n["k"] != "bbs":
            model.freeze(n, case["v"])
        gen.rename(n, case["own"], case["m"])
    if model.provable(case["tree"], case["v"], case["v"]) != "yes":
        return {"unprovable"}
    q = model.order("G1")
    same = (case["v"][case["m"]] - case["v"][case["own"]]) % q == 0
    labels = gen.describe(case) | {"values:" + ("same" if same else "different"), "mode:" + case["mode"], "nontrivial"}
    party = model.prover_party(case)
    if case["mode"] == "nizk":
        nizk = ref.cross_nizk(party.get_prover(party.build()), model.verifier_stmt(joint), case["msg"])
        verdict = lambda: verify(model.verifier_stmt(joint), nizk, case["msg"])
    else:
        verdict = lambda: ref.cross_interactive(party.get_prover(party.build()), model.verifier_stmt(joint).get_verifier())
    must_reject("separate secrets presented as one shared message", verdict)
    if same and case["v"][case["m"]] == case["v"][case["own"]]:
        must_accept("shared message with one value", verify, model.verifier_stmt(joint),
                    must("proving", model.prover_party(joint).prove, None, case["msg"]), case["msg"])
    return labels


PROP = Prop("C19", [
    Sub("truth", truth(), run_truth, 330, rule="valid and bad signatures, messages and keys, alone and shared"),
    Sub("adversary", adversary(), run_adversary, 420, rule="reference prover with chosen blinded elements and values"),
    Sub("altered", altered(), run_altered, 190, rule="library prover, blinded elements replaced"),
    Sub("sharing", sharing(), run_sharing, 150, rule="message shared with another statement, other value there"),
], rule="A case fixes key, messages, signature (good or spoiled), place in a tree, partner statements and mode. The reference "
   "issuer knows the private key, some keys have generators with known relations so that forgeries satisfying all equations "
   "but one can be computed. Non-trivial: a verdict or the prover's refusal was compared with the signature equation.",
   assumptions=["The three internal equations are addressed by position; where the order differs the adversary is weaker."])
