"""C08 The clause really proved is a usable one, and simulate marks are obeyed."""
from hypothesis import strategies as st

from zkv import gen, model
from zkv.core import Prop, Sub, accepted, must, must_accept, must_reject, require
from zkv.proto import interactive, roundtrip, verify


def make(kinds, groups=None, depth=3, width=4, trials=5):
    @st.composite
    def strat(draw):
        g = gen.G(draw, groups=draw(groups) if groups is not None else None, kinds=kinds,
                  depth=draw(st.integers(1, depth)), width=width, p_ext=2)
        tree = g.tree(kind=g.pick(["or", "or", "and"]))
        return g.case(tree, msg=gen.message(draw), trials=g.i(2, trials), int=g.i(0, 1), fresh=g.i(0, 1))
    return strat()


def run(case):
    """At least one usable true clause in every disjunction: each attempt succeeds."""
    if model.provable(case["tree"], case["v"], case["v"], set(case["unk"])) != "yes":
        return {"not-provable"}
    party = model.prover_party(case)
    stmt = party.build()
    for t in range(case["trials"]):
        if case["fresh"] and t:
            party = model.prover_party(case)
            stmt = party.build()
        nizk = must("proving through a usable clause", party.prove, stmt, case["msg"])
        must_accept("proof through a usable clause", verify, model.verifier_stmt(case), nizk, case["msg"])
    if case["int"]:
        prover = must("get_prover", party.get_prover, party.build())
        require(prover is not None, "no prover although a clause is usable")
        must_accept("interactive run through a usable clause", interactive, prover,
                    model.verifier_stmt(case).get_verifier())
    labels = gen.describe(case)
    if not ({"marked", "unknown-secret"} & labels):
        return labels
    return labels | {"nontrivial"}


# ---------------------------------------------------------------- nothing usable
@st.composite
def none(draw, kinds=("dl",), groups=None, depth=2, width=4):
    g = gen.G(draw, groups=draw(groups) if groups is not None else None, kinds=kinds,
              depth=draw(st.integers(1, depth)), width=width, p_ext=2)
    tree = g.tree(kind="or", bad="unk")
    for c in tree["c"]:
        if g.one_in(3):
            g.mark(tree, c)
    if g.one_in(3):
        # everything marked, all values known
        tree = g.tree(kind="or")
        for c in tree["c"]:
            g.mark(tree, c)
    if g.one_in(3):
        sib = g.leaf([])
        tree = {"k": "and", "op": 0, "c": [sib, tree] if g.b() else [tree, sib]}
    if g.one_in(4):
        sib = g.leaf([], "unk")
        tree = {"k": "or", "op": 0, "c": [sib, tree] if g.b() else [tree, sib]}
    return g.case(tree, msg=gen.message(draw))


def run_none(case):
    if model.usable(case["tree"], set(case["unk"])):
        return {"usable"}
    labels = gen.describe(case) | {"nontrivial"}
    party = model.prover_party(case)
    stmt = must("building", party.build)
    try:
        nizk = party.prove(stmt, case["msg"])
    except Exception:
        nizk = None
    if nizk is not None:
        must_reject("proof through an unusable clause", verify, model.verifier_stmt(case), nizk, case["msg"])
    require(nizk is None, "a proof was produced although no clause is usable")
    try:
        prover = party.get_prover(party.build())
    except Exception:
        prover = None
    if prover is not None:
        try:
            prover.precommit()
            prover.commit()
        except Exception:
            return labels
        require(False, "a prover commits although no clause is usable")
    return labels


# ---------------------------------------------------------------- every way to mark every kind of clause
@st.composite
def ways(draw, kinds, groups):
    """Clauses with all values that are marked and, unless all clauses are marked, false."""
    g = gen.G(draw, groups=draw(groups), kinds=kinds, depth=0, unknown=False)
    n, all_marked = g.i(2, 3), g.one_in(3)
    good = None if all_marked else g.i(0, n - 1)
    tree = {"k": "or", "op": 0, "c": []}
    for j in range(n):
        g.kinds = ("dl",) if j == good else (g.pick(kinds),)
        c = g.leaf([])
        if j != good:
            if not all_marked:
                g.falsify(c)
            c["mark"] = g.pick(["pre", "post"] + ["ctor"] * 3 * (c["k"] in ("dl", "dlne", "bbs")))
        tree["c"].append(c)
    if g.one_in(4):
        tree = {"k": "and", "op": 0, "c": [g.leaf([]), tree]}
    return g.case(tree, msg=gen.message(draw), trials=5, int=g.i(0, 1), fresh=g.i(0, 1))


def run_ways(case):
    labels = run(case) if model.usable(case["tree"], set()) else run_none(case)
    for n in model.walk(case["tree"]):
        if n.get("mark"):
            labels.add("way:%s-%s" % (n["k"], n["mark"]))
    return labels


# ---------------------------------------------------------------- each usable clause gets chosen
@st.composite
def each(draw, kinds=("dl",), groups=None, trials=260):
    g = gen.G(draw, groups=draw(groups) if groups is not None else [draw(st.sampled_from(["ec713", "ec415"]))],
              kinds=kinds, depth=1, width=4, marks=False, unknown=False, p_ext=2)
    n = g.i(2, 4)
    cs = []
    for _ in range(n):
        cs.append({"k": "and", "op": 0, "c": [g.leaf([]), g.leaf([])]} if g.one_in(4) else g.leaf([]))
    dead = [g.one_in(5) for _ in range(n)]
    if sum(not d for d in dead) < 2:
        dead = [False] * n
    true = g.pick([i for i in range(n) if not dead[i]])
    tree = {"k": "or", "op": 0, "c": cs}
    for i, c in enumerate(cs):
        if i != true:
            leaf = c["c"][g.i(0, 1)] if c["k"] == "and" else c
            g.falsify(leaf)
        if dead[i]:
            g.mark(tree, c)
    tree["op"] = 0
    path = g.i(0, 2)
    if path:
        sib = g.leaf([])
        tree = {"k": "and", "op": 0, "c": [tree, sib]} if path == 1 else {"k": "or", "op": 0, "c": [
            tree, dict(g.leaf([]), mark="pre")]}
    return g.case(tree, trials=trials, way=g.pick(["one", "rebuild", "int"]))


def run_each(case):
    party = model.prover_party(case)
    stmt = party.build()
    vstmt = model.verifier_stmt(case)
    for t in range(case["trials"]):
        if case["way"] == "rebuild" and t:
            party = model.prover_party(case)
            stmt = party.build()
        try:
            if case["way"] == "int":
                ok = interactive(party.get_prover(stmt), vstmt.get_verifier())
            else:
                ok = verify(vstmt, party.prove(stmt))
        except Exception:
            ok = False
        if ok:
            return gen.describe(case) | {"nontrivial", "tries:%d" % min(t, 8)}
    # four usable clauses at most: the chance of missing one 260 times is below 1e-32
    require(False, "the only true clause among the usable ones was not chosen in %d attempts", case["trials"])


# ---------------------------------------------------------------- marks and values that change between proofs
@st.composite
def changing(draw, kinds=("dl",), groups=None, depth=2, width=4):
    g = gen.G(draw, groups=draw(groups) if groups is not None else None, kinds=kinds,
              depth=draw(st.integers(1, depth)), width=width, p_ext=2)
    if g.one_in(3):
        g.marks = False
    tree = g.tree(kind=g.pick(["or", "or", "and"]))
    for n in model.walk(tree):
        if "op" in n:
            n["op"] = 0
        if n.get("mark") == "ctor":
            n["mark"] = "post"
    ops = []
    for _ in range(g.i(2, 7)):
        ops.append([g.pick(["mark", "mark", "unmark", "flip", "move", "reveal", "prove"]), g.i(0, 11), g.i(0, 11)])
    return g.case(tree, ops=ops, msg=gen.message(draw))


def spots(node, path=()):
    """Clauses of disjunctions and where they are."""
    for i, c in enumerate(node.get("c", ())):
        if node["k"] == "or":
            yield c, path + (i,)
        yield from spots(c, path + (i,))


def run_changing(case):
    """Marks set and removed, and values given, between proofs by the same statement object."""
    case = gen.clone(case)
    party = model.prover_party(case)
    stmt = must("building", party.build)
    vstmt = model.verifier_stmt(case)
    labels = gen.describe(case)
    where = list(spots(case["tree"]))
    early = model.needs_value_at_construction(case["tree"])
    es = {s for n in model.walk(case["tree"]) if n["k"] == "bbs" for s in n["s"]}
    known = [s for s in case["unk"] if s not in early and s not in es]
    unk = set(case["unk"])

    def mark(i, value):
        node, path = where[i % len(where)]
        node["mark"] = "post" if value else None
        obj = stmt
        for p in path:
            obj = obj.subproofs[p]
        if value or (i + len(path)) % 2:
            obj.set_simulated(bool(value))
        else:
            obj.set_simulated(value=False)

    done = 0
    for what, a, b in case["ops"] + [["prove", 0, 0]]:
        if what == "reveal":
            if known:
                s = known.pop(a % len(known))
                unk.discard(s)
                party.mapping[party.secrets[s]] = model.bn(case["v"][s])
                labels.add("revealed")
        elif where and what != "prove":
            if what == "mark":
                mark(a, True)
            elif what == "unmark":
                mark(a, False)
            elif what == "flip":
                for i, (n, _) in enumerate(where):
                    mark(i, not n.get("mark"))
            else:
                mark(a, True)
                mark(b, False)
        verdict = model.provable(case["tree"], case["v"], case["v"], unk)
        if verdict == "yes":
            nizk = must("proving after changes", party.prove, stmt, case["msg"])
            must_accept("proof after changes", verify, vstmt, nizk, case["msg"])
            labels.add("provable")
            done += 1
        elif not model.usable(dict(case["tree"], mark=None), unk):
            try:
                nizk = party.prove(stmt, case["msg"])
            except Exception:
                nizk = None
            require(nizk is None, "a proof was produced although no clause is usable any more")
            labels.add("unusable")
            done += 1
        else:
            ok = accepted(lambda: verify(vstmt, party.prove(stmt, case["msg"]), case["msg"]))
            require(not ok or verdict == "maybe", "a proof of a false clause was accepted")
            labels.add(verdict)
        for n, path in where:
            obj = stmt
            for p in path:
                obj = obj.subproofs[p]
            require(bool(obj.simulated) == bool(n.get("mark")), "proving changed the mark of a clause")
    return labels | ({"nontrivial"} if done > 1 else set())


ec1 = st.sampled_from([[g] for g in gen.FAST])
pairs = st.sampled_from([["G1"], ["G1", "G2"], ["GT"], ["G1", "ec713"]])
EXT = ("dl", "dlne", "rng", "p2", "cust")

PROP = Prop("C08", [
    Sub("dl", make(("dl",)), run, 1100, rule="representation trees, several attempts"),
    Sub("ext", make(EXT, ec1, 2), run, 420, rule="with primitives"),
    Sub("pair", make(("dl", "bbs", "dlne"), pairs, 1, 3, 3), run, 110, rule="over pairing groups"),
    Sub("none", none(), run_none, 700, rule="no usable clause"),
    Sub("none-ext", none(EXT, ec1), run_none, 400, rule="no usable clause, with primitives"),
    Sub("none-pair", none(("dl", "bbs"), pairs, 1, 3), run_none, 80, rule="no usable clause, signatures"),
    Sub("ways", ways(("dl", "dlne", "rng", "p2", "cust"), ec1), run_ways, 300, rule="false clauses marked in every way"),
    Sub("ways-pair", ways(("dl", "dlne", "bbs", "bbs"), pairs), run_ways, 80, rule="same, over pairing groups"),
    Sub("each", each(), run_each, 500, rule="one true clause among false but usable ones: chosen eventually"),
    Sub("each-ext", each(EXT, st.sampled_from([["ec713"], ["ec415"]])), run_each, 220, rule="same, with primitives"),
    Sub("changing", changing(), run_changing, 700, rule="marks and values that change between proofs"),
    Sub("changing-ext", changing(EXT, ec1), run_changing, 300, rule="same, with primitives"),
    Sub("changing-pair", changing(("dl", "bbs", "dlne"), pairs, 1, 3), run_changing, 50, rule="same, over pairing groups"),
], rule="A case is a disjunction tree with simulate marks, missing values and false clauses. Non-trivial: a "
   "mark or a missing value is present and all attempts were judged; or nothing is usable and proving was "
   "attempted; or the single true clause among usable ones was reached.")
