"""C15 Unsupported compositions are refused by prover and verifier."""
from hypothesis import strategies as st
from zksk import DLRep, Secret
from zksk.composition import AndProofStmt, OrProofStmt

from zkv import core, gen, model, ref
from zkv.core import Prop, Sub, must, must_accept, must_reject, require
from zkv.proto import interactive, verify


# ---------------------------------------------------------------- model
def unfold(n):
    """The tree of representations with the secrets each term puts on a base, and the group class."""
    k = n["k"]
    if k in ("and", "or"):
        return {"k": k, "c": [unfold(c) for c in n["c"]]}
    c = "pair" if k == "bbs" else model.cls(n["g"])
    if k == "dlne":
        names = [n["x"]] if n["bind"] else []
    elif k == "rng":
        names = [n["x"], n["r"]]
    elif k == "p2":
        names = []
    elif k == "bbs":
        names = n["s"]
    else:
        names = [s for s, _ in n["t"]]
    leaf = {"k": "leaf", "s": [(s, c) for s in names]}
    if k == "cust" and n["inner"] == "and":
        return {"k": "and", "c": [leaf, {"k": "leaf", "s": leaf["s"][:1]}]}
    if k == "cust" and n["inner"] == "or":
        return {"k": "and", "c": [{"k": "or", "c": [leaf, leaf]}, {"k": "leaf", "s": []}]}
    return leaf


def terms(t):
    return sum([terms(c) for c in t["c"]], []) if "c" in t else t["s"]


def faults(tree):
    """Which of the two rules a tree breaks."""
    t = unfold(tree)
    out = set()
    classes = {}
    for s, c in terms(t):
        classes.setdefault(s, set()).add(c)
    if any(len(c) > 1 for c in classes.values()):
        out.add("order")

    def go(x):
        if "c" not in x:
            return
        if x["k"] == "and":
            mine = [s for s, _ in terms(x)]

            def ors(y):
                if y["k"] == "or":
                    yield y
                elif y["k"] == "and":
                    for c in y["c"]:
                        yield from ors(c)
            for o in ors(x):
                inner = [s for s, _ in terms(o)]
                if any(mine.count(s) > inner.count(s) for s in inner):
                    out.add("reuse")
        for c in x["c"]:
            go(c)
    go(t)
    return out


# ---------------------------------------------------------------- cases
def make(kinds, groups=None, depth=3, width=3):
    @st.composite
    def strat(draw):
        g = gen.G(draw, groups=draw(groups) if groups is not None else None, kinds=kinds,
                  depth=draw(st.integers(1, depth)), width=width, p_ext=2, unknown=False)
        tree = g.tree(kind=g.pick(["and", "and", "or"]))
        if tree["k"] == "and" and not any(n["k"] == "or" for n in model.walk(tree)) and g.b():
            tree["c"].insert(g.i(0, len(tree["c"])), g.tree(1, [], None, "or"))
        merges = []
        fixed = set()
        for n in model.leaves(tree):
            if n["k"] == "p2":
                fixed.update([n["x"], n["r"]])
            if n["k"] == "bbs" and n["bind"]:
                fixed.update(n["s"][:2])
            if n["k"] == "rng":
                fixed.add(n["x"])
        names = [s for s in dict.fromkeys(model.all_secrets(tree)) if s not in fixed]
        for _ in range(g.pick([0, 1, 1, 1, 2])):
            if len(names) < 2:
                break
            a = g.pick(names)
            # half of the time prefer a partner whose merge breaks a rule
            others = [s for s in names if s != a]
            if g.b():
                bad = [s for s in others if faults(merged(tree, merges + [[a, s]]))]
                others = bad or others
            b = g.pick(others)
            small = g.i(0, 1000)
            for s in component(names, merges + [[a, b]], a):
                g.v[s] = small
            merges.append([a, b])
        return g.case(tree, merges=merges, msg=gen.message(draw), salt2=g.i(0, 99), tries=g.pick([0, 0, 2, 3]))
    return strat()


@st.composite
def deep(draw, kinds=("dl",), groups=None):
    """A conjunction that breaks a rule, one to three levels deep and at any place, the rest legal."""
    g = gen.G(draw, groups=draw(groups), kinds=kinds, depth=0, unknown=False, marks=True, p_ext=2)
    g.share = False

    def leaf(kind=None):
        g.kinds = (kind,) if kind else kinds
        return g.leaf([])

    def insert(cs, c):
        cs.insert(g.i(0, len(cs)), c)
        return cs
    out, ins = leaf("dl"), leaf("dl")
    merges = [[out["t"][0][0], ins["t"][0][0]]]
    what = g.pick(["reuse", "reuse", "twice", "legal"])
    if what == "legal":
        # nothing shared across the border of the disjunction
        tree = {"k": "and", "op": 0, "c": [out, ins, {"k": "or", "op": 0, "c": [leaf(), leaf()]}]}
    elif what == "twice":
        # in two disjunctions of one conjunction
        tree = {"k": "and", "op": 0, "c": [{"k": "or", "op": 0, "c": insert([leaf()], out)},
                                           {"k": "or", "op": 0, "c": insert([leaf()], ins)}]}
    else:
        o = {"k": "or", "op": 0, "c": insert([leaf() for _ in range(g.i(1, 2))], ins)}
        tree = {"k": "and", "op": 0, "c": insert([out] + [leaf() for _ in range(g.i(0, 1))], o)}
    kind = "or"
    for _ in range(g.i(1, 3)):
        tree = {"k": kind, "op": 0, "c": insert([leaf() for _ in range(g.i(1, 2))], tree)}
        kind = g.pick(["or", "and"]) if kind == "and" else "and"
    if g.one_in(3):
        for n in model.walk(tree):
            if n["k"] == "or" and g.b():
                c = g.pick(n["c"])
                c["mark"] = g.pick(["pre", "post"])
    for s in merges[0]:
        g.v[s] = 1 + g.v[merges[0][0]] % 1000
    return g.case(tree, merges=merges, msg=gen.message(draw), salt2=0, what=what, tries=g.pick([0, 0, 2, 3]))


def component(names, merges, a):
    """Secrets joined with a."""
    out = {a}
    for _ in merges:
        for x, y in merges:
            if x in out or y in out:
                out |= {x, y}
    return out


def merged(tree, merges):
    t = gen.clone(tree)
    rep = {}

    def find(x):
        while x in rep:
            x = rep[x]
        return x
    for a, b in merges:
        a, b = find(a), find(b)
        if a != b:
            rep[b] = a
    for n in model.leaves(t):
        for s in set(model.all_secrets(n)):
            if find(s) != s:
                gen.rename(n, s, find(s))
    return t


class Small:
    """Random numbers short enough that responses never wrap around a group order."""

    def __init__(self, r):
        self.r = r

    def randrange(self, n):
        return self.r.randrange(min(n, 1 << 150)) if n > ref.CH else self.r.randrange(n)


def run(case):
    apart = case
    joint = gen.clone(case)
    joint["tree"] = merged(case["tree"], case["merges"])
    if model.provable(apart["tree"], apart["v"], apart["v"]) != "yes":
        return {"not-provable"}
    msg = case["msg"]
    f = faults(joint["tree"])
    require(not faults(apart["tree"]), "generator made an illegal base tree")
    labels = gen.describe(joint) | {"fault:" + x for x in f}
    # the statement with secrets of their own is legal
    party = model.prover_party(apart)
    nizk = must("proving a legal statement", party.prove, None, msg)
    must_accept("legal statement", verify, model.verifier_stmt(apart), nizk, msg)
    jparty = model.prover_party(joint)
    if not f:
        nizk = must("proving a legal statement with reused secrets", jparty.prove, None, msg)
        must_accept("legal statement with reused secrets", verify, model.verifier_stmt(joint), nizk, msg)
        prover = must("get_prover", jparty.get_prover, jparty.build())
        require(prover is not None, "no prover for a legal statement")
        must_accept("legal statement with reused secrets, interactively", interactive, prover,
                    model.verifier_stmt(joint).get_verifier())
        return labels | {"legal"} | ({"nontrivial"} if case["merges"] else set())
    # refused by the prover
    stmt = must("building", jparty.build)
    try:
        nizk = jparty.prove(stmt, msg)
    except Exception:
        nizk = None
    if nizk is not None:
        must_reject("illegal statement, library proof", verify, model.verifier_stmt(joint), nizk, msg)
        require(False, "a proof was produced for an illegal statement")
    # however often it is tried
    for _ in range(case.get("tries", 0)):
        try:
            nizk = jparty.prove(stmt, msg)
        except Exception:
            nizk = None
        require(nizk is None, "a proof was produced for an illegal statement, when tried again")
    try:
        prover = jparty.get_prover(jparty.build())
        prover.precommit()
        prover.commit()
    except Exception:
        prover = None
    require(prover is None, "a prover commits to an illegal statement")
    # refused by the verifier: the transcript of the legal statement fits the equations
    prover = party.get_prover(party.build())
    v = model.verifier_stmt(joint)
    nizk = ref.cross_nizk(prover, v, msg)
    rstmt = ref.constructed(model.verifier_stmt(joint), nizk.precommitment)
    com = ref.recompute(rstmt, nizk.challenge, nizk.responses)
    if ref.check(rstmt, com, nizk.challenge, nizk.responses):
        labels.add("equations-hold")
    must_reject("illegal statement, fitting transcript", verify, v, nizk, msg)
    for _ in range(1 + case.get("tries", 0)):
        must_reject("illegal statement, fitting transcript, again", verify, v, nizk, msg)
    must_reject("illegal statement, interactive run", ref.cross_interactive, party.get_prover(party.build()),
                model.verifier_stmt(joint).get_verifier())
    if all(n["k"] == "dl" for n in model.leaves(joint["tree"])):
        # integer responses that need no reduction, so that they agree across group orders
        v = model.Party(joint, "V", False)
        vs = v.build()
        witness = {v.secrets[s].name: joint["v"][s] for s in v.secrets}
        live = live_paths(joint["tree"])
        rp = ref.RefProver(vs, witness, Small(core.rng()), live=live)
        verifier = vs.get_verifier()
        com = rp.commit()
        c = verifier.send_challenge((vs.prehash_statement().digest(), com))
        resp = rp.respond(c)
        if ref.check(vs, com, c, resp):
            labels.add("integer-responses-fit")
            must_reject("illegal statement, integer responses", verifier.verify, resp)
    return labels | {"nontrivial", "illegal"}


def live_paths(tree):
    """For each disjunction a clause that is true, in the structure the library builds."""
    out = {}

    def flat(n):
        cs = []
        for c in n["c"]:
            if n["op"] and c["k"] == n["k"]:
                cs += flat(c)
            else:
                cs.append(c)
        return cs

    def true(n):
        if n["k"] == "dl":
            return n["off"] == 0
        return (all if n["k"] == "and" else any)([true(c) for c in n["c"]])

    def go(n, path):
        if n["k"] == "dl":
            return
        cs = flat(n)
        if n["k"] == "or":
            ok = [i for i, c in enumerate(cs) if true(c)]
            out[path] = (ok or [0])[0]
        for i, c in enumerate(cs):
            go(c, path + (i,))
    go(tree, ())
    return out


# ---------------------------------------------------------------- construction
@st.composite
def construction(draw):
    g = gen.G(draw, groups=["ec713"])
    what = g.pick(["mixed", "mixed", "same", "few", "rhs"])
    groups = [g.pick(model.EC + model.PAIR) for _ in range(g.i(2, 4))]
    if what == "same":
        groups = groups[:1] * g.i(1, 4)
    return {"what": what, "groups": groups, "i": g.i(0, 30), "op": g.i(0, 1), "pos": g.i(0, 3)}


def fresh_side():
    return model.Side()


def run_construction(case):
    what, i = case["what"], case["i"]
    labels = {"what:" + what}
    side = model.SIDES["P"]
    if what in ("mixed", "same"):
        gs = case["groups"]
        mixed = len(set(gs)) > 1
        secrets = [Secret(value=model.bn(k + 1)) for k in range(len(gs))]
        if case["op"]:
            secrets = [secrets[0]] * len(gs)
        # bases of a group may come from group objects of their own
        bases = [(side if (i >> k) & 1 else fresh_side()).base(g, k) for k, g in enumerate(gs)]
        expr = secrets[0] * bases[0]
        for s, b in zip(secrets[1:], bases[1:]):
            expr = expr + s * b
        lhs = bases[case["pos"] % len(bases)]
        if not mixed:
            lhs = expr.eval()
            stmt = must("a representation over one group", DLRep, lhs, expr)
            must_accept("representation over one group", stmt.verify, must("proving", stmt.prove))
        else:
            try:
                DLRep(lhs, expr)
            except Exception:
                return labels | {"nontrivial", "mixed:%d" % len(set(gs))}
            require(False, "a representation over groups %s was constructed", sorted(set(gs)))
        return labels | {"nontrivial"}
    g = side.base("ec713", 0)
    leaf = lambda: DLRep(model.bn(3) * g, Secret(value=model.bn(3)) * g)
    if what == "few":
        cls = AndProofStmt if case["op"] else OrProofStmt
        args = [leaf() for _ in range(i % 2)]
        if i % 5 == 4 and args:
            args = [leaf() & leaf()]
        try:
            cls(*args)
        except Exception:
            return labels | {"nontrivial", "clauses:%d" % len(args)}
        require(False, "a composition of %d clauses was constructed", len(args))
    s = Secret(value=model.bn(3))
    rhs = [3, g, s, None, "x", [s * g], (s, g), {}, model.bn(3), leaf(), 0.5, b"x", True][i % 13]
    try:
        DLRep(model.bn(3) * g, rhs)
    except Exception:
        return labels | {"nontrivial", "rhs:" + type(rhs).__name__}
    require(False, "a representation with right-hand side %r was constructed", rhs)


ec1 = st.sampled_from([["ec713"], ["ec415"], ["ec713", "ec415"], ["ec704", "ec713"], ["ec409", "ec415"], ["ec415", "ec714"], ["ec713", "ec715"],
                       ["ec716", "ec714"]])
pairs = st.sampled_from([["G1"], ["G1", "G2"], ["G1", "ec713"], ["G2", "GT"], ["GT", "ec415"]])

PROP = Prop("C15", [
    Sub("dl", make(("dl",)), run, 2600, rule="representation trees"),
    Sub("dl2", make(("dl",), ec1, 2), run, 1300, rule="representation trees over two groups"),
    Sub("ext", make(("dl", "dlne", "rng", "p2", "cust"), ec1, 2), run, 900, rule="with primitives"),
    Sub("pair", make(("dl", "bbs", "dlne"), pairs, 1, 3), run, 170, rule="over pairing groups"),
    Sub("deep", deep(groups=st.sampled_from([["ec713"], ["ec415"], ["ec713", "ec415"]])), run, 700, rule="a fault deep in a tree"),
    Sub("deep-ext", deep(("dl", "dlne", "rng", "cust"), st.sampled_from([["ec713"], ["ec415"]])), run, 200, rule="same, with primitives"),
    Sub("construct", construction(), run_construction, 1200, rule="statements refused at construction"),
], rule="A case is a provable tree and up to two pairs of secrets that are made one (across disjunction borders, "
   "groups, inside primitives). A count model tells whether the result is legal. Non-trivial: secrets "
   "were merged; legal results were proved and verified in both modes, illegal ones refused by the prover and, given "
   "transcripts that fit the equations, by the verifier. Or a construction was judged.")
