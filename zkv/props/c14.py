"""C14 Composition operators mean what they say and isolate their operands."""
from hypothesis import strategies as st
from zksk.composition import AndProofStmt, OrProofStmt

from zkv import gen, model
from zkv.core import Prop, Sub, must, must_accept, must_reject, require
from zkv.proto import interactive, verify

MAX = 9


def make(kinds, groups=None, leaves=4, ops=12):
    @st.composite
    def strat(draw):
        g = gen.G(draw, groups=draw(groups) if groups is not None else None, kinds=kinds, p_ext=2)
        pool = []
        ls = []
        for _ in range(g.i(2, leaves)):
            n = g.leaf(pool if g.one_in(4) else [])
            if n["k"] in ("dl", "dlne") and g.one_in(4):
                g.falsify(n)
            ls.append(n)
        seq = []
        for j in range(g.i(2, ops)):
            what = g.pick(["and", "or"]) if j < 2 else g.pick(
                ["and", "or", "and", "or", "mark", "mark", "markchild", "markchild", "prove", "prove", "int", "sim",
                 "reverify", "wrong", "take", "self"])
            seq.append([what, g.i(0, 2), [g.i(0, 30) for _ in range(g.i(2, 4))]])
        # the operands live together in one tree, which gives them values and secrets
        return g.case({"k": "and", "op": 0, "c": ls}, ops=seq)
    return strat()


# ---------------------------------------------------------------- model
def leaf_model(i, n):
    if n["k"] == "rng":
        return {"k": "and", "m": False, "c": [{"k": "leaf", "i": i, "part": j, "m": False} for j in range(3)]}
    return {"k": "leaf", "i": i, "part": None, "m": False}


def size(t):
    return sum(size(c) for c in t["c"]) if "c" in t else 1


def compose(k, form, parts):
    """The composition of model trees; operators merge operands of the same kind."""
    out = []
    for p in parts:
        p = gen.clone(p)
        out += p["c"] if form != "ctor" and p["k"] == k else [p]
    return {"k": k, "m": False, "c": out}


def leaf_secrets(t, ls):
    n = ls[t["i"]]
    k = n["k"]
    if k == "dlne":
        return [n["x"]] if n["bind"] else []
    if t["part"] is not None:
        return [n["x"], n["r"]] if t["part"] == 0 else []
    if k == "p2":
        return []
    return list(n["s"]) if k == "bbs" else [s for s, _ in n["t"]]


def secrets(t, ls):
    return sum([secrets(c, ls) for c in t["c"]], []) if "c" in t else leaf_secrets(t, ls)


def legal(t, ls):
    """No secret both in a disjunction and elsewhere in the enclosing conjunction."""
    if "c" not in t:
        return True
    if t["k"] == "and":
        mine = secrets(t, ls)

        def ors(x):
            if x["k"] == "or":
                yield x
            elif x["k"] == "and":
                for c in x["c"]:
                    yield from ors(c)
        for o in ors(t):
            inner = secrets(o, ls)
            if any(mine.count(s) > inner.count(s) for s in set(inner)):
                return False
    return all(legal(c, ls) for c in t["c"])


def usable(t):
    if t["m"]:
        return False
    if "c" not in t:
        return True
    return (all if t["k"] == "and" else any)([usable(c) for c in t["c"]])


def truth(t, case):
    """yes / no / maybe, as model.provable. A mark concerns the disjunction around it: what a marked
    statement does outside disjunctions is left open."""
    if t["m"]:
        return "maybe"
    if t["k"] == "leaf":
        if t.get("w"):
            return "maybe"
        if t["part"] is not None:
            return "yes"
        return "yes" if model.leaf_true(case["tree"]["c"][t["i"]], case["v"], case["v"]) else "no"
    if t["k"] == "and":
        r = [truth(c, case) for c in t["c"]]
        return "no" if "no" in r else ("maybe" if "maybe" in r else "yes")
    r = [truth(c, case) for c in t["c"] if usable(c)]
    if all(x == "no" for x in r):
        return "no"
    return "yes" if all(x == "yes" for x in r) else "maybe"


def reference(case, t, side="V"):
    """The statement of a model tree, with constructors, from nothing. Each leaf is built once: a
    signature statement that is not binding has secrets of its own per object."""
    party = model.Party(case, side, False)
    built = {}

    def go(x):
        if x["k"] == "leaf":
            if x["i"] not in built:
                built[x["i"]] = party.build(case["tree"]["c"][x["i"]])
            s = built[x["i"]]
            return s if x["part"] is None else s.subproofs[x["part"]]
        return (AndProofStmt if x["k"] == "and" else OrProofStmt)(*[go(c) for c in x["c"]])
    return go(t)


def look(stmt):
    """Structure and marks of a statement."""
    if isinstance(stmt, (AndProofStmt, OrProofStmt)):
        return ("and" if isinstance(stmt, AndProofStmt) else "or", bool(stmt.simulated),
                [look(s) for s in stmt.subproofs])
    return (type(stmt).__name__, bool(stmt.simulated), atom(stmt))


def atom(stmt):
    """Public values of a statement that is no composition, as far as its attributes show them."""
    out = []
    for name in ("lhs", "bases", "secret_vars", "com", "num_bits", "g", "h", "bind"):
        for v in as_list(stmt.__dict__.get(name)):
            out.append(bytes(v.export()) if hasattr(v, "export") else getattr(v, "name", v))
    return out


def as_list(v):
    return list(v) if isinstance(v, (list, tuple)) else [v]


def expected(t, atoms):
    if t["k"] == "leaf":
        name, a = atoms[(t["i"], t["part"])]
        return (name, t["m"], a)
    return (t["k"], t["m"], [expected(c, atoms) for c in t["c"]])


class World:
    def __init__(self, case):
        self.case = case
        self.party = model.prover_party(case)
        self.ls = case["tree"]["c"]
        self.objs, self.models, self.proofs = [], [], []
        self.atoms = {}
        self.pure = all(n["k"] == "dl" for n in self.ls)
        for i, n in enumerate(self.ls):
            s = self.party.build(n)
            self.add(s, leaf_model(i, n))
            if n["k"] == "rng":
                for j, p in enumerate(s.subproofs):
                    self.atoms[(i, j)] = (type(p).__name__, atom(p))
            else:
                self.atoms[(i, None)] = (type(s).__name__, atom(s))

    def add(self, obj, m):
        self.objs.append(obj)
        self.models.append(m)

    def check(self, after):
        for j, (o, m) in enumerate(zip(self.objs, self.models)):
            require(look(o) == expected(m, self.atoms), "after %s, statement %d is no longer what it was", after, j)

    def any(self, k):
        return k % len(self.objs)


def prove(w, j, labels):
    obj, m = w.objs[j], w.models[j]
    can = truth(m, w.case) if legal(m, w.ls) else "no"
    labels.add("prove:" + can)
    if can == "yes":
        nizk = must("proving a composed statement", w.party.prove, obj)
        must_accept("proof of a composed statement on its constructor form", verify, reference(w.case, m), nizk)
        w.proofs.append((j, nizk))
        return
    try:
        nizk = w.party.prove(obj)
    except Exception:
        return
    if nizk is not None and can == "no":
        must_reject("proof of a composed statement that is not provable", verify, reference(w.case, m), nizk)


def step(w, op, labels):
    what, form, idx = op
    if what == "self":
        # a composition extended with one of its own components
        j = w.any(idx[0])
        m = w.models[j]
        if "c" not in m:
            return
        i = idx[1] % len(m["c"])
        w.add(w.objs[j].subproofs[i], m["c"][i])
        idx = [j, len(w.objs) - 1] if idx[1] % 2 else [len(w.objs) - 1, j]
        what, form = m["k"] if form else ("and" if m["k"] == "or" else "or"), 0
        labels.add("own-component")
    if what in ("and", "or"):
        js = [w.any(i) for i in idx]
        form = ["op", "ctor", "op"][form]
        if form == "op":
            js = js[:2]
        parts = [w.models[j] for j in js]
        if sum(size(p) for p in parts) > MAX:
            return
        if form == "op" and any(p["k"] == what and p["m"] for p in parts):
            return                 # a mark on a composition that is dissolved
        if len(set(js)) < len(js):
            labels.add("repeated-object")
        objs = [w.objs[j] for j in js]
        if form == "op":
            new = must("composing", (lambda a, b: a & b) if what == "and" else (lambda a, b: a | b), *objs)
        else:
            new = must("composing", AndProofStmt if what == "and" else OrProofStmt, *objs)
        m = compose(what, form, parts)
        if len(m["c"]) > len(js):
            labels.add("flattened")
        w.add(new, m)
        labels.add("form:" + form)
    elif what == "take":
        # a component of a composition becomes an operand like any other
        j = w.any(idx[0])
        o, m = w.objs[j], w.models[j]
        for i in idx[1:]:
            if "c" not in m:
                break
            i %= len(m["c"])
            o, m = o.subproofs[i], m["c"][i]
        if m is not w.models[j]:
            w.add(o, m)
            labels.add("taken")
    elif what in ("mark", "markchild"):
        j = w.any(idx[0])
        o, m = w.objs[j], w.models[j]
        if what == "markchild":
            for i in idx[1:]:
                if "c" not in m:
                    break
                i %= len(m["c"])
                o, m = o.subproofs[i], m["c"][i]
        value = form != 2
        o.set_simulated(value)
        m["m"] = value
    elif what == "prove":
        prove(w, w.any(idx[0]), labels)
    elif what == "int":
        j = w.any(idx[0])
        m = w.models[j]
        if legal(m, w.ls) and truth(m, w.case) == "yes":
            prover = must("get_prover", w.party.get_prover, w.objs[j])
            require(prover is not None, "no prover for a provable composition")
            must_accept("interactive run of a composed statement", interactive, prover,
                        reference(w.case, m).get_verifier())
            labels.add("int")
    elif what == "sim":
        j = w.any(idx[0])
        m = w.models[j]
        if legal(m, w.ls):
            t = must("simulating a composed statement", w.objs[j].simulate)
            require(must("consistency check", reference(w.case, m).verify_simulation_consistency, t) is True,
                    "simulation of a composed statement does not fit its constructor form")
    elif what == "wrong" and w.pure:
        # other values, given to this object only
        j = w.any(idx[0])
        values = {s: s.value for s in w.party.secrets.values()}
        names = {x for x in secrets(w.models[j], w.ls)}
        bad = {w.party.secrets[n]: model.bn(w.case["v"][n] + 1 + idx[1] * (k + 1)) for k, n in enumerate(sorted(names))}
        try:
            w.objs[j].prove(bad)
        except Exception:
            pass
        for s, v in values.items():
            s.value = v
        taint(w.models[j])
        labels.add("wrong-values")
    elif what == "reverify" and w.proofs:
        j, nizk = w.proofs[idx[0] % len(w.proofs)]
        must_accept("earlier proof on the composed object", verify, w.objs[j], nizk)
        for k, m in enumerate(w.models):
            if k != j and shape(m) != shape(w.models[j]):
                if w.pure:
                    same = (w.objs[k].prehash_statement().digest() == w.objs[j].prehash_statement().digest())
                    if same:
                        continue
                must_reject("proof of one composition on another", verify, w.objs[k], nizk)
                labels.add("cross")
                break


def taint(m):
    """The object was given other values; what it does with its own from now on is left open."""
    if "c" in m:
        for c in m["c"]:
            taint(c)
    else:
        m["w"] = True


def shape(m):
    if "c" in m:
        return (m["k"], tuple(shape(c) for c in m["c"]))
    return (m["i"], m["part"])


def run(case):
    labels = gen.describe(case) - {"kind:and", "depth:1"}
    w = World(case)
    for op in case["ops"]:
        step(w, op, labels)
        labels.add("op:" + op[0])
        w.check(op[0])
    for j, (o, m) in enumerate(zip(w.objs, w.models)):
        if w.pure:
            require(o.prehash_statement().digest() == reference(case, m).prehash_statement().digest(),
                    "a composition and its constructor form have different digests")
        if len(w.objs) - j <= 4 or j < 2:
            prove(w, j, labels)
    w.check("proving everything")
    if max(size(m) for m in w.models) > 1:
        labels.add("nontrivial")
    return labels


ec1 = st.sampled_from([[g] for g in gen.FAST])
pairs = st.sampled_from([["G1"], ["G1", "G2"], ["G2"], ["GT"]])

PROP = Prop("C14", [
    Sub("dl", make(("dl",)), run, 2200, rule="representations"),
    Sub("ext", make(("dl", "dlne", "rng", "p2"), ec1, 3, 10), run, 900, rule="with primitives"),
    Sub("pair", make(("dl", "bbs"), pairs, 3, 7), run, 110, rule="over pairing groups"),
], rule="A case is a pool of statements and a sequence of compositions (with operators and constructors, of any "
   "earlier objects, also repeated), marks on objects and their clauses, proofs, simulations and interactive runs. "
   "After each operation the structure and marks of every object are compared with a model in which a composition "
   "owns copies. Non-trivial: something was composed and judged.")
