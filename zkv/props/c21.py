"""C21 Expressions behave as ordered linear combinations."""
import copy
import os
import pickle
import random

from hypothesis import strategies as st

from zksk import DLRep, Secret
from zksk.exceptions import IncompleteValuesError
from zksk.expr import Expression, update_secret_values, wsum_secrets

from zkv import core, gen, model
from zkv.core import Prop, Sub, accepted, must, must_accept, must_reject, require
from zkv.model import bn
from zkv.proto import verify

OPS = ["mul", "rmul", "ctor", "add", "add", "add", "add", "double", "iadd", "wsum", "wsum", "wsum-regs", "eval", "set",
       "bad", "stmt", "prove", "read"]
BAD = ["secret", "int", "str", "none", "point", "list", "radd-int", "ctor-int", "ctor-swap", "secret+secret", "product",
       "nested", "scalar-base", "len", "empty", "mixed", "dl-point", "scaled", "minus"]


@st.composite
def program(draw):
    g = gen.G(draw, groups=[draw(st.sampled_from(gen.FAST[:4] + ["G1", "G2", "GT"]))])
    gid = g.groups[0]
    n = g.i(1, 5)
    secrets = []
    for i in range(n):
        secrets.append({"name": g.pick([None, None, "s%d" % i, "x", ""]), "v": g.pick([None, g.value(model.cls(gid)), g.value(model.cls(gid))]),
                        "small": g.i(0, 1)})
    ops = []
    for _ in range(g.i(3, 14)):
        op = g.pick(OPS)
        m = g.i(1, 4)
        ops.append({"op": op, "a": g.i(0, 30), "b": g.i(0, 30), "s": [g.i(0, n - 1) for _ in range(m)],
                    "p": [g.i(0, 4) for _ in range(m)], "bad": g.pick(BAD), "v": g.value(model.cls(gid)), "f": g.i(0, 3)})
    return {"g": gid, "secrets": secrets, "ops": ops, "salt": g.i(0, 1 << 16)}


def num(v, small):
    return int(v) if small and abs(v) < 2 ** 31 else bn(v)


def reject(what, fn):
    try:
        r = fn()
    except core.Violation:
        raise
    except Exception:
        return
    raise core.Violation("%s was accepted: %r" % (what, r))


def run_program(case):
    gid = case["g"]
    side = model.SIDES["P"]
    q = model.order(gid)
    secrets, values = [], []
    for d in case["secrets"]:
        v = d["v"]
        s = Secret(name=d["name"]) if v is None else Secret(num(v, d["small"]), d["name"])
        require(d["name"] is None or s.name == d["name"], "name of a secret")
        secrets.append(s)
        values.append(v)
    names = [s.name for s in secrets]
    # identity of secrets
    for i, s in enumerate(secrets):
        for j, t in enumerate(secrets):
            if i == j:
                require(s == t and hash(s) == hash(t), "a secret differs from itself")
            elif names[i] != names[j]:
                require(s != t and not s == t, "secrets with different names are equal")
            elif values[i] == values[j]:
                require(s == t and hash(s) == hash(t), "secrets with one name and value differ")
            else:
                require(not s == t, "secrets with different values are equal")
    for i, d in enumerate(case["secrets"]):
        require(d["name"] is not None or names.count(names[i]) == 1, "anonymous secrets share a name")
    regs = []       # (expression, [(secret index, base index)])
    labels = {"group:" + ("ec" if gid.startswith("ec") else gid)}
    base = lambda i: side.base(gid, i)
    marks = [bytes(base(i).export()) for i in range(5)]

    def same(e, terms, what):
        require(isinstance(e, Expression), "%s: not an expression", what)
        ss, bs = e.secrets, e.bases
        require(len(ss) == len(bs) == len(terms), "%s: %d secrets, %d bases for %d terms", what, len(ss), len(bs), len(terms))
        for k, (i, b) in enumerate(terms):
            require(ss[k] is secrets[i], "%s: secret %d is another one", what, k)
            require(bytes(bs[k].export()) == marks[b], "%s: base %d is another one", what, k)

    def put(e, terms, what):
        regs.append((e, list(terms)))
        for e2, t2 in regs:
            same(e2, t2, what)
        if len(terms) > 2:
            labels.add("long")

    def total(terms):
        return side.lincomb(gid, [(values[i], b) for i, b in terms])

    put(secrets[0] * base(0), [(0, 0)], "product")
    for o in case["ops"]:
        op = o["op"]
        e1, t1 = regs[o["a"] % len(regs)]
        e2, t2 = regs[o["b"] % len(regs)]
        i, p = o["s"][0], o["p"][0]
        labels.add("op:" + op)
        if op == "mul":
            put(must("secret * base", lambda: secrets[i] * base(p)), [(i, p)], "product")
        elif op == "rmul":
            put(must("base * secret", lambda: base(p) * secrets[i]), [(i, p)], "product")
        elif op == "ctor":
            put(must("Expression()", Expression, secrets[i], base(p)), [(i, p)], "constructor")
        elif op == "add" and len(t1) + len(t2) < 24:
            put(must("sum", lambda: e1 + e2), t1 + t2, "sum")
        elif op == "double" and len(t1) < 12:
            put(must("sum", lambda: e1 + e1), t1 + t1, "sum with itself")
        elif op == "iadd" and len(t1) + len(t2) < 24:
            e = e1
            e += e2
            put(e, t1 + t2, "+=")
        elif op == "wsum":
            ss, bs = [secrets[j] for j in o["s"]], [base(j) for j in o["p"]]
            ss2, bs2 = list(ss), list(bs)
            put(must("wsum_secrets", wsum_secrets, ss, bs), list(zip(o["s"], o["p"])), "wsum_secrets")
            require(ss == ss2 and bs == bs2, "wsum_secrets changed its arguments")
        elif op == "wsum-regs":
            # from the lists of an existing expression
            put(must("wsum_secrets", wsum_secrets, e1.secrets, e1.bases), t1, "wsum_secrets of parts")
        elif op == "read":
            l, b = e1.secrets, e1.bases
            for x in (l, b):
                try:
                    x.append(x[0])
                except AttributeError:
                    pass
            same(e1, t1, "after changing the lists it returned")
        elif op == "set":
            values[i] = o["v"]
            if o["f"] == 0:
                secrets[i].value = num(o["v"], 1)
            elif o["f"] == 3:
                values[i] = None
                secrets[i].value = None
            else:
                update_secret_values({secrets[i]: num(o["v"], o["f"] == 1)})
                require(secrets[i].value is not None and int(secrets[i].value) == o["v"], "value after an update")
        elif op == "eval":
            known = all(values[j] is not None for j, _ in t1)
            if known:
                r = must("evaluation", e1.eval)
                require(r == total(t1), "evaluation differs from the sum")
                labels.add("evaluated")
            else:
                try:
                    e1.eval()
                except IncompleteValuesError:
                    labels.add("incomplete")
                else:
                    raise core.Violation("evaluated without all values")
            same(e1, t1, "after evaluation")
        elif op == "bad":
            labels.add("bad:" + o["bad"])
            bad(o, gid, e1, secrets[i], base(p), side, labels)
        elif op in ("stmt", "prove"):
            if any(values[j] is None for j, _ in t1 + t2) or len({names[j] for j, _ in t1 + t2}) < len({j for j, _ in t1 + t2}):
                continue
            s1, s2 = DLRep(total(t1), e1), DLRep(total(t2), e2)
            for s, t in ((s1, t1), (s2, t2)):
                require([x.name for x in s.secret_vars] == [names[j] for j, _ in t], "secrets of a statement")
                require([bytes(x.export()) for x in s.bases] == [marks[b] for _, b in t], "bases of a statement")
            if op == "prove" and len(t1) + len(t2) < 12 and not labels & {"proved"}:
                both = s1 & DLRep(total(t2), e2) if o["f"] % 2 else s1
                m = {secrets[j]: bn(values[j]) for j, _ in t1 + (t2 if o["f"] % 2 else [])}
                nizk = must("proving with shared expressions", both.prove, m)
                must_accept("statement over shared expressions", verify, both, nizk)
                labels.add("proved")
                for j, _ in t1 + t2:
                    # proving with a mapping stores the values
                    if secrets[j].value is not None:
                        require((int(secrets[j].value) - values[j]) % q == 0, "a value changed while proving")
            same(e1, t1, "after building a statement")
            same(e2, t2, "after building a statement")
    for e, t in regs:
        same(e, t, "at the end")
        if all(values[j] is not None for j, _ in t):
            require(must("evaluation", e.eval) == total(t), "evaluation at the end differs from the sum")
    require([bytes(base(i).export()) for i in range(5)] == marks, "a base changed")
    require([s.name for s in secrets] == names, "a name changed")
    if len(regs) > 2:
        labels.add("nontrivial")
    return labels


def bad(o, gid, e, s, p, side, labels):
    """Things that are not linear combinations."""
    how = o["bad"]
    lhs = side.lincomb(gid, [(1, 0)])
    if how in ("secret", "int", "str", "none", "point", "list"):
        other = {"secret": s, "int": 0, "str": "g", "none": None, "point": p, "list": [e]}[how]
        reject("expression + %s" % how, lambda: e + other)
        reject("%s + expression" % how, lambda: other + e)
    elif how == "radd-int":
        reject("sum() of expressions starting with 0", lambda: sum([e, e]))
    elif how == "ctor-int":
        reject("Expression(number, base)", lambda: Expression(5, p))
    elif how == "ctor-swap":
        reject("Expression(base, secret)", lambda: Expression(p, s))
    elif how == "secret+secret":
        reject("secret + secret", lambda: s + s)
    elif how == "product":
        reject("a statement about a product of secrets", lambda: DLRep(lhs, s * s))
    elif how == "nested":
        reject("a statement about a product of a secret and an expression", lambda: DLRep(lhs, s * e))
        reject("a statement about a product of an expression and a secret", lambda: DLRep(lhs, e * s))
    elif how == "scalar-base":
        reject("a statement about secret * number", lambda: DLRep(lhs, s * 5))
    elif how == "len":
        reject("wsum_secrets with too few bases", lambda: wsum_secrets([s, s], [p]))
        reject("wsum_secrets with too many bases", lambda: wsum_secrets([s], [p, p]))
    elif how == "empty":
        reject("wsum_secrets of nothing", lambda: wsum_secrets([], []))
    elif how == "mixed":
        other = side.base("ec713" if gid != "ec713" else "ec415", 1)
        t = Secret()
        reject("a statement with bases of two groups", lambda: DLRep(lhs, e + t * other))
        reject("a statement with bases of two groups", lambda: DLRep(lhs, t * other + e))
        if gid in model.PAIR:
            for h in model.PAIR:
                if h != gid:
                    reject("a statement with bases of two pairing groups", lambda: DLRep(lhs, e + t * side.base(h, 1)))
    elif how == "dl-point":
        reject("a statement about a point", lambda: DLRep(lhs, p))
        reject("a statement about a secret", lambda: DLRep(lhs, s))
    elif how == "scaled":
        reject("a statement about a scaled expression", lambda: DLRep(lhs, 2 * e))
        reject("a statement about a scaled expression", lambda: DLRep(lhs, e * 2))
    elif how == "minus":
        reject("a difference of expressions", lambda: DLRep(lhs, e - e))


# ---------------------------------------------------------------- names
@st.composite
def identity(draw):
    g = gen.G(draw, groups=["ec713"])
    n = g.i(2, 6)
    names = [g.pick([None, "a", "b", "A", "a ", "", "0", "é"]) for _ in range(n)]
    return {"names": names, "v": g.i(1, 30), "bases": [g.i(0, 4) for _ in range(n)], "m": g.i(20, 120),
            "salt": g.i(0, 1 << 16)}


def run_identity(case):
    """Statements identify secrets by name: one response per name, and a joint proof for two names is not one for one."""
    side = model.SIDES["P"]
    names = case["names"]
    labels = {"names:%d" % len(set(names) - {None}), "nontrivial"}
    many = [Secret() for _ in range(case["m"])]
    require(len({s.name for s in many}) == len(many) == len(set(many)), "anonymous secrets share a name")
    secrets = [Secret(case["v"], x) for x in names]
    ids = [s.name for s in secrets]
    require(len({i for i, n in zip(ids, names) if n is None}) == names.count(None), "anonymous secrets share a name")
    require(len(set(secrets)) == len(set(ids)), "a set of secrets")
    lookup = {s: s.name for s in secrets}
    for s in secrets:
        require(lookup[s] == s.name and lookup[Secret(case["v"], s.name)] == s.name, "lookup of a secret by name")
    require(Secret(case["v"]) not in lookup, "an anonymous secret was found among others")
    lhs = side.lincomb("ec713", [(case["v"], b) for b in case["bases"]])
    stmt = DLRep(lhs, wsum_secrets(secrets, [side.base("ec713", b) for b in case["bases"]]))
    nizk = must("proving", stmt.prove)
    must_accept("statement", verify, stmt, nizk)
    seen = {}
    for i, r in zip(ids, nizk.responses):
        require(seen.setdefault(i, int(r)) == int(r), "one name with two responses")
    require(len(set(seen.values())) == len(seen), "two names with one response")
    if len(set(ids)) < len(ids):
        labels.add("shared-name")
    return labels


@st.composite
def crowd(draw):
    g = gen.G(draw, groups=["ec713"])
    return {"n": g.pick([3000, 10000, 20000]), "salt": g.i(0, 1 << 16)}


def run_crowd(case):
    """Many secrets alive at once."""
    many = [Secret(3) for _ in range(case["n"])]
    require(len({s.name for s in many}) == len(many), "anonymous secrets share a name")
    require(len(set(many)) == len(many), "anonymous secrets are the same")
    require(len({id(s): s for s in {s: s for s in many}}) == len(many), "anonymous secrets are mixed up in a mapping")
    return {"nontrivial"}


# ---------------------------------------------------------------- secrets that outlive others
@st.composite
def gone(draw):
    g = gen.G(draw, groups=["ec713"])
    return {"how": g.pick(["name", "copy", "pickle", "deepcopy", "fork", "expr"]), "n": g.i(1, 30), "later": g.i(1, 60),
            "v": g.i(2, 40), "w": g.i(41, 90), "chunk": g.i(1, 5), "salt": g.i(0, 1 << 16)}


def forked(n, value):
    """Secrets made in a process of its own and sent here."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            # its randomness is its own
            os.urandom = random._urandom = core._orig_urandom
            with os.fdopen(w, "wb") as f:
                f.write(pickle.dumps([Secret(value) for _ in range(n)]))
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data)


def survive(how, value):
    s = Secret(value)
    if how == "name":
        return Secret(value, s.name)
    if how == "copy":
        return copy.copy(s)
    if how == "deepcopy":
        return copy.deepcopy(s)
    if how == "pickle":
        return pickle.loads(pickle.dumps(s))
    # what an expression keeps, once the caller's own object has gone
    return (s * model.SIDES["P"].base("ec713", 0)).secrets[0]


def run_gone(case):
    """Copies of secrets, whose originals have gone or are in another process, are other secrets than those made later."""
    side = model.SIDES["P"]
    how = case["how"]
    if how == "fork":
        kept = forked(case["n"], case["v"])
        if case["chunk"] > 2:
            kept += forked(case["n"], case["v"])
    else:
        kept = [survive(how, case["v"]) for _ in range(case["n"])]
    later = [Secret(case["w"]) for _ in range(case["later"])]
    everyone = kept + later
    require(len({s.name for s in everyone}) == len(everyone), "an anonymous secret has the name of one made before")
    require(len(set(everyone)) == len(everyone), "an anonymous secret is one made before")
    g, h = side.base("ec713", 0), side.base("ec713", 1)
    for a, b in list(zip(kept, later))[:2]:
        stmt = DLRep(side.lincomb("ec713", [(case["v"], 0)]), a * g) & DLRep(side.lincomb("ec713", [(case["w"], 1)]), b * h)
        must_accept("statement about a copied secret and another", verify, stmt, must("proving", stmt.prove))
        must_reject("one value for two secrets", lambda: one_value(case, g, h))
    return {"nontrivial", "kept:" + how}


def one_value(case, g, h):
    """A statement that one secret has both values, proved with two."""
    x = Secret(case["v"])
    stmt = DLRep(case["v"] * g, x * g) & DLRep(case["w"] * h, x * h)
    return stmt.verify(stmt.prove())


PROP = Prop("C21", [
    Sub("program", program(), run_program, 3600, rule="operation sequences against lists of terms"),
    Sub("identity", identity(), run_identity, 500, rule="names decide which secrets are the same"),
    Sub("gone", gone(), run_gone, 300, rule="copies of secrets that have gone, and secrets of other processes"),
    Sub("crowd", crowd(), run_crowd, 40, rule="thousands of anonymous secrets"),
], rule="A program builds expressions from expressions, evaluates, changes values, builds statements and tries things that are "
   "not linear combinations. After every step every expression ever made is compared with its list of terms. Non-trivial: "
   "at least two expressions besides the first were made.")
