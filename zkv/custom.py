"""User-defined primitives, generated: subclasses of the documented extension class.

Node: {"k":"cust","g":G,"t":[[secret, base],...],"off":o,"form":F,"inner":I,"cont":C,"cls":0|1|2}
stating lhs = sum of secret*base (+ off*OFF when false).
  form "plain"  only construct_stmt is defined
       "const"  a constant precommitment (falsy values, text, numbers, containers), simulate_precommit
       "pre"    D = lhs + z*h with z revealed, E = k*g with internal secret k; validated; simulatable
  inner "dl" | "and" (a second representation of the first secret) | "or" (with a false clause)
  cont  container of the precommitment
"""
from petlib.bn import Bn
from zksk import DLRep, Secret
from zksk.exceptions import ValidationError
from zksk.extended import ExtendedProofStmt

CONSTS = [[], "", 0, {}, False, None, "text", 12345, -7, [0], [None], {"a": []}, "0", [[], {}],
          {"b": 1, "a": 2}, True, [1, [2, [3]]], "\u00e9", b"", b"\xc0", b"bytes", [b"a", None], {"c": b""},
          (), (1, "t"), bytearray(b"raw"), [("a", (2,)), None], {"t": (0, [bytearray(b"")])}, 1.5, {1: 2}, Bn(77), [Bn(-5), -5]]
CONTAINERS = ["dict", "list", "nested", "deep", "extra", "tuple", "pairs"]


def pack(cont, D, z, E):
    if cont == "dict":
        return {"z": z, "D": D, "E": E}
    if cont == "list":
        return [D, z, E]
    if cont == "nested":
        return [[D], {"z": z}, E]
    if cont == "tuple":
        return (D, z, E)
    if cont == "pairs":
        return [("D", D), (("z", z), {"E": (E, bytearray(b"e"))})]
    if cont == "deep":
        return {"a": {"b": [D, {"c": z}]}, "E": E}
    return [None, "", 0, D, z, E, [], {}]


def unpack(cont, p):
    if cont == "dict":
        return p["D"], p["z"], p["E"]
    if cont in ("list", "tuple"):
        return tuple(p)
    if cont == "pairs":
        return p[0][1], p[1][0][1], p[1][1]["E"][0]
    if cont == "nested":
        return p[0][0], p[1]["z"], p[2]
    if cont == "deep":
        return p["a"]["b"][0], p["a"]["b"][1]["c"], p["E"]
    return p[3], p[4], p[5]


LOG = None      # a list while a check wants to know what the methods got and gave


def log(stmt, event, value):
    if LOG is not None:
        LOG.append((event, stmt.prover, stmt.tag, value))
    return value


class Changed(Exception):
    """The precommitment did not arrive as it was sent."""


def same(a, b):
    """Equal up to what serialisation does not keep: tuples arrive as lists, byte arrays as bytes."""
    if isinstance(b, (list, tuple)):
        return isinstance(a, (list, tuple)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(b, dict):
        return isinstance(a, dict) and set(a) == set(b) and all(same(a[k], b[k]) for k in b)
    if isinstance(b, (bytes, bytearray)):
        return isinstance(a, (bytes, bytearray)) and bytes(a) == bytes(b)
    return type(a) is type(b) and a == b


class Plain(ExtendedProofStmt):
    tag = None

    def __init__(self, prover, inner, lhs, secrets, bases, second, wrong):
        self.prover = prover
        self.inner = inner
        self.lhs = lhs
        self.secrets = secrets
        self.points = bases
        self.second = second      # (value, base) for the first secret
        self.wrong = wrong        # public value of a false clause

    def main(self, lhs):
        expr = self.secrets[0] * self.points[0]
        for s, b in zip(self.secrets[1:], self.points[1:]):
            expr = expr + s * b
        p = DLRep(lhs, expr)
        if self.inner == "and":
            return p & DLRep(self.second[0], self.secrets[0] * self.second[1])
        if self.inner == "or":
            q = DLRep(self.wrong, expr)
            if self.prover:
                q.set_simulated()
            return q | p
        return p

    def construct_stmt(self, precommitment):
        log(self, "construct", precommitment)
        return self.main(self.lhs)

    def validate(self, precommitment, *args, **kwargs):
        log(self, "args", (args, kwargs))
        if "refuse" in args or kwargs.get("allow") is False:
            raise ValidationError("refused for what the verifier was given")


class Const(Plain):
    value = None
    strict = True

    def _same(self, p):
        if not same(p, self.value):
            raise Changed("expected %r, got %r" % (self.value, p))

    def precommit(self):
        return log(self, "made", self.value)

    def simulate_precommit(self):
        return log(self, "made", self.value)

    def construct_stmt(self, precommitment):
        log(self, "construct", precommitment)
        if self.strict:
            self._same(precommitment)
        return self.main(self.lhs)

    def validate(self, precommitment, *args, **kwargs):
        log(self, "validate", precommitment)
        log(self, "args", (args, kwargs))
        if "refuse" in args or kwargs.get("allow") is False:
            raise ValidationError("refused for what the verifier was given")
        if self.strict:
            self._same(precommitment)


class Pre(Plain):
    cont = "dict"
    h = None
    g = None
    cheat = None

    def prepare(self):
        self.k = Secret()
        return self

    def precommit(self):
        q = self.g.group.order()
        z = q.random()
        self.k.value = q.random()
        if self.cheat == "inf":
            self.k.value = 0 * z
        D = self.lhs + z * self.h
        if self.cheat == "shift":
            # satisfies the representation for the prover's values instead of the public one
            D = self.actual + z * self.h
        return log(self, "made", pack(self.cont, D, z, self.k.value * self.g))

    def simulate_precommit(self):
        q = self.g.group.order()
        z = q.random()
        D, k = self.lhs + z * self.h, q.random()
        if self.cheat == "inf":
            k = 0 * z
        if self.cheat == "shift":
            D = D + self.g
        return log(self, "made", pack(self.cont, D, z, k * self.g))

    def construct_stmt(self, precommitment):
        log(self, "construct", precommitment)
        D, z, E = unpack(self.cont, precommitment)
        return self.main(D - z * self.h) & DLRep(E, self.k * self.g)

    def validate(self, precommitment, *args, **kwargs):
        log(self, "validate", precommitment)
        log(self, "args", (args, kwargs))
        if "refuse" in args or kwargs.get("allow") is False:
            raise ValidationError("refused for what the verifier was given")
        D, z, E = unpack(self.cont, precommitment)
        if D != self.lhs + z * self.h:
            raise ValidationError("D is not a blinding of the public value")
        if E == self.g.group.infinite():
            raise ValidationError("E is the neutral element")


class PlainTwo(Plain):
    pass


class ConstTwo(Const):
    pass


class PreTwo(Pre):
    pass


class ConstNoSim(Const):
    simulate_precommit = ExtendedProofStmt.simulate_precommit


class PreNoSim(Pre):
    simulate_precommit = ExtendedProofStmt.simulate_precommit


def draw(g, pool, gid):
    form = g.pick(["plain", "const", "pre", "pre"])
    inner = g.pick(["dl", "dl", "and", "or"])
    from zkv import model
    c = model.cls(gid)
    n = g.pick([1, 1, 2])
    if inner == "or":
        names = [g.new_secret(c) for _ in range(n)]
        g.protected.update(names)
    else:
        names = [g.secret(c, pool) for _ in range(n)]
    return {"k": "cust", "g": gid, "t": [[s, g.i(0, 4)] for s in names], "off": 0, "form": form,
            "inner": inner, "cont": g.pick(CONTAINERS) if form == "pre" else g.i(0, len(CONSTS) - 1),
            "two": g.i(0, 1)}


def build(party, node):
    from zkv import model
    side, gid = party.side, node["g"]
    lhs = side.lincomb(gid, model.pub_terms(node, party.public, "lhs"))
    secrets = [party.secrets[s] for s, _ in node["t"]]
    bases = [side.base(gid, b) for _, b in node["t"]]
    first = node["t"][0][0]
    second = (side.lincomb(gid, [(party.public[first], 4)]), side.base(gid, 4))
    wrong = side.lincomb(gid, model.pub_terms(dict(node, off=node["off"] + 1), party.public, "lhs"))
    two = node.get("two")
    cls = {"plain": (Plain, PlainTwo), "const": (Const, ConstTwo), "pre": (Pre, PreTwo)}[node["form"]][two]
    if node.get("nosim"):
        cls = {"plain": cls, "const": ConstNoSim, "pre": PreNoSim}[node["form"]]
    stmt = cls(party.prover, node["inner"], lhs, secrets, bases, second, wrong)
    stmt.tag = node.get("tag")
    if node["form"] == "const":
        stmt.strict = not node.get("lax")
        stmt.value = CONSTS[node["cont"]]
    if node["form"] == "pre":
        stmt.cont = node["cont"]
        stmt.g, stmt.h = side.base(gid, 0), side.base(gid, 3)
        stmt.prepare()
        if party.prover and node.get("cheat"):
            stmt.cheat = node["cheat"]
            stmt.actual = side.lincomb(gid, [(party.values[s], b) for s, b in node["t"]])
    return stmt
