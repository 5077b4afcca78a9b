"""C20 Pairing groups obey group laws and survive encoding."""
from bplib.bp import BpGroup
from hypothesis import strategies as st
from petlib.pack import decode, encode

from zksk.pairings import BilinearGroupPair

from zkv import core, gen, model
from zkv.core import Prop, Sub, accepted, must, require
from zkv.model import bn

# the curve of the library, for the integer reference
P = 0x2523648240000001BA344D80000000086121000000000013A700000000000013
Q = 0x2523648240000001BA344D8000000007FF9F800000000010A10000000000000D


def ec_add(a, b):
    if a is None:
        return b
    if b is None:
        return a
    if a[0] == b[0]:
        if (a[1] + b[1]) % P == 0:
            return None
        l = 3 * a[0] * a[0] * pow(2 * a[1], -1, P) % P
    else:
        l = (b[1] - a[1]) * pow(b[0] - a[0], -1, P) % P
    x = (l * l - a[0] - b[0]) % P
    return x, (l * (a[0] - x) - a[1]) % P


def ec_mul(k, a):
    k %= Q
    out = None
    while k:
        if k & 1:
            out = ec_add(out, a)
        a = ec_add(a, a)
        k >>= 1
    return out


def text1(k):
    """Text form of a multiple of the generator of G1, by integer arithmetic."""
    pt = ec_mul(k, (P - 1, 1))
    return b"\x00" if pt is None else bytes([2 + (pt[1] & 1)]) + pt[0].to_bytes(32, "big")


# A point is described by its coefficients over the generator and hash points of G1 (GT: their pairings)
HASHES = 2
NAMES = ["G1", "G2", "GT"]
OPS = ["gen", "inf", "hash", "add", "add", "sub", "mul", "mul", "mul", "rmul", "sum", "wsum", "wsum", "pair", "pair",
       "code", "code", "codes", "self", "neg"]


def scalar(g):
    k = g.i(0, 8)
    if k <= 1:
        return g.i(-3, 3)
    if k == 2:
        return g.pick([Q, Q - 1, Q + 1, -Q, 2 * Q, -Q - 1, Q // 2, 2 * Q + 1, Q * Q])
    if k == 3:
        return g.pick([2 ** 31 - 1, -(2 ** 31) + 1, 2 ** 31, -(2 ** 31), 2 ** 64, -(2 ** 200), 2 ** 254, 2 ** 255, 2 ** 256, 2 ** 256 - 1])
    if k == 4:
        return -g.i(1, Q - 1)
    if k == 5:
        return g.i(Q, 2 ** 300)
    return g.i(0, Q - 1)


@st.composite
def program(draw):
    g = gen.G(draw, groups=["G1"])
    ops = []
    for _ in range(g.i(4, 16)):
        op = g.pick(OPS)
        n = g.i(0, 4) if op in ("sum", "wsum", "codes") else 2
        ops.append({"op": op, "g": g.pick(NAMES), "b": g.i(0, 1), "r": [g.i(0, 30) for _ in range(n)],
                    "s": [scalar(g) for _ in range(n)], "t": g.i(0, 1)})
    return {"ops": ops, "shared": g.i(0, 1), "salt": g.i(0, 1 << 16)}


def num(v, small):
    return int(v) if small and abs(v) < 2 ** 31 else bn(v)


def text(p):
    return bytes(p.export())


def run_program(case):
    bps = [BilinearGroupPair(), BilinearGroupPair(BpGroup())]
    if case["shared"]:
        bps[1] = BilinearGroupPair(bps[0].bpgp)
    # registers: (group, coefficients, point)
    regs = []
    unit = (1,) + (0,) * HASHES
    labels = set()
    for bp in bps:
        for n in NAMES:
            group = getattr(bp, n)
            require(int(group.order()) == Q, "order of %s", n)
            require(group == getattr(bps[0], n), "groups of two equal pairs differ")
            for m in NAMES:
                if m != n:
                    require(not accepted(lambda: group == getattr(bps[0], m)), "groups %s and %s compare equal", n, m)
    one = bps[0]
    for n in NAMES:
        regs.append((n, unit, getattr(one, n).generator()))
    regs.append(("G1", (0, 1, 0), one.G1.hash_to_point(b"zkv 0")))
    texts = [text(p) for _, _, p in regs]

    def of(name, i):
        own = [x for x in regs if x[0] == name]
        return own[i % len(own)]

    def put(name, coeffs, p, what):
        coeffs = tuple(c % Q for c in coeffs)
        require(hasattr(p, "group") and p.group == getattr(one, name) and type(p) is type(getattr(one, name).generator()),
                "%s: the result is not a point of %s", what, name)
        t = text(p)
        for (m, c, q), u in zip(regs, texts):
            if m != name:
                continue
            same = c == coeffs
            require((q == p) == same and (p == q) == same, "%s in %s: equality is %s, should be %s", what, name, q == p, same)
            require((q != p) == (not same), "%s in %s: inequality operator", what, name)
            require((u == t) == same, "%s in %s: text forms %s", what, name, "differ" if same else "agree")
            require((repr(q) == repr(p)) == same, "%s in %s: repr", what, name)
        neutral = not any(coeffs)
        inf = getattr(one, name).infinite()
        require((p == inf) == neutral, "%s in %s: comparison with the neutral element", what, name)
        if name == "G1" and not any(coeffs[1:]):
            require(t == text1(coeffs[0]), "%s: differs from integer curve arithmetic", what)
            labels.add("curve-checked")
        if neutral:
            labels.add("neutral-result")
        if not any(m == name and c == coeffs for m, c, _ in regs):
            labels.add("new-value")
        else:
            labels.add("equal-value")
        regs.append((name, coeffs, p))
        texts.append(t)

    for o in case["ops"]:
        op, name, bp = o["op"], o["g"], bps[o["b"]]
        group = getattr(bp, name)
        labels.add("op:" + op)
        labels.add("group:" + name)
        if op == "gen":
            put(name, unit, group.generator(), "generator")
        elif op == "inf":
            put(name, (0,) * len(unit), group.infinite(), "neutral element")
        elif op == "hash":
            i = o["t"]
            put("G1", tuple(int(j == 1 + i) for j in range(len(unit))), bp.G1.hash_to_point(b"zkv %d" % i), "hashed point")
        elif op in ("add", "sub"):
            a, b = of(name, o["r"][0]), of(name, o["r"][1])
            sign = 1 if op == "add" else -1
            p = must("%s in %s" % (op, name), (lambda: a[2] + b[2]) if op == "add" else (lambda: a[2] - b[2]))
            put(name, [x + sign * y for x, y in zip(a[1], b[1])], p, op)
        elif op == "self":
            a = of(name, o["r"][0])
            put(name, [2 * x for x in a[1]], a[2] + a[2], "doubling")
        elif op == "neg":
            a = of(name, o["r"][0])
            put(name, [-x for x in a[1]], must("negation", lambda: num(-1, o["t"]) * a[2]), "negation")
        elif op in ("mul", "rmul"):
            a = of(name, o["r"][0])
            s = o["s"][0]
            k = num(s, o["t"])
            p = must("multiplication by %d in %s" % (s, name), (lambda: k * a[2]) if op == "rmul" else (lambda: a[2] * k))
            put(name, [s * x for x in a[1]], p, "multiplication by %d" % s)
        elif op == "sum":
            xs = [of(name, i) for i in o["r"]]
            p = must("sum in " + name, group.sum, [x[2] for x in xs])
            put(name, [sum(x[1][j] for x in xs) for j in range(len(unit))], p, "sum")
        elif op == "wsum":
            xs = [of(name, i) for i in o["r"]]
            p = must("wsum in " + name, group.wsum, [num(s, o["t"]) for s in o["s"]], [x[2] for x in xs])
            put(name, [sum(s * x[1][j] for s, x in zip(o["s"], xs)) for j in range(len(unit))], p, "weighted sum")
        elif op == "pair":
            a, b = of("G1", o["r"][0]), of("G2", o["r"][1])
            p = must("pairing", a[2].pair, b[2])
            put("GT", [x * b[1][0] for x in a[1]], p, "pairing")
        elif op == "code":
            a = of(name, o["r"][0])
            put(name, a[1], must("decoding", lambda: decode(encode(a[2]))), "decoded point")
        elif op == "codes":
            xs = [regs[i % len(regs)] for i in o["r"]]
            back = must("decoding", lambda: decode(encode({"a": [x[2] for x in xs], "b": [bn(1), [x[2] for x in xs[:1]]]})))
            require(len(back["a"]) == len(xs), "decoded list length")
            for x, p in zip(xs, back["a"]):
                put(x[0], x[1], p, "point decoded from a list")
    # nothing that was computed earlier changed
    for (n, c, p), t in zip(regs, texts):
        require(text(p) == t, "a point changed after it was used")
    if len(regs) > 6:
        labels.add("nontrivial")
    return labels


@st.composite
def laws(draw):
    g = gen.G(draw, groups=["G1"])
    return {"g": g.pick(NAMES), "a": scalar(g), "b": scalar(g), "c": scalar(g), "m": [scalar(g) for _ in range(g.i(0, 4))],
            "t": [g.i(0, 1) for _ in range(8)], "salt": g.i(0, 1 << 16)}


def run_laws(case):
    """Laws stated without the coefficient model, over points with unknown logarithms where there are some."""
    bp, bp2 = BilinearGroupPair(), BilinearGroupPair()
    name = case["g"]
    group = getattr(bp, name)
    r = core.rng()
    a, b, c = case["a"], case["b"], case["c"]
    n = lambda v, i: num(v, case["t"][i])

    def point(k):
        h = bp.G1.hash_to_point(r.randbytes(8))
        if name == "G1":
            return h
        y = bn(r.randrange(1, Q)) * bp2.G2.generator()
        return y if name == "G2" else h.pair(y)

    X, Y, Z = point(0), point(1), decode(encode(point(2)))
    inf = group.infinite()

    def eq(what, u, v):
        require(u == v and not u != v and text(u) == text(v), "%s fails in %s (a=%d b=%d)", what, name, a, b)

    eq("commutativity", X + Y, Y + X)
    eq("associativity", (X + Y) + Z, X + (Y + Z))
    eq("neutral element", X + inf, X)
    eq("inverse", X - X, inf)
    eq("subtraction", (X - Y) + Y, X)
    eq("distributivity over points", n(a, 0) * (X + Y), n(a, 1) * X + n(a, 2) * Y)
    eq("distributivity over scalars", bn(a + b) * X, n(a, 3) * X + n(b, 4) * X)
    eq("scalar product", bn(a * b) * X, n(a, 5) * (n(b, 6) * X))
    eq("left and right", n(c, 7) * X, X * n(c, 0))
    eq("order", bn(Q) * X, inf)
    eq("reduction", bn(c) * X, bn(c % Q) * X)
    eq("zero", 0 * X, inf)
    eq("one", 1 * X, X)
    pts = [point(i) for i in range(len(case["m"]))]
    acc = inf
    for w, p in zip(case["m"], pts):
        acc = acc + n(w, 1) * p
    eq("weighted sum", group.wsum([n(w, 2) for w in case["m"]], pts), acc)
    acc = inf
    for p in pts:
        acc = p + acc
    eq("sum", group.sum(pts), acc)
    # points that resemble each other: repeated, opposite, neutral, multiples
    related = [(1, 0, X), (-1, 0, -1 * X), (0, 0, inf), (1, 0, decode(encode(X))), (2, 0, X + X), (0, 1, Y), (0, -1, inf - Y)]
    terms = [r.choice(related) + (w,) for w in (case["m"] + case["m"])[:6]]
    if terms:
        i, j = sum(w * t[0] for *t, w in terms), sum(w * t[1] for *t, w in terms)
        eq("weighted sum of related points", group.wsum([bn(w) for *_, w in terms], [t[2] for *t, _ in terms]),
           bn(i % Q) * X + bn(j % Q) * Y)
        i, j = sum(t[0] for *t, _ in terms), sum(t[1] for *t, _ in terms)
        eq("sum of related points", group.sum([t[2] for *t, _ in terms]), bn(i % Q) * X + bn(j % Q) * Y)
    require(not X == Y and X != Y and text(X) != text(Y), "different points compare equal in %s", name)
    if a % Q:
        require(not n(a, 0) * X == inf, "a non-zero multiple is neutral")
    # bilinearity
    U, V = bp.G1.hash_to_point(r.randbytes(8)), bn(r.randrange(1, Q)) * bp2.G2.generator()
    W = bp2.G1.hash_to_point(r.randbytes(8))
    e = U.pair(V)
    require(e == bn(a * b) * e or (a * b - 1) % Q, "pairing")
    p1 = (n(a, 0) * U).pair(n(b, 1) * V)
    require(p1 == bn(a * b) * e and text(p1) == text(bn(a * b) * e), "bilinearity in both arguments (a=%d b=%d)", a, b)
    require((U + W).pair(V) == e + W.pair(V), "additivity in the first argument")
    V2 = n(c, 2) * bp.G2.generator()
    require(U.pair(V + V2) == e + U.pair(V2), "additivity in the second argument")
    require(not e == bp.GT.infinite(), "degenerate pairing")
    require(bp.G1.infinite().pair(V) == bp.GT.infinite() and U.pair(bp.G2.infinite()) == bp.GT.infinite(),
            "pairing with a neutral element")
    require(decode(encode(U)).pair(decode(encode(V))) == e, "pairing of decoded points")
    require(bp.G1.generator().pair(bp2.G2.generator()) == bp.GT.generator(), "generator of GT")
    # decoded points work with everything
    D = decode(encode(X))
    eq("decoded sum", D + Y, X + Y)
    eq("decoded difference", Y - D, Y - X)
    eq("decoded multiple", n(a, 3) * D, n(a, 3) * X)
    eq("group of a decoded point", D.group.wsum([1, bn(2)], [D, X]), bn(3) * X)
    require(D.group == group and int(D.group.order()) == Q, "group of a decoded point")
    return {"nontrivial", "group:" + name, "a:" + ("zero" if a % Q == 0 else "neg" if a < 0 else "big" if a >= Q else "mid")}


@st.composite
def foreign(draw):
    g = gen.G(draw, groups=["G1"])
    return {"g": g.pick(NAMES), "h": g.pick(NAMES + ["ec713"]), "k": g.i(1, 99), "pos": g.i(0, 600), "bit": g.i(0, 7),
            "cut": g.i(0, 3), "salt": g.i(0, 1 << 16)}


def run_foreign(case):
    """Damaged encodings never decode to the same point, and points of different groups never mix."""
    bp = BilinearGroupPair()
    X = bn(case["k"]) * getattr(bp, case["g"]).generator()
    data = bytearray(encode(X))
    raw = text(X)
    at = bytes(data).find(raw)
    labels = {"group:" + case["g"]}
    if at >= 0:
        i = at + case["pos"] % len(raw)
        data[i] ^= 1 << case["bit"]
        try:
            Y = decode(bytes(data))
            same = type(Y) is type(X) and Y == X
        except Exception:
            same = False
            labels.add("undecodable")
        require(not same, "a damaged encoding of a point of %s decodes to the point", case["g"])
        labels.add("nontrivial")
    if case["h"] != case["g"]:
        Y = bn(case["k"]) * model.SIDES["P"].group(case["h"]).generator()
        for what, fn in (("sum", lambda: X + Y), ("equality", lambda: X == Y)):
            # an error or a negative answer
            try:
                res = fn()
            except Exception:
                continue
            require(what == "equality" and not res, "%s of points of %s and %s", what, case["g"], case["h"])
        labels.add("mixed")
    return labels


PROP = Prop("C20", [
    Sub("program", program(), run_program, 1300, rule="operation sequences against coefficient vectors"),
    Sub("laws", laws(), run_laws, 700, rule="laws over points with unknown logarithms"),
    Sub("foreign", foreign(), run_foreign, 700, rule="damaged encodings, points of different groups"),
], rule="A program runs operations over G1, G2 and GT of two group pairs; every point is mirrored by a vector of integers "
   "modulo the order (over the generator and hashed points), and equality, text form and the neutral element are compared "
   "after every step, G1 also with affine curve arithmetic over integers. Non-trivial: at least three operations ran.")
