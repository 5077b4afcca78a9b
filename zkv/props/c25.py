"""C25 No malformed proof is ever accepted."""
import math

import msgpack
from hypothesis import strategies as st
from petlib.bn import Bn
from zksk.base import NIZK

from zkv import core, gen, model, ref
from zkv.core import Prop, Sub, accepted, must, must_accept, require
from zkv.model import bn
from zkv.props.c11 import content as anything, thaw
from zkv.proto import copy_nizk, roundtrip, verify

FIELDS = ["challenge", "responses", "precommitment", "stmt_hash"]
OPS = ["del", "del", "dup", "swap", "insert", "value", "value", "value", "copy", "copy", "splice", "splice", "splice-any", "wrap",
       "unwrap", "tuple", "dict", "empty", "cut", "rotate", "permute", "flat", "number", "number", "retype", "merge",
       "grow", "mirror"]
BYTES = ["flip", "flip", "flip", "set", "cut", "cut-front", "delete", "insert", "repeat", "swap", "splice", "append",
         "zero", "inc"]
N_VALUES = 28


def make(kinds, groups=None, depth=2, width=3, count=14, raw=False):
    @st.composite
    def strat(draw):
        g = gen.G(draw, groups=draw(groups) if groups is not None else None, kinds=kinds,
                  depth=draw(st.integers(0, depth)), width=width)
        tree = g.tree()
        muts = []
        for _ in range(g.i(1, count)):
            n = g.pick([1, 1, 1, 1, 2, 3])
            muts.append([[g.pick(BYTES if raw else OPS), g.i(0, 1000), g.i(0, 1000), g.i(0, 255)] for _ in range(n)])
        return g.case(tree, msg=gen.message(draw), muts=muts, raw=int(raw), own=int(g.one_in(4)), ser=int(g.one_in(3)))
    return strat()


# ---------------------------------------------------------------- trees
def nodes(x, path=()):
    """Paths of all values in a nested value, containers included."""
    yield path
    if isinstance(x, dict):
        for k in sorted(x, key=str):
            yield from nodes(x[k], path + (k,))
    elif isinstance(x, (list, tuple)):
        for i, y in enumerate(x):
            yield from nodes(y, path + (i,))


def pick(x, i, want=None):
    ps = [p for p in nodes(x) if len(p) and (want is None or want(ref.get(x, p)))]
    return ps[i % len(ps)] if ps else None


def seq(v):
    return isinstance(v, (list, tuple))


def value(i, gid, r):
    q = model.order(gid)
    side = model.SIDES["V"]
    pt = lambda g, k: side.base(g, k)
    return [lambda: None, lambda: 0, lambda: Bn(0), lambda: Bn(1), lambda: -1, lambda: Bn(-1), lambda: bn(q), lambda: bn(q - 1),
            lambda: bn(r.randrange(q)), lambda: bn(1 << 128), lambda: bn(r.randrange(1 << 128)), lambda: True, lambda: False,
            lambda: "", lambda: "x", lambda: b"", lambda: b"\0" * 32, lambda: [], lambda: {}, lambda: [[]], lambda: [None],
            lambda: 2.5, lambda: math.nan, lambda: pt(gid, 1), lambda: pt(gid, 1).group.infinite(),
            lambda: pt("ec415" if gid != "ec415" else "ec704", 1), lambda: pt("G1", 1), lambda: bn(1 << 700)][i % N_VALUES]()


def mutate(tree, op, i, j, k, others, gid, r):
    """The changed tree, or None where the change does not apply."""
    get = lambda p: ref.get(tree, p)
    if op in ("del", "dup", "swap", "insert", "cut", "rotate", "permute", "flat", "merge", "grow", "mirror"):
        p = pick(tree, i, lambda v: seq(v) and len(v) > (0 if op in ("insert", "grow") else 1 if op in ("swap", "rotate", "permute",
                                                                                                        "merge") else 0))
        if p is None:
            return None
        v = list(get(p))
        a, b = j % max(1, len(v)), k % max(1, len(v))
        if op == "del":
            del v[a]
        elif op == "dup":
            v.insert(b, v[a])
        elif op == "swap":
            v[a], v[b] = v[b], v[a]
        elif op == "insert":
            v.insert(j % (len(v) + 1), value(k, gid, r))
        elif op == "grow":
            v = v + [value(j + n, gid, r) for n in range(1 + k % 3)]
        elif op == "cut":
            v = v[:a]
        elif op == "rotate":
            v = v[a:] + v[:a]
        elif op == "mirror":
            v = v[::-1]
        elif op == "permute":
            r.shuffle(v)
        elif op == "flat":
            v = [y for x in v for y in (x if seq(x) else [x])]
        elif op == "merge":
            v = v[:a] + [v[a:a + 2]] + v[a + 2:]
        return ref.replace(tree, p, tuple(v) if isinstance(get(p), tuple) else v)
    p = pick(tree, i)
    if p is None:
        return None
    v = get(p)
    if op == "value":
        return ref.replace(tree, p, value(j, gid, r))
    if op == "copy":
        p2 = pick(tree, j)
        return ref.replace(tree, p, ref.deep(get(p2)))
    if op == "splice":
        o = others[j % len(others)]
        try:
            return ref.replace(tree, p, ref.deep(ref.get(o, p)))
        except Exception:
            return None
    if op == "splice-any":
        o = others[j % len(others)]
        return ref.replace(tree, p, ref.deep(ref.get(o, pick(o, k))))
    if op == "wrap":
        return ref.replace(tree, p, [v] if j % 3 else (v,) if j % 2 else {"0": v})
    if op == "unwrap":
        p = pick(tree, i, lambda v: seq(v) and len(v) > 0)
        return p and ref.replace(tree, p, get(p)[j % len(get(p))])
    if op == "tuple":
        p = pick(tree, i, seq)
        return p and ref.replace(tree, p, list(get(p)) if isinstance(get(p), tuple) else tuple(get(p)))
    if op == "dict":
        p = pick(tree, i, seq)
        return p and ref.replace(tree, p, dict(enumerate(get(p))) if j % 2 else {"Cs": get(p), "rand": Bn(0)})
    if op == "empty":
        p = pick(tree, i, lambda v: isinstance(v, (list, tuple, dict)))
        return p and ref.replace(tree, p, type(get(p))())
    if op == "number":
        p = pick(tree, i, lambda v: isinstance(v, (Bn, int)) and not isinstance(v, bool))
        if not p:
            return None
        x, q = int(get(p)), model.order(gid)
        return ref.replace(tree, p, bn([x + 1, x - 1, -x, x + (1 << 128), x - (1 << 128), x ^ (1 << k % 128), 2 * x, x + (1 << 64),
                                        x + q * (1 << 128), x % (1 << 128), x // 2, x + (1 << 256)][j % 12]))
    if op == "retype":
        if isinstance(v, Bn):
            new = [lambda: int(v), lambda: str(v), lambda: v.binary(), lambda: float(int(v) % (1 << 500)), lambda: [v],
                   lambda: v.hex()][j % 6]
        elif hasattr(v, "export"):
            new = [lambda: bytes(v.export()), lambda: [v], lambda: Bn.from_binary(bytes(v.export())[:20])][j % 3]
        elif isinstance(v, bytes):
            new = [lambda: v.hex(), lambda: list(v), lambda: Bn.from_binary(v), lambda: bytearray(v) + b"\0", lambda: v[:-1]][j % 5]
        elif seq(v):
            new = [lambda: str(v), lambda: len(v), lambda: iter(()), lambda: None][j % 4]
        else:
            new = [lambda: [], lambda: {}, lambda: "None", lambda: [None] * (k % 4)][j % 4]
        return ref.replace(tree, p, new())
    return None


def edit(raw, op, i, j, k, others):
    b = bytearray(raw)
    n = len(b)
    if not n:
        return b"\xc0"
    a, e = sorted((i * 7919 % n, j * 7919 % n))
    o = others[k % len(others)]
    if op == "flip":
        b[a] ^= 1 << (k % 8)
    elif op == "set":
        b[a] = k
    elif op == "inc":
        b[a] = (b[a] + 1) % 256
    elif op == "cut":
        b = b[:a]
    elif op == "cut-front":
        b = b[a % 40:]
    elif op == "delete":
        del b[a:a + 1 + k % 40]
    elif op == "insert":
        b[a:a] = bytes([k]) * (1 + j % 3)
    elif op == "repeat":
        b[a:a] = b[a:e]
    elif op == "swap":
        w = 1 + k % 33
        b[a:a + w], b[e:e + w] = b[e:e + w], b[a:a + w]
    elif op == "splice":
        b[a:e] = o[a:e] if k % 2 else o[j % len(o):j % len(o) + e - a]
    elif op == "append":
        b += bytes([k]) * (1 + i % 4)
    elif op == "zero":
        b[a:a + 1 + k % 33] = bytes(len(b[a:a + 1 + k % 33]))
    return bytes(b)


# ---------------------------------------------------------------- oracle
def plain(x):
    try:
        return ref.plain(x)
    except Exception:
        return None


def lists(x):
    """A container indexed 0, 1, ... holds the same content as the list."""
    if isinstance(x, dict) and x and set(x) == set(range(len(x))):
        x = [x[i] for i in range(len(x))]
    if isinstance(x, dict):
        return {k: lists(v) for k, v in x.items()}
    if seq(x):
        return [lists(v) for v in x]
    return x


def content(n):
    return [plain(lists(getattr(n, f))) for f in FIELDS]


def numbers_only(x):
    return all(isinstance(v, (Bn, int)) and not isinstance(v, bool) for _, v in ref.flatten(x)) if seq(x) else False


def equivalent(stmt, nizk, bad):
    """The same transcript under other responses (equal modulo the order, or the same sum of bases)."""
    a, b = content(nizk), content(bad)
    responses = lists(bad.responses)
    if a[:1] + a[2:] != b[:1] + b[2:] or not numbers_only(responses):
        return False
    return ref.check(stmt, ref.recompute(stmt, nizk.challenge, nizk.responses), nizk.challenge, responses)


def run(case):
    party = model.prover_party(case)
    stmt = must("building", party.build)
    msg = case["msg"]
    labels = gen.describe(case)
    nizk = must("proving", party.prove, stmt, msg)
    second = must("proving", model.prover_party(case).prove, None, msg)
    third = must("proving", model.prover_party(case).prove, None, (msg or "") + "?")
    gid = first_group(case["tree"])
    r = core.rng()
    h = model.SIDES["V"].base(gid, 3)
    simple = must("proving", (model.DLRep(bn(5) * h, model.Secret(bn(5), "x0") * h)).prove)
    if case["ser"]:
        nizk = must("serialisation", roundtrip, nizk)
    vstmt = model.verifier_stmt(case)
    must_accept("honest proof", verify, vstmt, nizk, msg)
    if case["own"]:
        vstmt = stmt
    rstmt = ref.constructed(model.verifier_stmt(case), nizk.precommitment)
    others = [second, third, simple]
    as_tree = lambda n: [ref.deep(getattr(n, f)) for f in FIELDS]
    trees = [as_tree(o) for o in others]
    good = [content(nizk), content(second)]
    raws = [o.serialize() for o in others]
    raw0 = nizk.serialize()
    done = 0
    for ops in case["muts"]:
        bad = None
        if case["raw"]:
            raw = raw0
            field = ops[0][1] % 5
            for op, i, j, k in ops:
                if field < 4:
                    # within the encoding of one component, whose length may change
                    parts = msgpack.unpackb(raw)
                    parts[field] = edit(parts[field], op, i, j, k, [msgpack.unpackb(x)[field] for x in raws])
                    raw = msgpack.packb(parts, use_bin_type=True)
                else:
                    raw = edit(raw, op, i, j, k, raws)
            try:
                bad = NIZK.deserialize(raw)
            except Exception:
                labels.add("unreadable")
                done += raw != raw0
                continue
            labels.add("readable")
        else:
            tree = as_tree(nizk)
            for op, i, j, k in ops:
                new = mutate(tree, op, i, j, k, trees, gid, r)
                tree = tree if not new else new
            if len(tree) != 4:
                continue
            bad = NIZK(*tree)
        if content(bad) in good:
            labels.add("same content")
            continue
        done += 1
        labels |= {"op:" + op for op, _, _, _ in ops}
        what = "proof after %s" % "+".join(op for op, _, _, _ in ops)
        how = ops[0][3] % 4
        if how == 0:
            ok = accepted(lambda: vstmt.get_verifier().verify_nizk(bad, msg or ""))
        elif how == 1 and not case["raw"]:
            # what a peer reading it from the wire does
            try:
                bad = NIZK.deserialize(bad.serialize())
            except Exception:
                labels.add("not serialisable")
            ok = accepted(verify, vstmt, bad, msg)
        else:
            ok = accepted(verify, vstmt, bad, msg)
        if ok:
            labels.add("equivalent")
            require(content(bad) in good or equivalent(rstmt, nizk, bad), "%s: accepted", what)
    must_accept("honest proof after malformed ones", verify, vstmt, nizk, msg)
    must_accept("another honest proof after malformed ones", verify, vstmt, second, msg)
    if done:
        labels.add("nontrivial")
    return labels


def first_group(tree):
    for n in model.walk(tree):
        if "g" in n:
            return n["g"]
    return "G1"


# ---------------------------------------------------------------- shifted numbers
@st.composite
def shifts(draw):
    """One number of the proof, preferably a challenge, shifted by a number that some reduction could hide."""
    g = gen.G(draw, groups=draw(st.sampled_from([["ec713"], ["ec415"], ["ec704"], ["G1"]])), kinds=("dl", "dlne"),
              depth=draw(st.integers(0, 2)), width=3, p_ext=2)
    tree = g.tree()
    if g.b() and tree["k"] != "or":
        # a disjunction at the root uses the challenge by its share only
        tree = {"k": "or", "op": 0, "c": [tree, dict(g.leaf([]), mark="pre")]}
    return g.case(tree, msg=gen.message(draw), at=[g.pick([0, 0, 0, g.i(1, 30)]) for _ in range(24)],
                  by=[[g.pick(["pow", "pow", "order", "fold"]), g.pick([1, 1, 2, -1]),
                       g.pick([8, 16, 31, 32, 63, 64, 127, 128, 129, 160, 192, 224, 255, 256, 257, 320, 384, 511, 512, 521,
                               1024])] for _ in range(24)])


def shifted(x, how, k, w, q):
    if how == "pow":
        return x + k * (1 << w)
    if how == "order":
        return x + k * q * (1 << (w - 128 if w > 255 else 128))
    return [x % (1 << w), x ^ (1 << w), x >> 1, -x][k]


def run_shifts(case):
    party = model.prover_party(case)
    nizk = must("proving", party.prove, must("building", party.build), case["msg"])
    vstmt = model.verifier_stmt(case)
    must_accept("honest proof", verify, vstmt, nizk, case["msg"])
    rstmt = ref.constructed(model.verifier_stmt(case), nizk.precommitment)
    tree = [ref.deep(getattr(nizk, f)) for f in FIELDS]
    numbers = [p for p in nodes(tree) if isinstance(ref.get(tree, p), Bn)]
    q = model.order(first_group(case["tree"]))
    labels = gen.describe(case) | {"nontrivial"}
    for i, (how, k, w) in zip(case["at"], case["by"]):
        p = numbers[i % len(numbers)]
        new = shifted(int(ref.get(tree, p)), how, k, w, q)
        bad = NIZK(*ref.replace(tree, p, bn(new)))
        if content(bad) == content(nizk):
            continue
        labels.add("shift:%s:%s" % ("challenge" if p == (0,) else FIELDS[p[0]], how))
        if accepted(verify, vstmt, bad, case["msg"]):
            require(equivalent(rstmt, nizk, bad), "a number of the proof changed by %s %d %d: accepted", how, k, w)
    must_accept("honest proof after changed ones", verify, vstmt, nizk, case["msg"])
    return labels


# ---------------------------------------------------------------- bytes that never were a proof
@st.composite
def garbage(draw):
    g = gen.G(draw, groups=["ec713"], kinds=("dl", "rng", "dlne"), depth=draw(st.integers(0, 2)), width=3)
    tree = g.tree()
    blobs = [draw(st.one_of(st.binary(max_size=40), st.binary(max_size=400),
                            st.lists(st.sampled_from([b"\x94", b"\xc4\x01\xc0", b"\x90", b"\xc7\x01\x02\x00", b"\xc4\x02\xc7\x00",
                                                      b"\x91", b"\xc4\x05\xc7\x02\x00\x01\x05", b"\xc0", b"\x80", b"\xdd\0\0\0\1"]),
                                     max_size=8).map(b"".join))).hex() for _ in range(g.i(1, 10))]
    built = [[draw(anything), draw(anything), draw(anything), g.i(0, 7)] for _ in range(g.i(1, 6))]
    return g.case(tree, blobs=blobs, built=built)


def run_garbage(case):
    vstmt = model.verifier_stmt(case)
    honest = must("proving", model.prover_party(case).prove)
    labels = {"nontrivial"}
    for b in case["blobs"]:
        try:
            n = NIZK.deserialize(bytes.fromhex(b))
        except Exception:
            labels.add("unreadable")
            continue
        labels.add("readable")
        require(not accepted(vstmt.verify, n), "a proof made of arbitrary bytes was accepted")
    digest = honest.stmt_hash
    shapes = ref.deep(honest.responses)
    for c, resp, pre, how in case["built"]:
        n = NIZK(thaw(c), thaw(resp) if how % 2 else shapes, thaw(pre) if how % 3 else honest.precommitment, digest)
        if how % 4 == 3:
            try:
                n = roundtrip(n)
            except Exception:
                continue
        labels.add("built")
        require(content(n) == content(honest) or not accepted(vstmt.verify, n), "a proof of arbitrary content was accepted")
    for n in ([], None, "", b"", 5, [1, 2, 3, 4], vstmt):
        require(not accepted(vstmt.verify, n), "%r was accepted as a proof", n)
    must_accept("honest proof", vstmt.verify, honest)
    t = None
    try:
        t = vstmt.simulate()
    except Exception:
        labels.add("not simulated")
    if t is not None:
        # a simulated transcript in place of a proof, or dressed up as one
        require(not accepted(vstmt.verify, t), "a simulated transcript was accepted as a proof")
        n = NIZK(t.challenge, t.responses, t.precommitment, t.stmt_hash or honest.stmt_hash)
        require(not accepted(vstmt.verify, n), "a simulated transcript was accepted as a proof")
    return labels


ec1 = st.sampled_from([[g] for g in gen.FAST])
pairs = st.sampled_from([["G1"], ["G1", "G2"], ["G2"], ["GT"]])

PROP = Prop("C25", [
    Sub("dl", make(("dl",), depth=3), run, 1600, rule="representation trees"),
    Sub("ext", make(("dl", "dlne", "rng", "p2", "cust"), ec1), run, 500, rule="with primitives"),
    Sub("prim", make(("dlne", "rng", "p2"), ec1, 0, count=20), run, 300, rule="single primitives"),
    Sub("pair", make(("dl", "bbs", "dlne"), pairs, 1, count=8), run, 70, rule="over pairing groups"),
    Sub("bytes", make(("dl", "dlne", "rng"), ec1, 1, count=60, raw=True), run, 900, rule="serialised form"),
    Sub("bytes-pair", make(("dl", "bbs"), pairs, 1, count=40, raw=True), run, 60, rule="serialised form, pairing groups"),
    Sub("shift", shifts(), run_shifts, 400, rule="numbers of a proof, mostly the challenges, shifted by powers of two and multiples of the order"),
    Sub("garbage", garbage(), run_garbage, 500, rule="arbitrary bytes and objects"),
], rule="A case is an accepted proof of a generated statement and up to sixty corruptions of one to three steps each, on any value "
   "of the proof (dropped, repeated, moved, replaced, retyped, spliced from other proofs) or on its bytes. Non-trivial: at "
   "least one corrupted proof that was no longer equal in content was judged. Responses giving the same transcript "
   "(equal modulo the order) count as equal.")
