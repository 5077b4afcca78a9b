"""C24 Generator derivation and number helpers are exact."""

from hypothesis import strategies as st
from petlib.bn import Bn

from zksk import DLRep, Secret
from zksk.primitives.rangeproof import decompose_into_n_bits
from zksk.utils import ensure_bn, get_random_num, get_random_point, make_generators, sum_bn_array
from zksk.utils.misc import get_default_attr

from zkv import core, gen, model
from zkv.core import Prop, Sub, must, require
from zkv.model import bn

GROUPS = gen.FAST + ["G1", "G1", None] + ["ec705", "ec707", "ec721", "ec717"]   # the last four have cofactors
SEEDS = st.one_of(st.sampled_from([None, None, 0, 0, 1, 42, 2 ** 31, 2 ** 64, -1, 41, 43]),
                  st.integers(-5, 300), st.integers(0, 2 ** 70))


def group_of(gid, side="P"):
    return None if gid is None else model.SIDES[side].group(gid)


def key(p):
    return bytes(p.export())


# ---------------------------------------------------------------- generators
FAR = ["+1000", "2^8", "2^16", "2^31", "2^32", "2^63", "2^64", "2^128", "neg", "neg-1", "10x", "x+2^32", "-2^32", "-2^64"]


def other_seed(seed, how, d):
    """Another seed that resembles this one."""
    out = {"+1000": seed + 1000 + d, "neg": -seed, "neg-1": -seed - 1, "10x": seed * 10, "x+2^32": seed ^ (d << 32),
           "-2^32": seed - 2 ** 32, "-2^64": seed - 2 ** 64}.get(how)
    if out is None:
        out = seed + (1 << int(how[2:]))
    return out if abs(out - seed) > 100 else seed + 1000 + d


@st.composite
def points(draw):
    return {"g": draw(st.sampled_from(GROUPS)), "seed": draw(SEEDS), "n": draw(st.integers(0, 7)), "m": draw(st.integers(1, 7)),
            "bits": draw(st.sampled_from([256, 256, 256, 128, 64, 63, 65, 512, 100])), "d": draw(st.integers(1, 3)), "far": draw(st.sampled_from(FAR)),
            "how": draw(st.sampled_from(["pos", "kw", "default"])), "salt": draw(st.integers(0, 1 << 16))}


def derive(case, n, side, bits):
    g, seed = group_of(case["g"], side), case["seed"]
    if case["how"] == "default" and bits == 256:
        args = {} if g is None else {"group": g}
        if seed != 42:
            args["seed"] = seed
        return must("make_generators", make_generators, n, **args)
    if case["how"] == "pos":
        return must("make_generators", make_generators, n, g, bits, seed)
    return must("make_generators", make_generators, num=n, group=g, random_bits=bits, seed=seed)


def in_group(p, gid):
    from zksk.consts import DEFAULT_GROUP
    g = DEFAULT_GROUP if gid is None else group_of(gid)
    require(model.same_group(p.group, g), "a generator belongs to another group")
    if gid == "G1":
        b = key(p)
        require(len(b) == 33 and b[0] in (2, 3), "a G1 generator is no finite point")
    else:
        require(g.check_point(p) and not p.is_infinite(), "a generator is no finite point of the group")
    require(p != g.infinite(), "a generator is neutral")
    # of prime order
    q = g.order()
    require((q - 1) * p + p == g.infinite(), "a generator has another order")


def run_points(case):
    gid, seed, bits = case["g"], case["seed"], case["bits"]
    labels = {"group:%s" % (gid or "default"), "seed:%s" % ("none" if seed is None else "zero" if seed == 0 else
              "negative" if seed < 0 else "set"), "bits:%d" % bits}
    n, m = case["n"], case["m"]
    a = derive(case, n, "P", bits)
    b = derive(case, n + m, "V", bits)
    require(isinstance(a, list) and len(a) == n and len(b) == n + m, "number of generators")
    for p in (a + b)[:6]:
        in_group(p, gid)
    ka, kb = [key(p) for p in a], [key(p) for p in b]
    require(len(set(ka)) == len(ka) and len(set(kb)) == len(kb), "two generators of one list coincide")
    for i, p in enumerate(b):
        for j in range(i):
            require(p != b[j], "two generators of one list are equal")
    if seed is None:
        require(not set(ka) & set(kb), "generators drawn without a seed repeat")
        p, q = (must("get_random_point", get_random_point, group_of(gid), bits) for _ in range(2))
        in_group(p, gid)
        require(p != q and key(p) not in set(ka) | set(kb), "points drawn without a seed repeat")
        p = must("get_random_point", get_random_point, **({} if gid is None else {"group": group_of(gid)}))
        q = must("get_random_point", get_random_point, **({} if gid is None else {"group": group_of(gid)}))
        require(p != q, "points drawn without a seed repeat")
        labels.add("nontrivial")
        return labels
    # reproducible, whatever the number requested and whatever state the random source is in
    require(ka == kb[:n], "the first generators depend on how many are requested")
    with core.randomness(case["salt"] + 1):
        c = derive(case, n + m, "P", bits)
    require([key(p) for p in c] == kb, "the same seed gave other generators")
    # another seed gives others; a single point is reproducible as well
    far = dict(case, seed=other_seed(seed, case["far"], case["d"]), how="kw")
    require(not set(key(p) for p in derive(far, n + m, "P", bits)) & set(kb), "another seed gave the same generators")
    p = must("get_random_point", get_random_point, group_of(gid), bits, seed)
    q = must("get_random_point", get_random_point, group=group_of(gid, "V"), random_bits=bits, seed=seed)
    in_group(p, gid)
    require(key(p) == key(q), "the same seed gave another point")
    r = must("get_random_point", get_random_point, group=group_of(gid), random_bits=bits, seed=far["seed"] if case["n"] % 2 else seed + case["d"])
    require(key(p) != key(r), "different seeds gave the same point")
    # a fresh list shares nothing mutable with the one before
    if n:
        a.pop()
        require(len(derive(case, n, "P", bits)) == n, "a list handed out earlier changed the next one")
        labels.add("nontrivial")
    # usable as bases of a statement built by someone else
    if 1 <= n + m <= 5:
        s = [Secret(bn(3 + i)) for i in range(n + m)]
        lhs = b[0].group.infinite()
        for i, p in enumerate(c):
            lhs = lhs + bn(3 + i) * p
        e = s[0] * c[0]
        for x, p in zip(s[1:], c[1:]):
            e = e + x * p
        f = Secret() * b[0]
        for p in b[1:]:
            f = f + Secret() * p
        require(bool(DLRep(lhs, f).verify(DLRep(lhs, e).prove())), "a proof over derived generators was rejected")
        labels.add("proved")
    return labels


# ---------------------------------------------------------------- numbers
SPECIAL = [0, 1, 2, 3, 7, 8, 10, 255, 256, 2 ** 31 - 1, 2 ** 31, 2 ** 31 + 1, 2 ** 32, 2 ** 63, 2 ** 64, 2 ** 64 + 1, 2 ** 128 - 1,
           2 ** 224, 2 ** 256 - 1]
INT = st.one_of(st.sampled_from(SPECIAL), st.sampled_from(SPECIAL).map(lambda v: -v), st.integers(-20, 20),
                st.integers(-(2 ** 260), 2 ** 260))


@st.composite
def sums(draw):
    return {"arr": [[draw(INT), draw(st.booleans())] for _ in range(draw(st.integers(0, 8)))],
            "mod": [draw(st.one_of(st.sampled_from([1, 2, 3, 10, 97, 2 ** 31, 2 ** 31 - 1, 2 ** 64, 2 ** 256]), st.integers(1, 50),
                                   st.integers(1, 2 ** 260))), draw(st.booleans())],
            "as": draw(st.sampled_from(["list", "tuple", "iter", "gen"])), "salt": 0}


def exact(fn, *args):
    """The result, or None when the call refuses."""
    try:
        return fn(*args)
    except core.Violation:
        raise
    except Exception:
        return None


def shown(v, big):
    return bn(v) if big else v


def run_sums(case):
    arr = [shown(v, b) for v, b in case["arr"]]
    copy = [int(x) for x in arr]
    mod = shown(*case["mod"])
    before = int(mod)
    src = {"list": list, "tuple": tuple, "iter": iter, "gen": lambda a: (x for x in a)}[case["as"]](arr)
    r = exact(sum_bn_array, src, mod)
    want = sum(v for v, _ in case["arr"]) % case["mod"][0]
    plain = [v for v, b in case["arr"] + [case["mod"]] if not b]
    small = all(abs(v) < 2 ** 31 for v in plain)
    if r is None:
        require(not small, "summands of moderate size were refused")
    else:
        require(isinstance(r, Bn) and int(r) == want, "sum is %s, not %d", r, want)
    require([int(x) for x in arr] == copy and int(mod) == before, "the summands were changed")
    labels = {"summands:%d" % min(len(arr), 3), "mod:" + ("big" if case["mod"][1] else "plain")}
    labels |= {"refused"} if r is None else set()
    labels |= {"mixed"} if len({b for _, b in case["arr"]}) == 2 else set()
    labels |= {"wraps"} if sum(v for v, _ in case["arr"]) != want else set()
    if r is not None and len(arr) > 1:
        labels.add("nontrivial")
        # order and grouping do not matter
        rev = exact(sum_bn_array, list(reversed(arr)), mod)
        half = exact(sum_bn_array, [sum_bn_array(arr[:1], mod), sum_bn_array(arr[1:], mod)], mod)
        require(rev == r and half == r, "order or grouping changes the sum")
    for v, b in case["arr"]:
        e = exact(ensure_bn, shown(v, b))
        require(e is not None or not b and abs(v) >= 2 ** 31, "a number was refused")
        require(e is None or isinstance(e, Bn) and str(e) == str(v), "%r became %r", v, e)
    return labels


@st.composite
def randoms(draw):
    return {"bits": draw(st.one_of(st.integers(0, 6), st.sampled_from([7, 8, 9, 31, 32, 33, 63, 64, 65, 128, 129, 256, 512]),
                                   st.integers(0, 300))), "salt": draw(st.integers(0, 1 << 16))}


def run_randoms(case):
    bits = case["bits"]
    N = 64 if bits > 3 else 220
    draws = [must("get_random_num", get_random_num, bits) for _ in range(N)]
    require(all(isinstance(x, Bn) for x in draws), "not a number")
    vals = [int(x) for x in draws]
    require(all(0 <= v < 2 ** bits for v in vals), "a value has more than %d bits", bits)
    if bits <= 3:
        require(set(vals) == set(range(2 ** bits)), "of %d possible values only %d ever come", 2 ** bits, len(set(vals)))
    for b in range(bits):
        # 2^-64 chance each of a wrong alarm
        require(len({v >> b & 1 for v in vals}) == 2, "bit %d of %d never changes", b, bits)
    if bits > 16:
        # chance of 64 values of which fewer than 60 differ: below 2^-40
        require(len(set(vals)) >= 60, "values repeat")
        require(len({tuple(vals[i:i + 2]) for i in range(0, N, 2)}) > 20, "values repeat")
    # neighbouring bits are independent of each other: all four combinations come up
    if bits > 3:
        for b in range(bits - 1):
            require(len({v >> b & 3 for v in vals}) >= 3, "bits %d and %d move together", b, b + 1)
    return {"nontrivial" if bits else "zero", "bits:" + ("<=8" if bits <= 8 else "<=64" if bits <= 64 else ">64")}


# ---------------------------------------------------------------- bits
@st.composite
def bits(draw):
    n = draw(st.one_of(st.integers(0, 12), st.sampled_from([31, 32, 33, 64, 65, 128, 256]), st.integers(0, 300)))
    v = draw(st.one_of(st.integers(0, 40), st.just(2 ** n - 1), st.just(2 ** n), st.just(2 ** n + 1), st.just(2 ** max(0, n - 1)),
                       st.integers(0, 2 ** (n + 1)), st.integers(-(2 ** n), 2 ** n), st.just(0), st.just(-1)))
    return {"v": v, "n": n, "salt": 0}


def run_bits(case):
    v, n = case["v"], case["n"]
    ok = 0 <= v < 2 ** n
    x = bn(v)
    r = exact(decompose_into_n_bits, x, n)
    require(int(x) == v, "the value was changed")
    if not ok:
        require(r is None, "%d was decomposed into %d bits: %r", v, n, r)
        return {"refused", "nontrivial"}
    require(r is not None, "%d does not fit into %d bits", v, n)
    require(len(r) == n and all(b in (0, 1) for b in r), "not %d bits: %r", n, r)
    require(sum(int(b) << i for i, b in enumerate(r)) == v, "bits %r do not make %d", r, v)
    r2 = exact(decompose_into_n_bits, bn(v), n)
    require(r2 is not r and list(r2) == list(r), "a second decomposition differs")
    return {"fits"} | ({"nontrivial"} if v > 1 else set()) | ({"padded"} if v < 2 ** max(0, n - 1) else {"top bit set"})


# ---------------------------------------------------------------- attributes
@st.composite
def attrs(draw):
    return {"ops": [[draw(st.sampled_from(["get", "set", "del"])), draw(st.sampled_from(["a", "b", "simulated"])),
                     draw(st.sampled_from([None, 0, 1, "", "x", False, True, []]))] for _ in range(draw(st.integers(1, 12)))],
            "salt": 0}


def run_attrs(case):
    class Holder:
        b = "class"
    o, m = Holder(), {}
    for op, name, v in case["ops"]:
        if op == "get":
            want = m[name] if name in m else "class" if name == "b" else v
            got = must("get_default_attr", get_default_attr, o, name, v) if v is not None else get_default_attr(o, name)
            require(got == want and type(got) is type(want), "attribute %s is %r, not %r", name, got, want)
            if name != "b" and name not in m:
                m[name] = v
        elif op == "set":
            setattr(o, name, v)
            m[name] = v
        elif name in m:
            delattr(o, name)
            del m[name]
        for k, w in m.items():
            require(getattr(o, k, "missing") == w, "attribute %s was not kept", k)
    other = Holder()
    require(not hasattr(other, "a"), "an attribute of one object appeared on another")
    return {"nontrivial"} if len(case["ops"]) > 2 else set()


PROP = Prop("C24", [
    Sub("generators", points(), run_points, 1800, rule="a seeded list of one or more generators, or fresh ones"),
    Sub("sums", sums(), run_sums, 4000, rule="two or more summands that are not refused"),
    Sub("random-numbers", randoms(), run_randoms, 700, rule="at least one bit"),
    Sub("bits", bits(), run_bits, 4000, rule="a refused value, or one above 1"),
    Sub("attributes", attrs(), run_attrs, 600, rule="three or more operations"),
], rule="generators were derived or a number above trivial size was handled",
    assumptions=["petlib refuses plain Python integers of 32 bits and more; refusal counts as exact"])
