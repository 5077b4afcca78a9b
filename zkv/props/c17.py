"""C17 Range proofs verify exactly for committed values inside the range."""
from hypothesis import strategies as st
from petlib.bn import Bn
from zksk import Secret
from zksk.primitives.rangeproof import RangeOnlyStmt

from zkv import core, gen, model, ref, wrap
from zkv.core import Prop, Sub, accepted, must, must_accept, must_reject, require
from zkv.proto import copy_nizk, interactive, roundtrip, verify


def width(g):
    return g.pick([1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, g.i(1, 300), g.i(1, 1 << 16), (1 << 20) + g.i(-1, 1),
                   (1 << g.pick([31, 32, 63, 64, 65, 80, 96])) + g.i(-1, 1)])


def position(g, w):
    """Distance of the value from the lower end; the interval is [0, w)."""
    return g.pick([0, 0, w - 1, w - 1, w, w, -1, -1, w // 2, g.i(0, w - 1), g.i(0, w - 1), w + 1, -2, -w, 2 * w, 2 * w - 1,
                   1 << (max(1, (w - 1).bit_length())), (1 << max(1, (w - 1).bit_length())) - 1, w + g.i(0, 1 << 20),
                   -g.i(1, 1 << 20), (1 << 128), -(1 << 128)])


def range_node(g, gid, kind):
    q = model.order(gid)
    c = model.cls(gid)
    b0 = g.i(0, 3)
    bases = [b0, (b0 + g.i(1, 3)) % 4]
    r = g.new_secret(c)
    if kind == "rng":
        w = width(g)
        lo = g.pick([0, 0, 1, -1, g.i(-50, 50), -w, g.i(0, 1 << 60), -g.i(0, 1 << 60), (1 << 128) + g.i(0, 9)])
        x = g.new_secret(c, lo + position(g, w))
        return {"k": "rng", "g": gid, "x": x, "r": r, "b": bases, "lo": lo, "hi": lo + w, "off": 0, "big": g.i(0, 1)}
    n = g.pick([1, 1, 2, 3, 4, 5, 7, 8, 16, 20, 31, 32, 33, 63, 64, 65, 90])
    x = g.new_secret(c, position(g, 1 << n))
    return {"k": "p2", "g": gid, "x": x, "r": r, "b": bases, "n": n, "off": 0}


def truth(groups, kinds=("rng", "rng", "p2")):
    @st.composite
    def strat(draw):
        gid = draw(groups)
        g = gen.G(draw, groups=[gid], kinds=("dl",))
        node = range_node(g, gid, g.pick(list(kinds)))
        tree, path = wrap.wrap(g, node)
        wrong = {}
        if g.one_in(5):
            s = g.pick([node["x"], node["r"]])
            wrong[s] = g.v[s] + g.pick([1, -1, g.i(1, 1 << 30)])
        return g.case(tree, wrong=wrong, x=node["x"], msg=gen.message(draw), mode=g.pick(["nizk", "nizk", "int", "cross"]))
    return strat()


def run_truth(case):
    values = dict(case["v"])
    values.update(case["wrong"])
    can = model.provable(case["tree"], case["v"], values)
    node = [n for n in model.leaves(case["tree"]) if n["k"] in ("rng", "p2")][0]
    x = case["v"][case["x"]]
    lo, hi = (node["lo"], node["hi"]) if node["k"] == "rng" else (0, 1 << node["n"])
    labels = gen.describe(case) | {"mode:" + case["mode"], "bits:%d" % (hi - lo).bit_length(),
                                   "below" if x < lo else "above" if x >= hi else "lower-end" if x == lo else
                                   "upper-end" if x == hi - 1 else "inside"}
    party = must("statement parameters", model.prover_party, case, values=values)
    stmt = must("building a range statement", party.build)
    vstmt = must("building a range statement", model.verifier_stmt, case)
    msg, mode = case["msg"], case["mode"]
    if can == "yes":
        if mode == "int":
            must_accept("value inside the range, interactive", interactive, must("get_prover", party.get_prover, stmt),
                        vstmt.get_verifier())
        else:
            nizk = must("proving a value inside the range", party.prove, stmt, msg)
            must_accept("value inside the range", verify, vstmt, nizk, msg)
        return labels | {"nontrivial"}
    require(can == "no", "unexpected model verdict")
    try:
        if mode == "nizk":
            nizk = party.prove(stmt, msg)
        elif mode == "cross":
            nizk = ref.cross_nizk(party.get_prover(stmt), vstmt, msg)
        else:
            must_reject("value outside the range, interactive", ref.cross_interactive, party.get_prover(stmt),
                        vstmt.get_verifier())
            return labels | {"nontrivial"}
    except core.Violation:
        raise
    except Exception:
        return labels | {"nontrivial", "refused"}
    must_reject("value outside the range or wrong opening", verify, vstmt, nizk, msg)
    return labels | {"nontrivial"}


# ---------------------------------------------------------------- assembled bit commitments
HOW = ["bits", "bits", "surplus", "surplus", "missing", "digit", "digits", "lie", "lie-rand", "shift-rand", "empty", "type",
       "reorder", "swap-parts", "negative"]


def adversary(groups):
    @st.composite
    def strat(draw):
        gid = draw(groups)
        g = gen.G(draw, groups=[gid], kinds=("dl",))
        node = range_node(g, gid, g.pick(["rng", "p2", "p2"]))
        tree, path = wrap.wrap(g, node)
        n = bits(node)
        how = g.pick(HOW)
        if how == "surplus" and node["k"] == "p2":
            # a value that fits the surplus bits
            g.v[node["x"]] = g.i(1 << n, (1 << (n + 3)) - 1)
        if how in ("digit", "digits") and node["k"] == "p2" and g.b():
            g.v[node["x"]] = g.i(0, 1 << (n + 1))
        return g.case(tree, path=path, how=[how, g.pick(HOW + ["bits"] * 12)], a=g.i(0, 30), b=g.i(1, 3), msg=gen.message(draw),
                      mode=g.pick(["nizk", "int", "ser"]))
    return strat()


@st.composite
def whole(draw):
    """Intervals about as wide as the group is large; values whose shifted form wraps around the order."""
    gid = draw(st.sampled_from(["ec704", "ec704", "ec706"]))
    g = gen.G(draw, groups=[gid], kinds=("dl",))
    q = model.order(gid)
    c, k = model.cls(gid), q.bit_length()
    w = g.pick([(1 << (k - 1)) + g.i(-3, 3), (1 << (k - 1)) + g.i(1, 1 << 90), (1 << (k - 2)) + g.i(-3, 3), q // 2 + g.i(-3, 3),
                q - g.i(1, 3), q - g.i(1, 1 << 90), g.i(q // 8, q - 1), (1 << (k - 3)) + 1])
    lo = g.pick([0, 0, 1, -1, g.i(-50, 50), -w // 2, g.i(0, q)])
    x = g.new_secret(c, lo + g.pick([0, w - 1, w, w + g.i(1, 9), q - 1, q - g.i(1, 99), -1, (w + q) // 2, g.i(0, w - 1),
                                     g.i(w, q - 1) if w < q else 0]))
    r = g.new_secret(c)
    b0 = g.i(0, 3)
    node = {"k": "rng", "g": gid, "x": x, "r": r, "b": [b0, (b0 + g.i(1, 3)) % 4], "lo": lo, "hi": lo + w, "off": 0, "big": 1}
    return g.case(node, path=[], how=["bits", "bits"], a=0, b=1, msg=gen.message(draw), mode=g.pick(["nizk", "int", "ser"]),
                  whole=1)


def run_whole(case):
    node = case["tree"]
    q = model.order(node["g"])
    w = node["hi"] - node["lo"]
    inside = (case["v"][node["x"]] - node["lo"]) % q < w
    labels = {"inside" if inside else "outside", "nontrivial", "narrow" if 4 * w < q else "wide"}
    try:
        model.verifier_stmt(case)
    except Exception as e:
        # such an interval can be refused, as long as narrower ones are not
        require(4 * w >= q, "a range statement cannot be built: %s", core.where(e))
        return labels | {"refused"}
    return labels | run_adversary(case)


def bits(node):
    return node["n"] if node["k"] == "p2" else max(1, (node["hi"] - node["lo"] - 1).bit_length())


def part(side, node, value, rand, n, how, a, b, r):
    """Precommitment of one power-of-two part: (pre, digits, randomizers, valid)."""
    gid = node["g"]
    q = model.order(gid)
    bg, bh = node["b"]
    count = n
    if how == "surplus":
        count = n + b
    if how == "missing":
        count = n - 1
    if how == "empty":
        count = 0
    v = value % q if how in ("lie", "reorder") else value
    digits = [(v >> i) & 1 for i in range(count)]
    rest = value - sum(d << i for i, d in enumerate(digits))
    if count and how in ("digit", "bits", "negative", "surplus", "missing", "swap-parts"):
        # whatever the bits do not cover goes to one digit
        digits[-1] += rest >> (count - 1) if rest % (1 << (count - 1)) == 0 else rest * pow(1 << (count - 1), -1, q)
    if how == "digits" and count > 1:
        # 2 in a lower place for 1 in a higher one, and back
        i = a % (count - 1)
        digits[-1] += rest >> (count - 1)
        digits[i] += 2
        digits[i + 1] -= 1
    if how == "negative" and count > 1:
        digits[0] -= 2
        digits[1] += 1
    if how == "lie" and count:
        digits[a % count] ^= 1
    if how == "reorder":
        digits = digits[::-1]
    rs = [r.randrange(q) for _ in digits]
    total = sum(x << i for i, x in enumerate(rs)) - rand
    if how == "lie-rand":
        total += b
    Cs = [side.lincomb(gid, [(d, bg), (x, bh)]) for d, x in zip(digits, rs)]
    if how == "shift-rand":
        total += q * b          # the same number modulo the order
    pre = {"Cs": Cs, "rand": model.bn(total % q if how != "shift-rand" else total)}
    fits = (sum(d << i for i, d in enumerate(digits)) - value) % q == 0 and how != "lie-rand"
    valid = fits and count == n and all(d % q in (0, 1) for d in digits)
    if how == "type":
        pre = [pre["Cs"], {"Cs": {str(i): c for i, c in enumerate(Cs)}, "rand": pre["rand"]}, {"Cs": Cs}, None,
               {"Cs": Cs + [3], "rand": pre["rand"]}, {"Cs": 3, "rand": pre["rand"]}][a % 6]
        valid = False
    return pre, digits, rs, valid


def run_adversary(case):
    r = core.rng()
    path = case["path"]
    node = case["tree"]
    for i in path:
        node = node["c"][i]
    side = model.SIDES["P"]
    n, valid = bits(node), True
    x, rand = case["v"][node["x"]], case["v"][node["r"]]
    party = model.Party(case, "P", False)
    stmt = party.build()
    parts = [(tuple(path), x, case["how"][0])]
    if node["k"] == "rng":
        offset = (1 << n) - (node["hi"] - node["lo"])
        hows = case["how"] if case["a"] % 2 else case["how"][::-1]
        parts = [(tuple(path) + (1,), x - node["lo"], hows[0]), (tuple(path) + (2,), x - node["lo"] + offset, hows[1])]
        if case.get("whole"):
            q = model.order(node["g"])
            parts = [(p, value % q, how) for p, value, how in parts]
            valid = parts[0][1] < node["hi"] - node["lo"]
    live, values, pres = {}, {}, []
    labels = gen.describe(case) | {"mode:" + case["mode"]}
    for p, value, how in parts:
        labels.add("how:" + how)
        pre, digits, rs, ok = part(side, node, value, rand, n, how, case["a"], case["b"], r)
        if how == "swap-parts" and len(parts) == 2:
            # made for the other part
            other = [v for _, v, _ in parts if v != value] or [value]
            pre, digits, rs, ok = part(side, node, other[0], rand, n, "bits", 0, 1, r)
            ok = ok and other[0] == value
        pres.append(pre)
        valid = valid and ok
        q = model.order(node["g"])
        for i, (d, x_) in enumerate(zip(digits, rs)):
            o = p + ((i,) if n > 1 else ())
            c = 1 if d % q == 1 else 0
            live[o] = c
            values[o + (c,)] = x_
    if node["k"] == "rng":
        pre = wrap.place(stmt, path, [None] + pres)
    else:
        pre = wrap.place(stmt, path, pres[0])
    fresh = model.verifier_stmt(case)
    try:
        ref.constructed(stmt, pre)
    except Exception:
        require(not valid, "a well-formed precommitment cannot be used")
        must_reject("malformed precommitment", lambda: (fresh.get_verifier().process_precommitment(pre),))
        return labels | {"nontrivial", "no-statement"}
    witness = {s.name: case["v"][k] for k, s in party.secrets.items()}
    live.update(ref.towards(stmt, tuple(path)))
    prover = ref.RefProver(stmt, witness, r, live=live, value=lambda p, i, s: values.get(p))
    try:
        verdict, holds = wrap.attempt(stmt, prover, pre, case["mode"], case["msg"], fresh)
    except (core.Violation, AssertionError):
        raise
    except Exception as e:
        require(not valid, "reference prover: %s", core.where(e))
        return labels | {"no-transcript"}
    if holds:
        labels.add("equations-hold")
    if valid and holds:
        must_accept("assembled bits of a value inside the range", verdict)
        return labels | {"nontrivial", "accept"}
    if valid:
        labels.add("control-failed")
    must_reject("assembled bit commitments (%s)" % "/".join(h for _, _, h in parts), verdict)
    return labels | {"nontrivial", "reject"}


# ---------------------------------------------------------------- bound to the parameters
@st.composite
def bound(draw, groups):
    gid = draw(groups)
    g = gen.G(draw, groups=[gid], kinds=("dl",))
    node = range_node(g, gid, "rng")
    w = node["hi"] - node["lo"]
    g.v[node["x"]] = node["lo"] + g.i(0, w - 1)
    return g.case(node, edit=g.pick(["lo", "hi", "shift", "widen", "com", "com-r", "bases", "base", "swap-bounds"]),
                  by=g.pick([1, -1, 1, -1, w, 1 << 20, g.i(1, 50)]), msg=gen.message(draw), j=g.i(0, 1))


def run_bound(case):
    node = case["tree"]
    party = model.prover_party(case)
    nizk = must("proving a value inside the range", party.prove, None, case["msg"])
    must_accept("value inside the range", verify, model.verifier_stmt(case), nizk, case["msg"])
    other = gen.clone(case)
    m = other["tree"]
    model.freeze(m, case["v"])
    e, by = case["edit"], case["by"]
    if e in ("lo", "shift", "widen"):
        m["lo"] += -abs(by) if e == "widen" else by
    if e in ("hi", "shift", "widen"):
        m["hi"] += abs(by) if e == "widen" else by
    if e == "com":
        m["pub"]["com"][0][0] += by
    if e == "com-r":
        m["pub"]["com"][1][0] += by
    if e == "bases":
        m["b"] = m["b"][::-1]
    if e == "base":
        m["b"][case["j"]] = 4
    if e == "swap-bounds":
        m["lo"], m["hi"] = -m["hi"], -m["lo"]
    labels = {"edit:" + e}
    if m["hi"] <= m["lo"] or model.canonical(other) == model.canonical(case):
        return labels
    must_reject("range proof with edited %s" % e, lambda: verify(model.verifier_stmt(other), nizk, case["msg"]))

    def replaced():
        v = ref.constructed(model.verifier_stmt(other), nizk.precommitment)
        return copy_nizk(nizk, stmt_hash=v.prehash_statement().digest())
    try:
        swapped = replaced()
    except Exception:
        return labels | {"nontrivial", "other-layout"}
    must_reject("range proof with edited %s, digest replaced" % e, verify, model.verifier_stmt(other), swapped, case["msg"])
    return labels | {"nontrivial"}


# ---------------------------------------------------------------- without a commitment
@st.composite
def only(draw):
    g = gen.G(draw, groups=["ec713"])
    w = width(g)
    lo = g.pick([0, 1, -1, g.i(-50, 50), g.i(0, 1 << 60), -g.i(0, 1 << 60)])
    return {"lo": lo, "hi": lo + w, "x": lo + position(g, w), "form": [g.i(0, 1) for _ in range(3)], "msg": gen.message(draw),
            "more": g.i(0, 2)}


def run_only(case):
    def form(v, big):
        return model.bn(v) if big or abs(v) >= 2 ** 31 else v
    lo, hi, x = [form(case[k], b) for k, b in zip(("lo", "hi", "x"), case["form"])]
    secret = Secret(value=x)
    inside = case["lo"] <= case["x"] < case["hi"]
    stmt = must("building", RangeOnlyStmt, lo, hi, secret)
    if case["more"]:
        side = model.SIDES["P"]
        g = side.base("ec713", 2)
        from zksk import DLRep
        y = model.Side.lincomb(side, "ec713", [(case["x"], 2)])
        stmt = stmt & DLRep(y, secret * g) if case["more"] == 1 else DLRep(y, secret * g) & stmt
    labels = {"inside" if inside else "outside", "nontrivial"}
    if inside:
        nizk = must("proving a value inside the range", verify_prove, stmt, case["msg"])
        must_accept("value inside the range", verify, stmt, nizk, case["msg"])
        must_reject("other message", verify, stmt, nizk, (case["msg"] or "") + "x")
    else:
        try:
            nizk = verify_prove(stmt, case["msg"])
        except Exception:
            return labels | {"refused"}
        must_reject("value outside the range", verify, stmt, nizk, case["msg"])
    return labels


def verify_prove(stmt, msg):
    return stmt.prove() if msg is None else stmt.prove(message=msg)


ec1 = st.sampled_from(gen.FAST + ["ec713", "ec415"] * 3)
pairs = st.sampled_from(["G1", "G1", "G2"])

PROP = Prop("C17", [
    Sub("truth", truth(ec1), run_truth, 1500, rule="intervals, values on, inside and outside the ends, wrong openings"),
    Sub("truth-pair", truth(pairs), run_truth, 60, rule="same over pairing groups"),
    Sub("adversary", adversary(ec1), run_adversary, 1500, rule="assembled bit commitments"),
    Sub("adversary-pair", adversary(pairs), run_adversary, 60, rule="same over pairing groups"),
    Sub("whole", whole(), run_whole, 64, rule="intervals that cover much of the group, values that wrap around its order"),
    Sub("bound", bound(ec1), run_bound, 500, rule="a proof tried with other parameters"),
    Sub("only", only(), run_only, 300, rule="range statements without a commitment"),
], rule="A case fixes an interval, a committed value and opening by integers, the place of the statement in a tree and a mode; "
   "adversary cases also the digits committed to, their number, the revealed randomizer and the container. Non-trivial: "
   "a verdict, or the refusal of the library's prover, was compared with the integers.")
