"""C26 The challenge fixes commitments and public values beforehand.

The forger makes an honest proof with the library, changes one element that should have been fixed before the
challenge (a public value, base, precommitment element), and solves the verification equations for
responses that keep all commitments and the challenge. All discrete logarithms are known here, so this is linear
algebra. If the element does not enter the challenge, the result is an accepted proof."""
import random

from hypothesis import strategies as st

from zkv import core, gen, model, ref
from zkv.core import Prop, Sub, accepted, must, must_accept, must_reject, require
from zkv.model import bn, h_int
from zkv.proto import copy_nizk, verify


class Known(model.Side):
    """Every base is a known multiple of the generator."""

    def base(self, gid, i):
        if (gid, i) not in self.bases:
            self.bases[(gid, i)] = bn(self.log(gid, i)) * self.group(gid).generator()
        return self.bases[(gid, i)]

    def log(self, gid, i):
        return 1 if i == 0 else h_int("known", gid, i) % model.order(gid)


model.SIDES.setdefault("K", Known())
KEYS = {"dl": ["lhs"], "dlne": ["h0", "h1"], "rng": ["com"], "p2": ["com"]}


def logs(tree, v):
    """Discrete logarithms of all public points of a tree."""
    side = model.SIDES["K"]
    out = {}
    for n in model.leaves(tree):
        g, q = n["g"], model.order(n["g"])
        for b in ([b for _, b in n["t"]] if n["k"] == "dl" else n["b"]):
            out[(g, bytes(side.base(g, b).export()))] = side.log(g, b)
        for w in KEYS[n["k"]]:
            terms = model.pub_terms(n, v, w)
            out[(g, bytes(side.lincomb(g, terms).export()))] = sum(a * side.log(g, b) for a, b in terms) % q
    return out


def positions(stmt, c, responses, scope=(), path=()):
    """(path of the leaf, leaf, effective challenge, scope, responses)"""
    stmt = ref.inner(stmt)
    k = ref.kind(stmt)
    if k == "dl":
        yield path, stmt, int(c), scope, [int(r) for r in responses]
    elif k == "and":
        for i, s in enumerate(stmt.subproofs):
            yield from positions(s, c, responses[i], scope, path + (i,))
    else:
        for i, s in enumerate(stmt.subproofs):
            yield from positions(s, responses[0][i], responses[1][i], scope + (path, i), path + (1, i))


def solve(rows, n, q, rng):
    """A random solution of rows [(coefficients {j: a}, right side)] modulo the prime q, or None."""
    rows = [(dict(a), b % q) for a, b in rows]
    x, pivots = [None] * n, []
    done = []
    for a, b in rows:
        for j, (pa, pb) in done:
            f = a.get(j, 0)
            if f:
                for k, w in pa.items():
                    a[k] = (a.get(k, 0) - f * w) % q
                b = (b - f * pb) % q
        a = {k: w % q for k, w in a.items() if w % q}
        if not a:
            if b:
                return None
            continue
        j = min(a)
        inv = pow(a[j], -1, q)
        done.append((j, ({k: w * inv % q for k, w in a.items()}, b * inv % q)))
    used = {j for j, _ in done}
    for j in range(n):
        if j not in used:
            x[j] = rng.randrange(q)
    for j, (a, b) in reversed(done):
        x[j] = (b - sum(w * x[k] for k, w in a.items() if k != j)) % q
    return x


# ---------------------------------------------------------------- edits
def elements(tree):
    """Public elements of a tree that a forger may want to pick late."""
    out = []
    for i, n in enumerate(model.leaves(tree)):
        for w in KEYS[n["k"]]:
            out.append((i, w, None))
        for j in range(len(n["t"]) if n["k"] == "dl" else len(n["b"])):
            out.append((i, "base", j))
        if n["k"] == "dlne":
            out.append((i, "pre", 0))
        elif n["k"] == "p2":
            out += [(i, "pre", 0), (i, "pre-rand", 0)] + ([(i, "pre-pair", 0)] if n["n"] > 1 else [])
        elif n["k"] == "rng":
            out += [(i, "pre", 0), (i, "pre", 1), (i, "pre-rand", 0), (i, "pre-pair", 0), (i, "pre-pair", 1)]
    return out


def edit(case, el, delta, fresh):
    """The case with one element changed."""
    new = gen.clone(case)
    n = model.leaves(new["tree"])[el[0]]
    model.freeze(n, case["v"])
    for m in model.leaves(new["tree"]):
        model.freeze(m, case["v"])
    if el[1] == "base":
        if n["k"] == "dl":
            n["t"][el[2]][1] = fresh
        else:
            n["b"][el[2]] = fresh
    elif el[1] in KEYS[n["k"]]:
        n["pub"][el[1]].append([delta, 0])
    return new


def power_positions(stmt, pre, path=()):
    """(path in the precommitment, statement) of the extended statements."""
    from zksk.extended import ExtendedProofStmt
    if isinstance(stmt, ExtendedProofStmt):
        yield path, stmt
    elif hasattr(stmt, "subproofs"):
        for i, s in enumerate(stmt.subproofs):
            yield from power_positions(s, pre, path + (i,))


def pre_edit(n, pre, el, delta, gid, r):
    """Changed precommitment of one extended statement and the shift of its points."""
    side = model.SIDES["K"]
    d = bn(delta % model.order(gid)) * side.base(gid, 0)
    if n["k"] == "dlne":
        return pre + d, {delta % model.order(gid)}
    q = model.order(gid)
    cs, rand = list(pre["Cs"]), int(pre["rand"])
    i = r.randrange(len(cs))
    h = side.log(gid, n["b"][1])
    cs[i] = cs[i] + d
    shifts = {delta % q}
    if el[1] == "pre-pair" and len(cs) > 1:
        j = (i + 1 + r.randrange(len(cs) - 1)) % len(cs)
        other = -delta * pow(2, i, q) * pow(pow(2, j, q), -1, q) % q
        cs[j] = cs[j] + bn(other) * side.base(gid, 0)
        shifts.add(other)
    else:
        rand = (rand + pow(2, i, q) * delta * pow(h, -1, q)) % q
    return {"Cs": cs, "rand": bn(rand)}, shifts




def make(kinds, groups=None, depth=2, width=3):
    @st.composite
    def strat(draw):
        g = gen.G(draw, groups=draw(groups), kinds=kinds, depth=draw(st.integers(0, depth)), width=width, unknown=False,
                  mixed=False)
        tree = g.tree()
        picks = [[g.i(0, 200), g.i(0, 1 << 20)] for _ in range(g.i(1, 10))]
        return g.case(tree, picks=picks, msg=gen.message(draw))
    return strat()


@st.composite
def wide(draw):
    """Statements whose commitments take many kilobytes."""
    g = gen.G(draw, groups=[draw(st.sampled_from(["ec713", "ec415", "ec409"]))], depth=0, unknown=False, mixed=False)
    shape = g.pick(["and", "and", "nested", "or"])
    n = g.i(50, 70) if shape == "or" else g.i(60, 260)
    g.rand = random.Random(g.i(0, 1 << 32))
    g.long = g.wide = True
    pool = [] if shape != "or" else None
    leaves = [g.leaf_dl(pool if pool is not None else [], g.groups[0]) for _ in range(n)]
    if shape == "or":
        good = g.i(0, n - 1)
        for j, c in enumerate(leaves):
            if j != good:
                c["mark"] = "pre"
        tree = {"k": "or", "op": 0, "c": leaves}
    elif shape == "nested":
        cut = g.i(1, n - 2)
        tree = {"k": "and", "op": 0, "c": [{"k": "and", "op": 0, "c": leaves[:cut] + leaves[:1]}] + leaves[cut:]}
    else:
        tree = {"k": "and", "op": g.i(0, 1), "c": leaves}
    g.rand = None
    # evenly, or among the last elements of the statement or the last commitments
    picks = [[g.pick([g.i(0, 999), -g.i(1, 40), 10000 + g.i(0, 40)]), g.i(0, 1 << 20)] for _ in range(g.i(3, 6))]
    return g.case(tree, picks=picks, msg=gen.message(draw))


@st.composite
def bits(draw):
    """Range statements with long precommitments."""
    g = gen.G(draw, groups=[draw(st.sampled_from(["ec713", "ec415"]))], depth=0, unknown=False, mixed=False)
    pool = []
    if g.b():
        node = g.leaf_p2(pool, g.groups[0])
        node["n"] = g.i(40, 100)
    else:
        node = g.leaf_rng(pool, g.groups[0])
        w = g.i(1 << 24, 1 << 45)
        node["lo"] = g.v[node["x"]] - g.i(0, w - 1)
        node["hi"] = node["lo"] + w
    tree = {"k": "and", "op": 0, "c": [node, g.leaf_dl(pool, g.groups[0])]} if g.b() else node
    picks = [[g.pick([g.i(0, 200), 10000 + g.i(0, 9)]), g.i(0, 1 << 20)] for _ in range(g.i(3, 6))]
    return g.case(tree, picks=picks, msg=gen.message(draw))


def party(case, prover):
    return model.Party(case, "K", prover)


def digest_of(stmt):
    return stmt.prehash_statement().digest()


def run(case):
    labels = gen.describe(case)
    msg = case["msg"]
    pr = party(case, True)
    stmt = must("building", pr.build)
    nizk = must("proving", pr.prove, stmt, msg)
    v0 = party(case, False).build()
    must_accept("honest proof", verify, v0, nizk, msg)
    s0 = ref.constructed(party(case, False).build(), nizk.precommitment)
    log0 = logs(case["tree"], case["v"])
    els = elements(case["tree"])
    fixed = len(els)
    spots = list(positions(s0, nizk.challenge, nizk.responses))
    els += [(i, "commitment", None) for i in range(len(spots))]
    gid = model.leaves(case["tree"])[0]["g"]
    q = model.order(gid)
    r = core.rng()
    done = 0
    for pick, salt in case["picks"]:
        el = els[pick % len(els)] if pick < 10000 else els[(9999 - pick) % fixed]
        if el[1] == "commitment":
            # other responses, and the commitments they call for
            _, a, _, scope, rs = spots[el[0]]
            names = {s.name: bn(r.randrange(q)) for s in a.secret_vars}
            resp = nizk.responses
            for path, b, _, sc, _ in spots:
                for i, x in enumerate(b.secret_vars):
                    if sc == scope and x.name in names:
                        resp = ref.replace(resp, path + (i,), names[x.name])
            com = ref.recompute(s0, nizk.challenge, resp)
            if not ref.check(s0, com, nizk.challenge, nizk.responses):
                labels.add("late:commitment")
                done += 1
                must_reject("proof whose commitment was chosen after the challenge", verify, party(case, False).build(),
                            copy_nizk(nizk, responses=resp), msg)
            continue
        delta = 1 + h_int("delta", salt) % (q - 1)
        fresh = 1000 + salt % 50
        if el[1] == "base" and salt % 3 == 0:
            # a base that the statement has already
            fresh = known_base(case["tree"], el, salt)
            if fresh is None:
                continue
        new = edit(case, el, delta, fresh)
        n = model.leaves(new["tree"])[el[0]]
        old = model.leaves(case["tree"])[el[0]]
        s1 = party(new, False).build()
        pre = ref.deep(nizk.precommitment)
        shifts = {0}
        if el[1] in KEYS[n["k"]]:
            shifts.add(delta % q)
        if el[1] == "base":
            d = (model.SIDES["K"].log(n["g"], fresh) - model.SIDES["K"].log(n["g"], old_base(old, el[2]))) % q
            shifts |= {d, -d % q}
        exts = list(power_positions(s1, pre))
        if el[1].startswith("pre"):
            # the el[0]-th leaf of the specification holds the extended statements from ``first`` on
            first = sum({"dlne": 1, "p2": 1, "rng": 2}.get(m["k"], 0) for m in model.leaves(case["tree"])[:el[0]])
            path = exts[first + (el[2] or 0)][0]
            new_pre, more = pre_edit(n, ref.get(pre, path), el, delta, n["g"], r)
            pre = ref.replace(pre, path, new_pre)
            shifts |= more
        elif n["k"] in ("p2", "rng"):
            # keep the bit commitments adding up
            first = sum({"dlne": 1, "p2": 1, "rng": 2}.get(m["k"], 0) for m in model.leaves(case["tree"])[:el[0]])
            for k in range(2 if n["k"] == "rng" else 1):
                path = exts[first + k][0]
                pre = ref.replace(pre, path + ("rand",), bn(fixed_rand(case, old, n, k, int(ref.get(pre, path)["rand"]))))
        s1 = ref.constructed(s1, pre)
        log1 = logs(new["tree"], new["v"])
        log1.update({k: v for k, v in log0.items() if k not in log1})
        table = {}
        for s in shifts:
            for t in shifts:
                w = (s - t) % q
                table.setdefault(bytes((bn(w) * model.SIDES["K"].base(n["g"], 0)).export()), w)
        forged = forge(s0, s1, nizk, log0, log1, table, q, r)
        if forged is None:
            labels.add("unsolvable:" + el[1])
            continue
        bad = copy_nizk(nizk, responses=forged, precommitment=pre, stmt_hash=digest_of(s1))
        com = ref.recompute(s0, nizk.challenge, nizk.responses)
        if not ref.check(s1, com, nizk.challenge, forged):
            labels.add("control-failed")
            continue
        labels |= {"late:%s-%s" % (n["k"], el[1])}
        done += 1
        vstmt = party(new, False).build()
        must_reject("proof whose %s of a %s statement was chosen after the challenge" % (el[1], n["k"]), verify, vstmt, bad, msg)
    if done:
        labels.add("nontrivial")
    return labels


def known_base(tree, el, salt):
    ls = model.leaves(tree)
    near = [ls[el[0]]] if salt % 2 else [n for n in ls if n["g"] == ls[el[0]]["g"]]
    old = old_base(ls[el[0]], el[2])
    bases = sorted({old_base(n, j) for n in near for j in range(len(n["t"]) if n["k"] == "dl" else len(n["b"]))} - {old})
    return bases[salt // 6 % len(bases)] if bases else None


def old_base(n, j):
    return n["t"][j][1] if n["k"] == "dl" else n["b"][j]


def fixed_rand(case, old, new, k, rand):
    """rand with sum 2^i C_i = com + rand h for the changed public values."""
    side, g = model.SIDES["K"], new["g"]
    q = model.order(g)

    def com(n):
        c = sum(a * side.log(g, b) for a, b in model.pub_terms(n, case["v"], "com"))
        if n["k"] == "rng":
            g0 = side.log(g, n["b"][0])
            c -= n["lo"] * g0
            if k:
                w = n["hi"] - n["lo"]
                c += (2 ** max(1, (w - 1).bit_length()) - w) * g0
        return c

    total = com(old) + rand * side.log(g, old["b"][1])
    return (total - com(new)) * pow(side.log(g, new["b"][1]), -1, q) % q


def forge(s0, s1, nizk, log0, log1, table, q, r):
    """Responses for s1 with the commitments of the proof for s0."""
    c, resp = nizk.challenge, nizk.responses
    names, rows = {}, []
    p0, p1 = list(positions(s0, c, resp)), list(positions(s1, c, resp))
    if len(p0) != len(p1):
        return None
    for (path, a, ch, scope, rs), (_, b, _, _, _) in zip(p0, p1):
        gid = group_id(a)
        diff = b.lhs + bn(q - 1) * a.lhs
        d = table.get(bytes(diff.export()))
        if d is None or len(a.bases) != len(b.bases):
            return None
        total = ch * d
        co = {}
        for s, w, x, y in zip(a.secret_vars, rs, a.bases, b.bases):
            lx, ly = log0.get((gid, bytes(x.export()))), log1.get((gid, bytes(y.export())))
            if lx is None or ly is None:
                if x != y:
                    return None
                # unknown, but unchanged: the response stays
                key = names.setdefault((scope, s.name), len(names))
                rows.append(({key: 1}, w))
                continue
            total += w * lx
            key = names.setdefault((scope, s.name), len(names))
            co[key] = (co.get(key, 0) + ly) % q
        rows.append((co, total % q))
    x = solve(rows, len(names), q, r)
    if x is None:
        return None
    out = resp
    for path, a, ch, scope, rs in p0:
        for i, s in enumerate(a.secret_vars):
            out = ref.replace(out, path + (i,), bn(x[names[(scope, s.name)]]))
    return out


def group_id(leaf):
    g = leaf.bases[0].group
    for gid in GIDS:
        if model.same_group(model.SIDES["K"].group(gid), g):
            return gid


GIDS = gen.FAST + ["G1", "G2", "GT"]

# ---------------------------------------------------------------- signatures
BBS_ELEMENTS = ["A1-1", "A1-2", "A1A2", "A2", "w", "h0", "gen0", "gen1", "gen2", "genm", "genm"]


@st.composite
def signatures(draw):
    g = gen.G(draw, groups=["G1"], kinds=("bbs",), depth=0)
    n = g.i(1, 3)
    msgs = [g.new_secret("pair") for _ in range(n)]
    bind = g.i(0, 1)
    es = [g.new_secret("pair", 0), g.new_secret("pair", 0)] if bind else []
    node = {"k": "bbs", "key": model.TRAP + g.i(0, 1), "sid": g.i(0, 9), "s": es + msgs, "bind": bind, "bad": None}
    return g.case(node, el=[g.pick(BBS_ELEMENTS) for _ in range(2)], d=g.i(1, 1 << 30), msg=gen.message(draw))


def run_signatures(case):
    """All of G1 in coordinates over (second, third generator), pairings by h0."""
    from zksk.primitives.bbsplus import BBSPlusPublicKey, BBSPlusSignatureStmt
    from zksk import Secret
    side = model.SIDES["V"]
    node, v, q = case["tree"], case["v"], model.order("G1")
    key = node["key"]
    pr = model.prover_party(case)
    stmt = must("building", pr.build)
    nizk = must("proving", pr.prove, stmt, case["msg"])
    must_accept("honest proof", verify, model.verifier_stmt(case), nizk, case["msg"])
    labels = {"messages:%d" % len(model.bbs_msgs(node)), "bind:%d" % node["bind"]}
    try:
        r1, r2 = int(stmt.r1.value), int(stmt.r2.value)
    except Exception:
        return labels | {"no access"}
    m = [v[s] for s in model.bbs_msgs(node)]
    e, s = model.sig_es(node)
    ga = model.gamma(key)
    n = len(m)
    vec = lambda i: (1, 0) if i == 1 else (0, model.trap(key, i))
    gens = [vec(i) for i in range(6)]
    add = lambda a, b: tuple((x + y) % q for x, y in zip(a, b))
    mul = lambda k, a: tuple(k * x % q for x in a)
    A = mul(pow(ga + e, -1, q), sum_vec([gens[0], mul(s, gens[1])] + [mul(x, gens[2 + i]) for i, x in enumerate(m)], q))
    P0 = {"gens": gens, "w": ga, "h0": 1, "A1": add(mul(r1, gens[1]), mul(r2, gens[2])), "A2": add(A, mul(r1, gens[2]))}
    pt = lambda a: bn(a[0]) * side.pk(key).generators[1] + bn(a[1]) * side.pk(key).generators[2]
    pre = nizk.precommitment
    if pt(P0["A1"]) != pre["A1"] or pt(P0["A2"]) != pre["A2"]:
        return labels | {"no access"}
    c = int(nizk.challenge)
    z = [[int(x) for x in part] for part in nizk.responses]
    if [len(x) for x in z] != [2, 3, n + 4]:
        return labels | {"other layout"}
    # variables: z_r1 z_r2 z_d1 z_d2 z_e z_s z_m...
    order = [[0, 1], [2, 3, 4], [4, 0, 2, 5] + [6 + i for i in range(n)]]

    def leaves(P):
        g = P["gens"]
        neg = lambda a: mul(-1, a)
        yield P["A1"], [g[1], g[2]]
        yield (0, 0), [g[1], g[2], neg(P["A1"])]
        k, w = P["h0"], P["w"]
        yield add(mul(w, P["A2"]), mul(-k, g[0])), [mul(-k, P["A2"]), mul(w, g[2]), mul(k, g[2]), mul(k, g[1])] + [
            mul(k, g[2 + i]) for i in range(n)]

    coms = []
    for (lhs, bases), zs in zip(leaves(P0), z):
        coms.append(add(sum_vec([mul(x, b) for x, b in zip(zs, bases)], q), mul(-c, lhs)))
    for el in case["el"]:
        d = case["d"]
        P = dict(P0, gens=list(gens))
        if el == "A1-1":
            P["A1"] = add(P["A1"], mul(d, gens[1]))
        elif el == "A1-2":
            P["A1"] = add(P["A1"], mul(d, gens[2]))
        elif el == "A2":
            P["A2"] = add(P["A2"], mul(d, gens[2]))
        elif el == "A1A2":
            P["A1"], P["A2"] = add(P["A1"], mul(d, gens[1])), add(P["A2"], mul(d, gens[2]))
        elif el in ("w", "h0"):
            P[el] = (P[el] + d) % q
        else:
            i = {"gen0": 0, "gen1": 1, "gen2": 2, "genm": 3 + d % max(1, n - 1)}[el]
            if i > 2 and n < 2:
                continue
            P["gens"][i] = add(P["gens"][i], (0, d))
        rows = []
        for (lhs, bases), com, vs in zip(leaves(P), coms, order):
            goal = add(com, mul(c, lhs))
            for axis in (0, 1):
                co = {}
                for j, b in zip(vs, bases):
                    co[j] = (co.get(j, 0) + b[axis]) % q
                rows.append((co, goal[axis]))
        x = solve(rows, 6 + n, q, core.rng())
        if x is None:
            labels.add("unsolvable:" + el)
            continue
        h0 = bn(P["h0"]) * side.group("G2").generator()
        pk = BBSPlusPublicKey(w=bn(P["w"]) * side.group("G2").generator(), h0=h0, generators=[pt(a) for a in P["gens"]])
        resp = [[bn(x[j]) for j in vs] for vs in order]
        pre1 = {"A1": pt(P["A1"]), "A2": pt(P["A2"])}
        new = lambda: BBSPlusSignatureStmt([Secret() for _ in node["s"]], pk, binding=bool(node["bind"]))
        s1 = ref.constructed(new(), pre1)
        com = ref.recompute(ref.constructed(model.verifier_stmt(case), pre), nizk.challenge, nizk.responses)
        if not ref.check(s1, com, c, resp):
            labels.add("control-failed")
            continue
        labels |= {"late:" + el, "nontrivial"}
        bad = copy_nizk(nizk, responses=resp, precommitment=pre1, stmt_hash=digest_of(s1))
        must_reject("signature proof whose %s was chosen after the challenge" % el, verify, new(), bad, case["msg"])
    return labels


def sum_vec(vs, q):
    return tuple(sum(x) % q for x in zip(*vs))


one = st.sampled_from([[g] for g in gen.FAST])
pairs = st.sampled_from([["G1"], ["G2"], ["GT"]])

PROP = Prop("C26", [
    Sub("dl", make(("dl",), one, 3, 4), run, 1800, rule="representation trees"),
    Sub("ext", make(("dl", "dlne", "rng", "p2"), one), run, 650, rule="with primitives"),
    Sub("prim", make(("dlne", "rng", "p2"), one, 0), run, 550, rule="single primitives"),
    Sub("pair", make(("dl", "dlne"), pairs, 1), run, 80, rule="over pairing groups"),
    Sub("wide", wide(), run, 90, rule="conjunctions of up to 260 and disjunctions of up to 70 representations"),
    Sub("bits", bits(), run, 40, rule="range statements with up to a hundred bit commitments"),
    Sub("signatures", signatures(), run_signatures, 160, rule="signature proofs"),
], rule="A case is an accepted proof and up to ten elements (public value, base, precommitment value, key, generator) that are "
   "replaced after the challenge is known; the responses are solved for, so that all commitments and the challenge stay. "
   "Non-trivial: at least one such proof satisfied all equations (confirmed by the reference) and was judged.")
