"""C10 Proofs use fresh full-range randomness and do not leak secrets."""
import math
import random

from hypothesis import strategies as st

from zkv import core, gen, model, ref
from zkv.core import Prop, Sub, must, must_accept, require
from zkv.proto import verify


def make(kinds, groups=None, depth=2, width=3):
    @st.composite
    def strat(draw):
        g = gen.G(draw, groups=draw(groups) if groups is not None else None, kinds=kinds,
                  depth=draw(st.integers(0, depth)), width=width, p_ext=2)
        tree = g.tree()
        return g.case(tree, n=g.i(2, 3), how=g.pick(["same", "rebuild", "int", "reseed", "mixed", "prover", "prover"]),
                      plan=[g.pick(["nizk", "nizk", "int", "again", "abort", "given", "given"]) for _ in range(3)],
                      given=sorted(set(g.pick(model.all_secrets(tree)) for _ in range(g.i(1, 3)))), msg=gen.message(draw))
    return strat()


def given(case, party):
    """Randomizers that the caller chooses, for some of the secrets."""
    es = {s for n in model.leaves(case["tree"]) if n["k"] == "bbs" and n["bind"] for s in n["s"][:2]}
    return {party.secrets[s]: model.bn(ref.CH * 12345 + model.h_int("given", s) % 99991) for s in case.get("given", ())
            if s not in es}


def transcripts(case):
    """Yields (statement, party, precommitment, challenge, responses)."""
    party = model.prover_party(case)
    stmt = party.build()
    if case["how"] == "prover":
        yield from one_prover(case, stmt, party)
        return
    for t in range(case["n"]):
        how = case["how"]
        if t and (how in ("rebuild", "reseed") or (how == "mixed" and t == 1)):
            party = model.prover_party(case)
            stmt = party.build()
        if how == "reseed":
            random.seed(case["salt"])
        if how == "int" or (how == "mixed" and t == 0):
            prover = must("get_prover", party.get_prover, stmt)
            pre = prover.precommit()
            com = prover.commit()[1]
            c = model.bn(core.rng().randrange(ref.CH))
            yield stmt, party, pre, com, c, prover.compute_response(c)
        else:
            nizk = must("proving", party.prove, stmt, case["msg"])
            rstmt = ref.constructed(model.verifier_stmt(case), nizk.precommitment)
            com = ref.recompute(rstmt, nizk.challenge, nizk.responses)
            yield stmt, party, nizk.precommitment, com, nizk.challenge, nizk.responses


def one_prover(case, stmt, party):
    """All runs by one prover object; a session that ends after its precommitment has no commitment."""
    prover = must("get_prover", party.get_prover, stmt)
    committed = False
    chosen = given(case, party)
    before = [(s.name, int(k)) for s, k in chosen.items()]
    for t in range(case["n"]):
        how = case["plan"][t]
        if how == "nizk":
            nizk = must("proving", prover.get_nizk_proof, *([case["msg"]] if case["msg"] is not None else []))
            committed = True
            rstmt = ref.constructed(model.verifier_stmt(case), nizk.precommitment)
            com = ref.recompute(rstmt, nizk.challenge, nizk.responses)
            yield stmt, party, nizk.precommitment, com, nizk.challenge, nizk.responses
            continue
        # "again": another commitment under the same precommitment
        pre = None if how == "again" and committed else must("precommitting", prover.precommit)
        if how == "abort":
            yield stmt, party, pre, None, None, None
            continue
        if how == "given":
            com = must("committing with given randomizers", prover.commit, chosen)[1]
            require([(s.name, int(k)) for s, k in chosen.items()] == before, "the given randomizers were changed")
        else:
            com = must("committing", prover.commit)[1]
        committed = True
        c = model.bn(core.rng().randrange(ref.CH))
        yield stmt, party, pre, com, c, must("responding", prover.compute_response, c)


def value_of(secret, party, names):
    if secret.name in names:
        return party.values[names[secret.name]]
    return None if secret.value is None else int(secret.value)


def near(a, b, q):
    d = (a - b) % q
    return min(d, q - d) < (q >> 60)


SMALL = [(a, b) for a in range(1, 6) for b in range(-5, 6) if b and math.gcd(a, b) == 1]


def subchallenges(stmt, resp, path=()):
    """(path, subchallenge) of all disjunctions with at least two clauses."""
    stmt = ref.inner(stmt)
    k = ref.kind(stmt)
    if k == "and":
        for i, s in enumerate(stmt.subproofs):
            yield from subchallenges(s, resp[i], path + (i,))
    elif k == "or":
        for i, s in enumerate(stmt.subproofs):
            if len(stmt.subproofs) > 1:
                yield path + (i,), int(resp[0][i])
            yield from subchallenges(s, resp[1][i], path + (i,))


def related(k, k2, q):
    """Whether a small linear relation ties two numbers."""
    for a, b in SMALL:
        if near(a * k, b * k2, q):
            return True
    # a k = b k2 with a and b far below the square root of q, by the extended Euclidean algorithm
    if k2 % q and q.bit_length() > 150:
        r0, r1, t0, t1 = q, k * pow(k2, -1, q) % q, 0, 1
        while r1 >> 50:
            r0, r1, t0, t1 = r1, r0 % r1, t1, t0 - r0 // r1 * t1
        return abs(t1) >> 50 == 0
    return False


def run(case):
    labels = gen.describe(case) | {"how:" + case["how"]}
    es = set()
    for n in model.leaves(case["tree"]):
        if n["k"] == "bbs" and n["bind"]:
            es.update(n["s"][:2])
    signed = {v for n in model.leaves(case["tree"]) if n["k"] == "bbs" for v in model.sig_es(n)}
    has_dlne = any(n["k"] == "dlne" for n in model.leaves(case["tree"]))
    zero_x = any(n["k"] == "dlne" and case["v"][n["x"]] % model.order(n["g"]) == 0
                 for n in model.leaves(case["tree"]))
    ks, internal, pts, seen, chs = {}, {}, [], {}, {}
    # without extensions it is plain where the given randomizers are used
    exact = all(n["k"] == "dl" for n in model.leaves(case["tree"]))
    for t, (stmt, party, pre, com, c, resp) in enumerate(transcripts(case)):
        names = {s.name: k for k, s in party.secrets.items() if k not in es}
        for p, v in ref.flatten(pre):
            if hasattr(v, "export"):
                pts.append((t, p, v))
        if com is None:
            labels.add("aborted")
            continue
        for path, ch in subchallenges(stmt, resp):
            require(ch not in chs, "two clauses have the same subchallenge: %r of run %d and %r", chs.get(ch), t, path)
            require(not near(ch, 0, ref.CH), "a subchallenge is not full-range: %d", ch)
            chs[ch] = (t, path)
        for scope, s, q, ch, r in ref.positions(stmt, c, resp):
            own = s.name in names
            x = value_of(s, party, names)
            if s.name in {party.secrets[e].name for e in es}:
                x = None if s.value is None else int(s.value)
            key = (t, scope, s.name)
            if case["how"] == "prover" and case["plan"][t] == "given" and scope == () and names.get(s.name) in case["given"]:
                labels.add("given")
                if exact and x is not None:
                    g = next(int(k) for y, k in given(case, party).items() if y.name == s.name)
                    require((r - ch * x - g) % q == 0, "a given randomizer was not used")
                continue
            if x is not None:
                k = (r - ch * x) % q
                if key in ks:
                    require(ks[key][0] == k, "two occurrences of one secret have different randomisers")
                ks[key] = (k, q)
            else:
                ks.setdefault(key, (r, q))
            ks.setdefault(key + ("response",), (r, q))
            # inside disjunctions the values may be left over from an earlier run
            if not own and x is not None and scope == () and x % q not in signed:
                if x % q not in [v for v, _ in internal.values()] or pre is not None:
                    internal[(t, s.name)] = (x % q, q)
        coms_flat = [bytes(v.export()) for _, v in ref.flatten(com)]
        if case["how"] == "prover" and case["plan"][t] == "given":
            # a part all of whose randomizers are given has the same commitment every time
            continue
        for u in seen:
            require(not set(coms_flat) & seen[u], "two proofs share a commitment")
        seen[t] = set(coms_flat)
    # randomisers and simulated responses
    by_q = {}
    for key, (k, q) in ks.items():
        by_q.setdefault((q, len(key)), []).append((key, k))
    for (q, _), items in by_q.items():
        for i, (key, k) in enumerate(items):
            require(not near(k, 0, q), "the randomiser of %s is not full-range: %d", key[2], k)
            for key2, k2 in items[:i]:
                require(not near(k, k2, q), "two randomisers coincide or are close: runs %d and %d", key2[0], key[0])
                require(not near(k, -k2, q), "two randomisers cancel")
                require(not related(k, k2, q), "two randomisers are related: runs %d and %d", key2[0], key[0])
    labels |= drift(by_q, case["n"])
    # values drawn inside primitives
    if not any(n["k"] == "cust" for n in model.leaves(case["tree"])):
        items = list(internal.items())
        for i, (key, (x, q)) in enumerate(items):
            if x == 0 and zero_x:
                continue
            require(not near(x, 0, q), "an internal secret is not full-range: %d", x)
            for key2, (x2, q2) in items[:i]:
                # the two internal secrets of an inequality are multiples of each other
                if q == q2 and not (has_dlne and key[0] == key2[0]):
                    require(not near(x, x2, q), "two internal secrets coincide")
        for i, (t, p, v) in enumerate(pts):
            g = v.group
            for b in [model.SIDES["P"].base(gid, j) for gid in {n.get("g", "G1") for n in model.leaves(case["tree"])}
                      for j in range(4) if model.same_group(model.SIDES["P"].group(gid), g)] or [g.generator()]:
                for d in (0, 1, -1):
                    diff = v - b if d == 1 else (v + b if d == -1 else v)
                    require(diff != g.infinite(), "a precommitment is a public point or neutral")
            for t2, p2, w in pts[:i]:
                if model.same_group(w.group, g):
                    require(v != w, "two precommitments coincide: %r of run %d and %r of run %d", p2, t2, p, t)
        labels |= bit_commitments(case, pts)
    return labels | {"nontrivial"}


def drift(by_q, n):
    """Two randomisers of one run must not keep their ratio or difference from run to run."""
    for (q, size), items in by_q.items():
        if size != 3:
            continue
        runs = [[k for key, k in items if key[0] == t] for t in range(n)]
        if len({len(r) for r in runs}) != 1 or len(runs[0]) < 2:
            continue
        for u in range(1, n):
            a, b = runs[0], runs[u]
            for i in range(len(a)):
                for j in range(i):
                    require((a[i] * b[j] - a[j] * b[i]) % q, "the ratio of two randomisers is the same in two runs")
                    require((a[i] - a[j] - b[i] + b[j]) % q, "the difference of two randomisers is the same in two runs")
    return set()


def bit_commitments(case, pts):
    """Bit commitments must not share blinding values: no two may differ by a multiple of the base."""
    labels = set()
    bases = {}
    for n in model.leaves(case["tree"]):
        if n["k"] in ("rng", "p2"):
            bases.setdefault(n["g"], set()).add(n["b"][0])
    for gid, bs in bases.items():
        grp = model.SIDES["P"].group(gid)
        for i, (t, p, v) in enumerate(pts):
            if not model.same_group(v.group, grp):
                continue
            for t2, p2, w in pts[:i]:
                if model.same_group(w.group, grp):
                    d = v - w
                    for b in bs:
                        B = model.SIDES["P"].base(gid, b)
                        require(d != B and d + B != grp.infinite(), "two bit commitments share their blinding value")
                        labels.add("bit-commitments")
    return labels


# ---------------------------------------------------------------- distribution
N = 220


@st.composite
def wide(draw):
    """Conjunctions and disjunctions with many components."""
    g = gen.G(draw, groups=[draw(st.sampled_from(["ec713", "ec415", "ec704"]))], depth=0, unknown=False, mixed=False)
    shape = g.pick(["and", "or", "or", "mixed"])
    n = g.i(8, 36)
    g.rand = random.Random(g.i(0, 1 << 32))
    g.long = g.wide = True
    if shape == "and":
        pool = []
        tree = {"k": "and", "op": 0, "c": [g.leaf_dl(pool, g.groups[0]) for _ in range(n)]}
    else:
        tree = {"k": "or", "op": 0, "c": [g.leaf_dl([], g.groups[0]) for _ in range(n)]}
        good = g.i(0, n - 1)
        for j, c in enumerate(tree["c"]):
            if j != good:
                c["mark"] = "pre"
        if shape == "mixed":
            tree = {"k": "and", "op": 0, "c": [tree] + [g.leaf_dl([], g.groups[0]) for _ in range(g.i(1, 9))]}
    g.rand = None
    return g.case(tree, n=2, how=g.pick(["same", "rebuild", "int", "reseed", "prover"]),
                  plan=[g.pick(["nizk", "int", "again", "abort"]) for _ in range(3)], given=[], msg=gen.message(draw))


@st.composite
def stat(draw):
    g = gen.G(draw, groups=[draw(st.sampled_from(["ec713", "ec415", "ec704"]))], kinds=("dl", "dlne", "p2", "rng"),
              depth=1, width=2, marks=True, unknown=False, p_ext=2)
    tree = g.tree(kind=g.pick(["leaf", "and", "or"]))
    return g.case(tree, n=N if all(n["k"] in ("dl", "dlne") for n in model.leaves(tree)) else N, how="same", msg=None)


def run_stat(case):
    es = set()
    nums = {}
    chance = len([n for n in model.walk(case["tree"]) if n["k"] == "or"])
    for t, (stmt, party, pre, com, c, resp) in enumerate(transcripts(case)):
        names = {s.name: k for k, s in party.secrets.items()}
        seen = set()
        for i, (scope, s, q, ch, r) in enumerate(ref.positions(stmt, c, resp)):
            x = value_of(s, party, names)
            k = (r - ch * x) % q if x is not None else r
            nums.setdefault(("randomiser", i), []).append(k * 8 // q)
            if s.name not in names and x is not None and scope == () and s.name not in seen and x:
                seen.add(s.name)
                nums.setdefault(("internal", len(seen)), []).append(x % q * 8 // q)
    for key, xs in nums.items():
        if len(xs) < N:
            continue
        for octant in range(8):
            n = xs.count(octant)
            require(0 < n < 75, "%s avoids part of its range: octant %d has %d of %d", key, octant, n, len(xs))
    return gen.describe(case) | {"nontrivial"}


ec1 = st.sampled_from([[g] for g in gen.FAST])
pairs = st.sampled_from([["G1"], ["G1", "G2"], ["GT"], ["G1", "ec713"]])

PROP = Prop("C10", [
    Sub("dl", make(("dl",)), run, 1500, rule="representation trees"),
    Sub("ext", make(("dl", "dlne", "rng", "p2", "cust"), ec1), run, 600, rule="with primitives"),
    Sub("prim", make(("dlne", "rng", "p2"), ec1, 0), run, 300, rule="single primitives"),
    Sub("pair", make(("dl", "bbs", "dlne"), pairs, 1), run, 120, rule="over pairing groups"),
    Sub("wide", wide(), run, 60, rule="up to 36 components"),
    Sub("stat", stat(), run_stat, 48, rule="%d runs of a statement, randomisers by octant of the group order" % N),
], rule="A case is a statement run two or three times (same objects, rebuilt, interactively, with the global "
   "generator reseeded identically). The randomisers are computed from responses and known secrets and compared "
   "pairwise, as are commitments, precommitments, internal secrets and bit commitments. Non-trivial: at least two "
   "runs were compared.", assumptions=["the operating system's randomness is replaced by a seeded stream, so "
   "coincidences found are caused by the library; its quality is not examined"])
