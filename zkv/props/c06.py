"""C06 A secret reused across conjuncts is enforced to be one value."""
import random

from hypothesis import strategies as st

from zkv import core, gen, model, ref
from zkv.core import Prop, Sub, must, must_accept, must_reject
from zkv.proto import interactive, verify


def occurrences(tree):
    """[(leaf, slot)] of the secret occurrences that are enforced, in order."""
    out = []
    for n in model.leaves(tree):
        k = n["k"]
        if k == "dl" or (k == "cust" and n["inner"] == "dl"):
            out += [(n, i) for i in range(len(n["t"]))]
        elif k == "dlne" and n["bind"]:
            out.append((n, "x"))
        elif k == "rng":
            out += [(n, "x"), (n, "r")]
        elif k == "bbs":
            out += [(n, i) for i in range(2 if n["bind"] else 0, len(n["s"]))]
    return out


def get(n, slot):
    if isinstance(slot, str):
        return n[slot]
    return n["s"][slot] if n["k"] == "bbs" else n["t"][slot][0]


def put(n, slot, name):
    if isinstance(slot, str):
        n[slot] = name
    elif n["k"] == "bbs":
        n["s"][slot] = name
    else:
        n["t"][slot][0] = name


def make(kinds, groups=None, depth=2, width=4):
    @st.composite
    def strat(draw):
        g = gen.G(draw, groups=draw(groups) if groups is not None else None, kinds=kinds, depth=depth,
                  width=width, marks=False, unknown=False, or_ok=False, p_ext=2)
        pool = []
        core_ = g.tree(kind="and" if g.i(0, 4) else "leaf", pool=pool)
        occ = occurrences(core_)
        counts = {}
        for n, s in occ:
            counts.setdefault(get(n, s), []).append((n, s))
        many = sorted([k for k, v in counts.items() if len(v) > 1])
        if not many:
            # force a second occurrence
            n, s = occ[g.i(0, len(occ) - 1)] if occ else (None, None)
            if n is None:
                core_ = g.leaf_dl(pool, g.groups[0])
                n, s = core_, 0
            name = get(n, s)
            c = g.cls[name]
            gid = g.pick([x for x in g.groups if model.cls(x) == c] or ["G1"])
            extra = {"k": "dl", "g": gid, "t": [[name, g.i(0, 4)]], "off": 0, "w": 0}
            core_ = {"k": "and", "op": g.i(0, 1), "c": [core_, extra] if g.b() else [extra, core_]}
            many = [name]
        tree = core_
        for _ in range(g.pick([0, 0, 1, 1, 2])):
            if g.b():
                subs = [g.leaf([]) for _ in range(g.i(1, 2))]
                for x in subs:
                    x["mark"] = "pre"
                i = g.i(0, len(subs))
                tree = {"k": "or", "op": 0, "c": subs[:i] + [tree] + subs[i:]}
            else:
                i = g.i(0, 1)
                sib = g.leaf([])
                tree = {"k": "and", "op": 0, "c": [sib, tree] if i else [tree, sib]}
        # separate secrets for some of the occurrences of one or two secrets
        splits = []
        for name in many:
            if not splits or g.one_in(3):
                k = [i for i, (n, s) in enumerate(occurrences(tree)) if get(n, s) == name]
                chosen = [j for j in k[1:] if g.b()] or [k[-1]]
                if len(k) > 4 and g.b():
                    # a single one of many, often the last
                    chosen = [g.pick([k[-1], k[g.i(1, len(k) - 1)]])]
                q = model.cls_order(g.cls[name])
                for j in chosen:
                    splits.append([j, g.pick([1, -1, 2, q // 2, 1 << 128, g.i(1, q - 1)])])
        for n in model.walk(tree):
            n["op"] = 0 if "op" in n else None
            if n["op"] is None:
                del n["op"]
        c = g.case(tree, msg=gen.message(draw), splits=splits, mode=g.pick(["nizk", "int", "both"]),
                   alias=g.i(0, 1))
        return c
    return strat()


def wide(lo, hi):
    """A flat conjunction of many components over few secrets, one late occurrence split off."""
    @st.composite
    def strat(draw):
        g = gen.G(draw, groups=[draw(st.sampled_from(gen.FAST))], kinds=("dl",), marks=False,
                  unknown=False, or_ok=False)
        n = g.i(lo, hi)
        g.rand = random.Random(g.i(0, 2 ** 32))
        grp, c = g.groups[0], model.cls(g.groups[0])
        pool = [g.new_secret(c) for _ in range(g.pick([1, 2, 3, 6]))]
        leaves = [{"k": "dl", "g": grp, "t": [[g.pick(pool), g.i(0, 4)] for _ in range(g.pick([1, 1, 2]))],
                   "off": 0, "w": g.i(0, 1)} for _ in range(n)]
        tree = {"k": "and", "op": 0, "c": leaves}
        if g.one_in(4):
            # the same, half of it in a conjunction of its own
            tree = {"k": "and", "op": 0, "c": leaves[:n // 2] + [{"k": "and", "op": 0,
                                                                  "c": leaves[n // 2:]}]}
        if g.one_in(4):
            # one clause of a long disjunction
            del leaves[g.i(2, 4):]
            leaves[-1]["t"][-1][0] = leaves[0]["t"][0][0]
            tree = {"k": "and", "op": 0, "c": leaves} if g.b() else {
                "k": "dl", "g": grp, "t": [t for x in leaves for t in x["t"]], "off": 0, "w": 0}
            subs = [dict(g.leaf([]), mark="pre") for _ in range(g.i(4, 12))]
            i = g.pick([len(subs), g.i(0, len(subs))])
            tree = {"k": "or", "op": 0, "c": subs[:i] + [tree] + subs[i:]}
        g.rand = None
        occ = occurrences(tree)
        # an occurrence other than the first of its secret, anywhere
        late = [j for j, (m, s) in enumerate(occ) if any(get(*occ[k]) == get(m, s) for k in range(j))]
        q = model.cls_order(c)
        splits = [[late[g.i(0, len(late) - 1)], g.pick([1, -1, q // 2, g.i(1, q - 1)])]]
        return g.case(tree, msg="", splits=splits, mode=g.pick(["nizk", "int"]), alias=g.i(0, 1))
    return strat()


def separate(case):
    """The statement with secrets of their own, and the shared one with the same public values."""
    p = gen.clone(case)
    occ = occurrences(p["tree"])
    for k, (j, delta) in enumerate(case["splits"]):
        n, slot = occ[j]
        old = get(n, slot)
        if n["k"] == "bbs" and n["bind"] and slot < 2:
            return None, None
        new = "z%d" % k
        p["v"][new] = case["v"][old] + delta
        if n["k"] == "rng" and slot == "x":
            n["lo"] += delta
            n["hi"] += delta
        p["style"][new] = "b"
        put(n, slot, new)
    for n in model.leaves(p["tree"]):
        if n["k"] == "dlne":
            # keep the inequality true for the leaf's own value
            pass
        model.freeze(n, p["v"])
    v = gen.clone(p)
    occ = occurrences(v["tree"])
    orig = occurrences(case["tree"])
    for j, _ in case["splits"]:
        put(occ[j][0], occ[j][1], get(*orig[j]))
    return p, v


def run(case):
    p, v = separate(case)
    if p is None:
        return {"skip"}
    if model.provable(p["tree"], p["v"], p["v"]) != "yes":
        return {"not-provable-apart"}
    labels = gen.describe(case)
    msg = case["msg"]
    party = model.prover_party(p)
    stmt = must("building", party.build)
    p_noalias = dict(p, alias=0)
    if case["mode"] != "int":
        must_accept("distinct secrets with different values", verify, model.verifier_stmt(p_noalias),
                    must("proving with distinct secrets", party.prove, stmt, msg), msg)
        prover = party.get_prover(party.build())
        nizk = ref.cross_nizk(prover, model.verifier_stmt(v), msg)
        must_reject("one secret with two values", verify, model.verifier_stmt(v), nizk, msg)
    if case["mode"] != "nizk":
        must_accept("distinct secrets with different values, interactively", interactive,
                    party.get_prover(party.build()), model.verifier_stmt(p_noalias).get_verifier())
        must_reject("one secret with two values, interactively", ref.cross_interactive,
                    party.get_prover(party.build()), model.verifier_stmt(v).get_verifier())
    for j, _ in case["splits"]:
        labels.add("split:" + occurrences(case["tree"])[j][0]["k"])
    return labels | {"nontrivial", "mode:" + case["mode"]}


ec1 = st.sampled_from([[g] for g in gen.FAST])
pairs = st.sampled_from([["G1"], ["G1", "G2"], ["G2", "GT"], ["G1", "G2", "GT"]])

PROP = Prop("C06", [
    Sub("dl", make(("dl",)), run, 2400, rule="representation trees"),
    Sub("wide", wide(9, 60), run, 200, rule="flat conjunctions of 9 to 60 components, and disjunctions of up to 13 clauses"),
    Sub("ext", make(("dl", "dlne", "rng", "cust"), ec1), run, 700, rule="with primitives"),
    Sub("pair", make(("dl", "bbs", "dlne"), pairs, 1, 3), run, 150, rule="over pairing groups"),
], rule="A case is a conjunction (possibly inside a clause of a disjunction, possibly next to other "
   "conjuncts) in which a secret occurs several times, and a split of its occurrences into secrets of "
   "their own with different values, each satisfying its own occurrence. The library's prover for the "
   "separate statement talks to a verifier of the shared one. Non-trivial: the separate statement is true, "
   "is accepted with distinct secrets, and the shared one was judged.")
