"""C03 A proof is valid only for the statement it was made for."""
from hypothesis import strategies as st

from zkv import core, gen, model, ref
from zkv.core import Prop, Sub, must, must_accept, must_reject, require
from zkv.proto import copy_nizk, interactive, verify


def edit(g, tree, v):
    """One edit of the statement. Returns (new tree, name). May leave the statement the same."""
    t = gen.clone(tree)
    nodes = list(model.walk(t))
    n = g.pick(nodes)
    k = n["k"]
    parents = [(p, i) for p in nodes for i, c in enumerate(p.get("c", ())) if c is n]

    def new(value, c):
        name = "y%d" % len(v)
        v[name] = value
        g.cls[name] = c
        return name

    if k in ("and", "or"):
        what = g.pick(["connective", "swap", "group", "drop", "dup", "ungroup", "rotate", "flip-in", "regroup",
                       "regroup"])
        c = n["c"]
        if what == "connective":
            n["k"] = "or" if k == "and" else "and"
        elif what == "swap":
            i, j = g.i(0, len(c) - 1), g.i(0, len(c) - 1)
            c[i], c[j] = c[j], c[i]
        elif what == "rotate":
            n["c"] = c[1:] + c[:1]
        elif what == "group":
            if len(c) > 2:
                i = g.i(0, len(c) - 2)
                n["op"] = 0
                n["c"] = c[:i] + [{"k": g.pick([k, "and", "or"]), "op": 0, "c": c[i:i + 2]}] + c[i + 2:]
        elif what == "regroup":
            # the same clauses in the same order, under other parentheses
            inner = [i for i, x in enumerate(c) if x["k"] in ("and", "or")]
            if not inner:
                if len(c) < 3:
                    return t, what
                i = g.i(0, len(c) - 2)
                c[i:i + 2] = [{"k": k, "op": 0, "c": c[i:i + 2]}]
            else:
                i = g.pick(inner)
                x = c[i]
                how = g.i(0, 2)
                n["op"] = x["op"] = 0
                if how == 0 and i + 1 < len(c) and len(c) > 2:
                    x["c"].append(c.pop(i + 1))
                elif how == 1 and len(x["c"]) > 2:
                    c.insert(i + 1, x["c"].pop())
                else:
                    c[i:i + 1] = x["c"]
        elif what == "ungroup":
            flat = []
            for x in c:
                flat.extend(x["c"] if x["k"] in ("and", "or") else [x])
            n["c"] = flat
        elif what == "drop":
            if len(c) > 2:
                del c[g.i(0, len(c) - 1)]
            elif parents:
                p, i = parents[0]
                p["c"][i] = c[g.i(0, 1)]
            else:
                return c[g.i(0, 1)], what
        elif what == "dup":
            i = g.i(0, len(c) - 1)
            c.insert(g.i(0, len(c)), gen.clone(c[i]))
        else:
            for x in c:
                if x["k"] in ("and", "or"):
                    x["k"] = "or" if x["k"] == "and" else "and"
                    break
        return t, what
    model.freeze(n, v)
    common = ["wrap"]
    if k == "dl":
        what = g.pick(common + ["lhs", "base", "swap-terms", "drop-term", "add-term", "split", "merge",
                                "negate", "repeat-term", "other-kind"])
        ts = n["t"]
        i = g.i(0, len(ts) - 1)
        c = model.cls(n["g"])
        if what == "lhs":
            n["off"] = n.get("off", 0) + g.i(1, 9)
        elif what == "base":
            ts[i][1] = (ts[i][1] + g.i(1, 4)) % 5
        elif what == "swap-terms":
            n["t"] = ts[1:] + ts[:1]
        elif what == "drop-term":
            if len(ts) > 1:
                del ts[i]
        elif what == "add-term":
            ts.insert(g.i(0, len(ts)), [new(0, c), g.i(0, 4)])
        elif what == "repeat-term":
            ts.append(list(ts[i]))
        elif what == "split":
            ts[i][0] = new(v[ts[i][0]], c)
        elif what == "merge":
            others = [s for s in model.all_secrets(t) if g.cls.get(s) == c]
            ts[i][0] = g.pick(others)
        elif what == "negate":
            n["pub"]["lhs"] = [[-a, b] for a, b in n["pub"]["lhs"]]
        elif what == "other-kind":
            m = {"k": "dlne", "g": n["g"], "x": ts[0][0], "b": [ts[0][1], (ts[0][1] + 1) % 4], "d": 1,
                 "off": n.get("off", 0), "bind": 1}
            n.clear()
            n.update(m)
    elif k == "dlne":
        what = g.pick(common + ["h0", "h1", "b0", "b1", "bind", "swap-pairs", "split", "swap-bases"])
        if what == "h0":
            n["off"] = n.get("off", 0) + g.i(1, 9)
        elif what == "h1":
            n["pub"]["h1"] = [[n["pub"]["h1"][0][0] + g.i(1, 9), n["pub"]["h1"][0][1]]]
        elif what in ("b0", "b1"):
            n["b"][int(what[1])] = (n["b"][int(what[1])] + g.i(1, 3)) % 4
        elif what == "bind":
            n["bind"] = 1 - n["bind"]
        elif what == "swap-pairs":
            n["pub"] = {"h0": n["pub"]["h1"], "h1": n["pub"]["h0"]}
            n["b"] = n["b"][::-1]
            n["g"], n["hg"] = model.hgroup(n), n["g"]
        elif what == "swap-bases":
            n["b"] = n["b"][::-1]
        elif what == "split":
            n["x"] = new(v[n["x"]], model.cls(n["g"]))
    elif k in ("rng", "p2"):
        what = g.pick(common + ["com", "swap-bases", "base", "bounds", "shift", "split", "widen", "lo",
                                "hi"])
        if what == "com":
            n["off"] = n.get("off", 0) + g.i(1, 9)
        elif what == "swap-bases":
            n["b"] = n["b"][::-1]
        elif what == "base":
            i = g.i(0, 1)
            n["b"][i] = (n["b"][i] + g.i(1, 3)) % 4
        elif what == "split":
            f = g.pick(["x", "r"])
            n[f] = new(v[n[f]], model.cls(n["g"]))
        elif k == "p2":
            n["n"] = max(1, n["n"] + g.pick([-1, 1, 2]))
        else:
            d = g.i(1, 3)
            if what in ("bounds", "shift"):
                n["lo"] += d
                n["hi"] += d
            elif what == "lo":
                n["lo"] -= d
            elif what == "hi":
                n["hi"] += d
            else:
                n["lo"] -= d
                n["hi"] += d
    else:
        what = g.pick(common + ["key", "bind", "order", "drop-msg", "add-msg", "split"])
        ms = model.bbs_msgs(n)
        if what == "key":
            n["key"] += 1
        elif what == "bind":
            if n["bind"]:
                n["s"], n["bind"] = n["s"][2:], 0
            else:
                n["s"], n["bind"] = [new(0, "pair"), new(0, "pair")] + n["s"], 1
        elif what == "order":
            n["s"] = n["s"][:-len(ms)] + ms[::-1]
        elif what == "drop-msg":
            if len(ms) > 1:
                n["s"] = n["s"][:-1]
        elif what == "add-msg":
            if len(ms) < 4:
                n["s"] = n["s"] + [new(0, "pair")]
        elif what == "split":
            n["s"] = n["s"][:-1] + [new(v[n["s"][-1]], "pair")]
    if what == "wrap":
        w = {"k": g.pick(["and", "or"]), "op": 0, "c": [gen.clone(n), gen.clone(n)]}
        n.clear()
        n.update(w)
    return t, what


def make(kinds, groups=None, depth=3):
    @st.composite
    def strat(draw):
        g = gen.G(draw, groups=draw(groups) if groups is not None else None, kinds=kinds,
                  depth=draw(st.sampled_from(list(range(depth + 1)) + [depth])), width=draw(st.sampled_from([3, 3, 4])),
                  marks=False, unknown=False)
        tree = g.tree()
        for n in model.leaves(tree):
            if g.one_in(3):
                model.freeze(n, g.v)
        v2 = dict(g.v)
        other, what = edit(g, tree, v2)
        if g.one_in(6):
            other, what2 = edit(g, other, v2)
            what += "+" + what2
        c = g.case(tree, msg=gen.message(draw), what=what)
        c["other"] = {"tree": other, "v": {s: v2[s] for s in dict.fromkeys(model.all_secrets(other))}}
        return c
    return strat()


def run(case):
    other = case["other"]
    same = model.canonical(case) == model.canonical(other)
    labels = gen.describe(case) | {"edit:" + case["what"].split("+")[0]}
    if same:
        return labels | {"same-statement"}
    try:
        vother = model.verifier_stmt(other)
    except Exception:
        return labels | {"edit-not-constructible"}
    party = model.prover_party(case)
    stmt = must("building", party.build)
    nizk = must("proving a true statement", party.prove, stmt, case["msg"])
    msg = case["msg"]
    must_accept("honest proof", verify, model.verifier_stmt(case), nizk, msg)
    must_reject("proof of another statement", verify, vother, nizk, msg)
    # again, with the digest of the other statement
    vother = model.verifier_stmt(other)
    digest = None
    try:
        v = vother.get_verifier()
        v.process_precommitment(nizk.precommitment)
        digest = vother.prehash_statement().digest()
    except Exception:
        labels.add("digest-unavailable")
    if digest is not None:
        # The digest covers the constructed representations; bounds and the like of extended statements
        # may be enforced by validation alone, so equal digests matter only for plain representations.
        if all(n["k"] == "dl" for c in (case, other) for n in model.leaves(c["tree"])):
            require(digest != nizk.stmt_hash, "different statements have the same digest")
        elif digest == nizk.stmt_hash:
            labels.add("same-digest")
        vother = model.verifier_stmt(other)
        must_reject("proof of another statement, digest replaced", verify, vother,
                    copy_nizk(nizk, stmt_hash=digest), msg)
    occurrences = model.all_secrets(case["tree"])
    if len(occurrences) > 9 and all(n["k"] == "dl" for n in model.leaves(case["tree"])):
        patterns(case, nizk)
        labels.add("patterns")
    # interactive, talking to a verifier of the other statement
    try:
        prover = party.get_prover(party.build())
    except Exception:
        prover = None
    if prover is not None:
        must_reject("interactive run with a verifier of another statement", interactive, prover,
                    model.verifier_stmt(other).get_verifier())
    return labels | {"nontrivial"}


def pattern(names):
    first = list(dict.fromkeys(names))
    return [first.index(s) for s in names]


def patterns(case, nizk):
    """A statement with many secrets differs from all those in which one occurrence has another secret."""
    r = core.rng()
    v = dict(case["v"], other=5)
    tree = gen.clone(case["tree"])
    for n in model.leaves(tree):
        model.freeze(n, case["v"])
    names = model.all_secrets(tree)
    at = [(i, j) for i, n in enumerate(model.leaves(tree)) for j in range(len(n["t"]))]
    pairs = [(a, b) for a in range(len(at)) for b in names[:a] + ["other"] if names[a] != b]
    for a, b in r.sample(pairs, min(14, len(pairs))):
        t = gen.clone(tree)
        i, j = at[a]
        model.leaves(t)[i]["t"][j][0] = b
        other = {"tree": t, "v": {s: v[s] for s in dict.fromkeys(model.all_secrets(t))}}
        if pattern(model.all_secrets(t)) == pattern(names):
            continue
        digest = must("digest", lambda: model.verifier_stmt(other).prehash_statement().digest())
        require(digest != nizk.stmt_hash, "statements with other patterns of secrets have the same digest: %s at term %d", b, a)


ec1 = st.sampled_from([[g] for g in gen.FAST])
pairs = st.sampled_from([["G1"], ["G1", "G2"], ["G2"], ["GT"]])

PROP = Prop("C03", [
    Sub("dl", make(("dl",)), run, 4500, rule="representation trees"),
    Sub("ext", make(("dl", "dlne", "rng", "p2"), ec1, 2), run, 1600, rule="with primitives"),
    Sub("pair", make(("dl", "bbs", "dlne"), pairs, 1), run, 240, rule="over pairing groups"),
], rule="A case is a true statement and an edited one. Non-trivial: the two differ in canonical form "
   "(public values, bases, term order, pattern of shared secrets, connectives, nesting, bounds, kind), "
   "and the proof of the first was accepted for the first.")
