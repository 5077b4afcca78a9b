"""Hypothesis strategies for cases."""
import json
import random

from hypothesis import strategies as st

from zkv import model
from zkv.model import cls, cls_order, order

MESSAGES = [None, "", "a", "message", "zkp", "\u00e9", "e\u0301", "0", " ", "a" * 200, "\x00", "\U0001f600", "a\n", "\r\n", "b" * 5000,
            "{\"k\": 1}", "\u200b", "caf\u00e9\n" * 300]


def message(draw):
    return draw(st.sampled_from(MESSAGES))


class G:
    """State of one drawn case."""

    def __init__(self, draw, groups=None, kinds=("dl",), depth=3, width=4, marks=True, unknown=True,
                 false_ok=True, or_ok=True, allow_big=True, share=True, p_ext=3, op=True, mixed=True):
        self.draw = draw
        self.kinds = kinds
        self.depth = depth
        self.width = width
        self.marks = marks
        self.unknown = unknown
        self.false_ok = false_ok
        self.or_ok = or_ok
        self.share = share
        self.allow_big = allow_big
        self.p_ext = p_ext
        self.op = op
        self.mixed = mixed
        self.v = {}
        self.cls = {}
        self.unk = []
        self.order = 0
        if groups is None:
            groups = draw_groups(draw)
        self.groups = groups
        self.protected = set()
        self.rand = None      # random source in place of single draws while a long statement is made
        # sometimes, one flat statement with many components and terms
        self.long = self.one_in(18)
        self.wide = False

    # -------------------------------------------------- primitives
    def i(self, lo, hi):
        return self.rand.randint(lo, hi) if self.rand else self.draw(st.integers(lo, hi))

    def b(self):
        return self.rand.random() < 0.5 if self.rand else self.draw(st.booleans())

    def one_in(self, n):
        return self.i(0, n - 1) == n - 1

    def pick(self, xs):
        return xs[self.i(0, len(xs) - 1)]

    def value(self, c):
        q = cls_order(c)
        kind = self.i(0, 9)
        if kind <= 2:
            return self.i(0, 40)
        if kind == 3:
            return self.pick([0, 1, -1, 2, q - 1, q, q + 1, -q, 2 * q + 5, q // 2, -2, 2 ** 31 - 1])
        if kind == 4:
            return -self.i(1, 2 ** 20)
        if kind == 5 and self.v:
            same = [v for s, v in self.v.items()]
            return self.pick(same)
        if kind == 6:
            return self.i(0, 2 ** 40)
        if kind == 7 and self.allow_big:
            return q + self.i(0, 2 ** 280)
        return self.i(1, q - 1)

    def new_secret(self, c, value=None):
        name = "x%d" % len(self.v)
        self.v[name] = self.value(c) if value is None else value
        self.cls[name] = c
        return name

    def secret(self, c, pool, fresh=False):
        have = [s for s in pool if self.cls[s] == c and s not in self.protected]
        if have and self.share and not fresh and self.i(0, 2) > 0:
            return self.pick(have)
        s = self.new_secret(c)
        pool.append(s)
        return s

    # -------------------------------------------------- leaves
    def leaf(self, pool, bad=None):
        """bad: None, 'false' (marked by the caller) or 'unk' (lacks a value)."""
        kind = "dl"
        # whether a user-defined primitive lacks values is not known to the library
        ext = [k for k in self.kinds if k != "dl" and not (k == "cust" and bad == "unk")]
        if ext and ("dl" not in self.kinds or self.one_in(self.p_ext)):
            kind = self.pick(ext)
        if bad == "unk" and kind == "bbs" and self.b():
            node = self.leaf_bbs(pool)
            node["nosig"] = 1
            return node
        local = pool
        if bad == "unk":
            local = list(pool)
        g = self.pick(self.groups)
        node = getattr(self, "leaf_" + kind)(local, g) if kind != "bbs" else self.leaf_bbs(local)
        if bad == "unk":
            # one secret of this leaf is replaced by a fresh one without a value
            names = model.bbs_msgs(node) if kind == "bbs" else model.all_secrets(node)
            old = self.pick(names)
            new = self.new_secret(self.cls[old], self.v[old])
            self.unk.append(new)
            self.protected.add(new)
            rename(node, old, new)
        if bad == "false":
            self.falsify(node)
        return node

    def falsify(self, node):
        k = node["k"]
        if k in ("dl", "cust"):
            node["off"] = self.i(1, 50)
        elif k == "dlne":
            if self.b():
                node["d"] = 0
            else:
                node["off"] = self.i(1, 50)
        elif k == "rng":
            c = self.i(0, 2)
            x = self.v[node["x"]]
            if c == 0:
                node["off"] = self.i(1, 50)
            elif c == 1:
                w = node["hi"] - node["lo"]
                node["lo"] = x + self.i(1, 3)
                node["hi"] = node["lo"] + w
            else:
                w = node["hi"] - node["lo"]
                node["hi"] = x - self.i(0, 2)
                node["lo"] = node["hi"] - w
        elif k == "p2":
            if self.b() or self.v[node["x"]] == 0:
                node["off"] = self.i(1, 50)
            else:
                node["n"] = max(1, self.v[node["x"]].bit_length() - 1)
                if node["n"] >= self.v[node["x"]].bit_length():
                    node["off"] = 1
        elif k == "bbs":
            node["bad"] = self.pick(["A", "e", "s", "key", "msg"])

    def leaf_dl(self, pool, g):
        n = self.pick([1, 1, 1, 2, 2, 3, 4])
        if self.wide:
            n = self.pick([1, 1, 1, 2])
        elif self.long and self.i(0, 2) == 2:
            n = self.i(5, 12)
        terms = []
        for _ in range(n):
            terms.append([self.secret(cls(g), pool), self.i(0, 4)])
        return {"k": "dl", "g": g, "t": terms, "off": 0, "w": self.i(0, 1)}

    def leaf_dlne(self, pool, g):
        b0 = self.i(0, 3)
        b1 = self.i(0, 3)
        bind = self.i(0, 1)
        x = self.secret(cls(g), pool)
        d = self.pick([1, -1, self.i(1, 2 ** 30)])
        node = {"k": "dlne", "g": g, "x": x, "b": [b0, b1], "d": d, "off": 0, "bind": bind}
        others = [o for o in self.groups if o in model.PAIR and o != g]
        if self.mixed and g in model.PAIR and others and self.b():
            node["hg"] = self.pick(others)
        return node

    def leaf_rng(self, pool, g):
        x = self.secret(cls(g), pool)
        r = self.secret(cls(g), pool, fresh=not self.one_in(6))
        w = self.pick([1, 2, 3, 4, 5, 7, 8, 9, 16, self.i(1, 40)])
        lo = self.v[x] - self.i(0, w - 1)
        b0 = self.i(0, 3)
        return {"k": "rng", "g": g, "x": x, "r": r, "b": [b0, (b0 + self.i(1, 3)) % 4],
                "lo": lo, "hi": lo + w, "off": 0, "big": self.i(0, 1)}

    def leaf_p2(self, pool, g):
        n = self.pick([1, 2, 3, 4, 5, 8])
        x = self.new_secret(cls(g), self.i(0, 2 ** n - 1))
        pool.append(x)
        r = self.secret(cls(g), pool, fresh=not self.one_in(6))
        b0 = self.i(0, 3)
        return {"k": "p2", "g": g, "x": x, "r": r, "b": [b0, (b0 + self.i(1, 3)) % 4], "n": n,
                "off": 0, "anon": self.i(0, 1)}

    def leaf_bbs(self, pool, g=None):
        bind = self.i(0, 1)
        n = self.pick([1, 2, 3])
        msgs = [self.secret("pair", pool) for _ in range(n)]
        key = self.i(0, 1)
        sid = len(self.v)
        names = list(msgs)
        if bind:
            es = [self.new_secret("pair", 0), self.new_secret("pair", 0)]
            self.protected.update(es)
            names = es + msgs
        return {"k": "bbs", "key": key, "sid": sid, "s": names, "bind": bind, "bad": None}

    def leaf_cust(self, pool, g):
        from zkv import custom
        return custom.draw(self, pool, g)

    # -------------------------------------------------- trees
    def tree(self, depth=None, pool=None, bad=None, kind=None):
        if self.long and depth is None and self.rand is None:
            self.rand = random.Random(self.i(0, 2 ** 32))
            try:
                return self.tree(None, pool, bad, kind)
            finally:
                self.rand = None
        depth = self.depth if depth is None else depth
        pool = [] if pool is None else pool
        if kind is None:
            c = self.i(0, 5) if depth > 0 else 0
            if c <= 1 and depth < self.depth or depth == 0:
                kind = "leaf"
            else:
                kind = "or" if (c >= 4 and self.or_ok) else "and"
        if kind == "leaf":
            return self.leaf(pool, bad)
        n = self.i(2, self.width) if depth == self.depth else self.pick([2, 2, 3])
        if self.long and depth == self.depth:
            n = self.i(5, 14) if self.kinds == ("dl",) else self.i(4, 7)
            if n >= 11 and self.kinds == ("dl",):
                n = self.i(16, 40)
                self.wide = True
            depth = 1
        op = self.i(0, 1) if self.op else 0
        if kind == "and":
            node = {"k": "and", "op": op, "c": []}
            spoiled = self.i(0, n - 1) if bad else None
            for j in range(n):
                node["c"].append(self.child(depth, pool, bad if j == spoiled else None, under="and"))
            return node
        node = {"k": "or", "op": op, "c": []}
        pool = []
        goods = [False] * n
        # sometimes a single clause of a long disjunction has its secrets and no mark tells which
        lonely = self.long and n > 4 and self.unknown and bad is None and self.b()
        if lonely:
            goods[self.pick([n - 1, n - 1, self.i(0, n - 1)])] = True
        elif bad is None:
            first = self.i(0, n - 1)
            goods = [j == first or not (self.marks or self.unknown) or self.i(0, 1) == 0
                     for j in range(n)]
        for j in range(n):
            if goods[j]:
                c = self.child(depth, pool, None, under="or")
            else:
                ways = (["mark"] if self.marks else []) + (["unk"] if self.unknown else [])
                if lonely:
                    way, sub = "plain", "unk"
                elif bad is None:
                    way = self.pick(ways)
                    sub = "unk" if way == "unk" else self.pick([None] + (
                        ["false"] if self.false_ok else []) + (["unk"] if self.unknown else []))
                else:
                    way, sub = "plain", bad
                c = self.child(depth, pool, sub, under="or")
                if way == "mark":
                    self.mark(node, c)
            node["c"].append(c)
        return node

    def mark(self, parent, c):
        leafy = c["k"] in ("dl", "dlne", "bbs")
        if parent["op"]:
            if c["k"] == parent["k"]:
                c["op"] = 0
                parent["op"] = 0
                c["mark"] = self.pick(["pre", "post"])
            else:
                c["mark"] = self.pick(["pre", "ctor"] if leafy else ["pre"])
        else:
            c["mark"] = self.pick(["pre", "post"] + (["ctor"] if leafy else []))

    def child(self, depth, pool, bad, under):
        c = self.i(0, 7)
        if depth <= 1 or c <= 3:
            return self.leaf(pool, bad)
        if c <= 5 or not self.or_ok:
            return self.tree(depth - 1, pool, bad, "and")
        return self.tree(depth - 1, [], bad, "or")

    def style(self):
        out = {}
        for s in self.v:
            out[s] = self.pick(["b", "i", "bd", "id", "bn", "b"])
        return out

    def case(self, tree, **extra):
        c = {"v": self.v, "unk": self.unk, "tree": tree, "style": self.style(),
             "salt": self.i(0, 2 ** 16)}
        c.update(extra)
        return prune(c)


def prune(case):
    used = set(model.all_secrets(case["tree"]))
    case["v"] = {s: v for s, v in case["v"].items() if s in used}
    case["unk"] = [s for s in case["unk"] if s in used]
    case["style"] = {s: v for s, v in case["style"].items() if s in used}
    return case


def rename(node, old, new):
    k = node["k"]
    if k in ("dl", "cust"):
        node["t"] = [[new if s == old else s, b] for s, b in node["t"]]
    elif k == "bbs":
        node["s"] = [new if s == old else s for s in node["s"]]
    else:
        for f in ("x", "r"):
            if node.get(f) == old:
                node[f] = new


FAST = ["ec713", "ec415", "ec704", "ec706", "ec409"]


def draw_groups(draw, pair=True):
    c = draw(st.integers(0, 19))
    if c <= 11:
        return [FAST[c % 5]]
    if c <= 15:
        return sorted(draw(st.sets(st.sampled_from(FAST), min_size=2, max_size=2)))
    if c == 16 or not pair:
        return [draw(st.sampled_from(model.EC))]
    return [["G1"], ["G1", "G2"], ["G1", "ec713"]][c - 17]


def clone(x):
    return json.loads(json.dumps(x))


def describe(case):
    """Class labels of a tree."""
    out = set()
    tree = case["tree"]
    for n in model.walk(tree):
        out.add("kind:" + n["k"])
        if n.get("mark"):
            out.add("marked")
        if n["k"] == "or" and len(n["c"]) > 2:
            out.add("or-wide")
    ls = model.all_secrets(tree)
    if len(set(ls)) < len(ls):
        out.add("shared-secret")
    if case.get("unk"):
        out.add("unknown-secret")

    def depth(n):
        return 1 + max([depth(c) for c in n.get("c", ())] or [-1])

    out.add("depth:%d" % depth(tree))
    gs = {n.get("g", "G1") for n in model.leaves(tree)}
    out.add("groups:" + ("pair" if any(not g.startswith("ec") for g in gs) else "ec"))
    if len(gs) > 1:
        out.add("several-groups")
    return out
