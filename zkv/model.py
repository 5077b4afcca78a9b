"""Statement specs: JSON trees from which prover-side and verifier-side objects are built.

Two sides ("P" and "V") have group, key and point objects of their own, so a verifier-side
statement shares nothing with the prover-side one. Truth, usability and canonical form of a spec are
computed here with plain integers, without the library.

Nodes
  {"k":"dl","g":G,"t":[[secret, base],...],"off":o}       lhs = sum value*base + o*OFF
  {"k":"and"|"or","op":0|1,"c":[...]}                      op: built with & and |
  {"k":"dlne","g":G,"x":s,"b":[b0,b1],"d":d,"off":o,"bind":0|1}   H0 = x*b0 + o*OFF, H1 = (x+d)*b1
                                                                 ("hg": group of the second pair, if another)
  {"k":"rng","g":G,"x":s,"r":s,"b":[b0,b1],"lo":l,"hi":h,"off":o}
  {"k":"p2", ... "n":bits}
  {"k":"cust", ...} a user-defined primitive, see custom.py
  {"k":"bbs","key":i,"s":[e,s,m..]|[m..],"bind":0|1,"bad":None|...}
plus "mark": "ctor"|"pre"|"post" on children of an or-node.
"""
import functools
import hashlib
import json
import operator

from petlib.bn import Bn
from petlib.ec import EcGroup
from zksk import DLRep, Secret
from zksk.composition import AndProofStmt, OrProofStmt
from zksk.expr import wsum_secrets
from zksk.pairings import BilinearGroupPair
from zksk.primitives.bbsplus import BBSPlusPublicKey, BBSPlusSignature, BBSPlusSignatureStmt
from zksk.primitives.dl_notequal import DLNotEqual
from zksk.primitives.rangeproof import PowerTwoRangeStmt, RangeStmt

EC = ["ec713", "ec415", "ec704", "ec706", "ec409", "ec714", "ec715", "ec716", "ec707", "ec721"]   # the last two have cofactors
PAIR = ["G1", "G2", "GT"]
TRAP = 50  # keys with related generators
OFF = 77  # index of the base that makes statements false


def bn(v):
    v = int(v)
    if -(2 ** 31) < v < 2 ** 31:
        return Bn(v)
    return Bn.from_decimal(str(v))


def h_int(*parts):
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest(), "big")


class Side:
    """Groups, bases and keys of one party."""

    def __init__(self):
        self.groups = {}
        self.bases = {}
        self.pair = None
        self.keys = {}

    def group(self, gid):
        if gid not in self.groups:
            if gid.startswith("ec"):
                self.groups[gid] = EcGroup(int(gid[2:]))
            else:
                if self.pair is None:
                    self.pair = BilinearGroupPair()
                self.groups[gid] = getattr(self.pair, gid)
        return self.groups[gid]

    def base(self, gid, i):
        if (gid, i) not in self.bases:
            g = self.group(gid)
            if i == 0:
                p = g.generator()
            elif gid in ("G2", "GT"):
                p = bn(h_int("base", gid, i) % order(gid)) * g.generator()
            else:
                p, n = g.hash_to_point(b"zkv base %d" % i), 0
                while g.order() * p != g.infinite():
                    n += 1
                    p = g.hash_to_point(b"zkv base %d %d" % (i, n))
            self.bases[(gid, i)] = p
        return self.bases[(gid, i)]

    def lincomb(self, gid, terms):
        res = self.group(gid).infinite()
        for v, b in terms:
            v = int(v) % order(gid)
            if v:
                res = res + bn(v) * (self.base(gid, b) if isinstance(b, int) else b)
        return res

    def pk(self, key):
        """Public key ``key`` with generators for up to ten messages. From TRAP on, all generators but the
        second one are known multiples of the third."""
        if key not in self.keys:
            g1, g2 = self.group("G1"), self.group("G2")
            gens = [self.base("G1", 200 + i) for i in range(12)]
            if key >= TRAP:
                gens = [gens[i] if i in (1, 2) else bn(trap(key, i)) * gens[2] for i in range(12)]
            h0 = g2.generator()
            self.keys[key] = BBSPlusPublicKey(w=bn(gamma(key)) * h0, h0=h0, generators=gens)
        return self.keys[key]


def same_group(a, b):
    return type(a) is type(b) and a == b


_orders = {}


def order(gid):
    if gid not in _orders:
        _orders[gid] = int(SIDES["P"].group(gid).order())
    return _orders[gid]


SIDES = {"P": Side(), "V": Side()}


def cls(gid):
    """Groups of the same class have the same order."""
    return gid if gid.startswith("ec") else "pair"


def cls_order(c):
    return order("G1" if c == "pair" else c)


def trap(key, i):
    return 1 if i == 2 else h_int("trap", key, i) % order("G1")


def gamma(key):
    return h_int("gamma", key) % order("G1")


# ---------------------------------------------------------------- signatures
def sig_es(node):
    q = order("G1")
    return h_int("e", node.get("sid", 0), node["key"]) % q, h_int("s", node.get("sid", 0), node["key"]) % q


def bbs_msgs(node):
    return node["s"][2:] if node["bind"] else node["s"]


def signature(node, values, side):
    """A signature made by the reference issuer (bad ones on request)."""
    q = order("G1")
    e, s = sig_es(node)
    msgs = [values[m] for m in bbs_msgs(node)]
    bad = node.get("bad")
    if bad == "msg":
        msgs = [msgs[0] + 1] + msgs[1:]
    key = node["key"] + 1 if bad == "key" else node["key"]
    gens = side.pk(node["key"]).generators
    prod = side.lincomb("G1", [(1, gens[0]), (s, gens[1])] + [(m, gens[2 + i]) for i, m in enumerate(msgs)])
    A = bn(pow(gamma(key) + e, -1, q)) * prod
    if bad == "A":
        A = A + side.base("G1", 200)
    if bad == "e":
        e = (e + 1) % q
    if bad == "s":
        s = (s + 1) % q
    return BBSPlusSignature(A=A, e=bn(e), s=bn(s))


# ---------------------------------------------------------------- building
def pub_terms(node, public, which):
    """A public point of a leaf as [(scalar, base), ...]; "pub" overrides the one the values define."""
    if which in node.get("pub", {}):
        terms = [tuple(t) for t in node["pub"][which]]
        return terms + ([(node.get("off", 0), OFF)] if which != "h1" else [])
    off = [(node.get("off", 0), OFF)]
    if which == "lhs":
        return [(public[s], b) for s, b in node["t"]] + off
    if which == "h0":
        return [(public[node["x"]], node["b"][0])] + off
    if which == "h1":
        return [(public[node["x"]] + node["d"], node["b"][1])]
    return [(public[node["x"]], node["b"][0]), (public[node["r"]], node["b"][1])] + off


def hgroup(node):
    """Group of the second pair of an inequality."""
    return node.get("hg", node["g"])


def freeze(node, public):
    """Fix the public points of a leaf, so that later edits leave them alone."""
    which = {"dl": ["lhs"], "cust": ["lhs"], "dlne": ["h0", "h1"], "rng": ["com"], "p2": ["com"]}.get(node["k"], [])
    pub = {}
    for w in which:
        pub[w] = [list(t) for t in pub_terms(dict(node, off=0), public, w)]
    if pub:
        node["pub"] = pub


def all_secrets(node, out=None):
    out = [] if out is None else out
    k = node["k"]
    if k in ("and", "or"):
        for c in node["c"]:
            all_secrets(c, out)
    elif k in ("dl", "cust"):
        out.extend(t[0] for t in node["t"])
    elif k == "dlne":
        out.append(node["x"])
    elif k in ("rng", "p2"):
        out.extend([node["x"], node["r"]])
    elif k == "bbs":
        out.extend(node["s"])
    return out


def needs_value_at_construction(node, out=None):
    out = set() if out is None else out
    if node["k"] in ("and", "or"):
        for c in node["c"]:
            needs_value_at_construction(c, out)
    elif node["k"] in ("rng", "p2"):
        out.update([node["x"], node["r"]])
    return out


class Aliases(dict):
    """Every look-up gives a new object for the same named secret."""

    def __getitem__(self, s):
        return Secret(name="n-" + s)


class ValueAliases(dict):
    """The same for the prover, who has values."""

    def __getitem__(self, s):
        x = super().__getitem__(s)
        return Secret(value=x[0], name=x[1]) if isinstance(x, tuple) else x


class Party:
    """Builds statements of a case for one side. ``values`` None means a verifier."""

    def __init__(self, case, side, prover, values=None, names=False):
        self.case = case
        self.side = SIDES[side]
        self.prover = prover
        self.public = case["v"]                    # values that define the public points
        self.values = values if values is not None else case["v"]   # values the prover supplies
        self.secrets = Aliases() if case.get("alias") and not prover else {}
        self.mapping = {}
        tree = case["tree"]
        early = needs_value_at_construction(tree)
        es = set()
        for n in walk(tree):
            if n["k"] == "bbs" and n["bind"]:
                es.update(n["s"][:2])
        unk = set(case.get("unk", ()))
        style = case.get("style", {})
        if prover and case.get("palias"):
            self.secrets = ValueAliases()
        for s in dict.fromkeys(all_secrets(tree)):
            st = style.get(s, "bs")
            kw = {"name": "n-" + s} if "n" in st else {}
            if prover and case.get("palias") and s not in es and s not in unk:
                # each occurrence is an object of its own, with the name and the value
                v = self.values[s]
                self.secrets[s] = (int(v) if ("i" in st and abs(v) < 2 ** 31) else bn(v), "n-" + s)
                continue
            sec = Secret(**kw)
            self.secrets[s] = sec
            if prover and s in es and case.get("used"):
                # the secrets of a signature served another one before
                sec.value = bn(case["used"])
            if not prover or s in unk or s in es:
                continue
            v = self.values[s]
            val = int(v) if ("i" in st and abs(v) < 2 ** 31) else bn(v)
            if "d" in st and s not in early:
                self.mapping[sec] = val
                if case.get("stale"):
                    # to be replaced by the value given when proving
                    sec.value = bn(v + case["stale"])
            else:
                sec.value = val

    def build(self, node=None):
        node = self.case["tree"] if node is None else node
        k = node["k"]
        mark = node.get("mark") if self.prover else None
        side, sec = self.side, self.secrets
        if k == "dl":
            g = node["g"]
            lhs = side.lincomb(g, pub_terms(node, self.public, "lhs"))
            if node.get("w"):
                expr = wsum_secrets([sec[s] for s, _ in node["t"]], [side.base(g, b) for _, b in node["t"]])
            else:
                expr = functools.reduce(operator.add, [sec[s] * side.base(g, b) for s, b in node["t"]])
            if mark == "ctor":
                return DLRep(lhs, expr, simulated=True)
            stmt = DLRep(lhs, expr)
        elif k == "dlne":
            g = node["g"]
            h0 = side.lincomb(g, pub_terms(node, self.public, "h0"))
            hg = hgroup(node)
            h1 = side.lincomb(hg, pub_terms(node, self.public, "h1"))
            kw = {"simulated": True} if mark == "ctor" else {}
            stmt = DLNotEqual((h0, side.base(g, node["b"][0])), (h1, side.base(hg, node["b"][1])),
                              sec[node["x"]], bind=bool(node["bind"]), **kw)
        elif k in ("rng", "p2"):
            g = node["g"]
            b0, b1 = node["b"]
            com = side.lincomb(g, pub_terms(node, self.public, "com"))
            if k == "rng":
                stmt = RangeStmt(com, side.base(g, b0), side.base(g, b1), num(node, "lo"),
                                 num(node, "hi"), sec[node["x"]], sec[node["r"]])
            elif node.get("anon") and not self.prover:
                # the secrets of a verifier need no names
                stmt = PowerTwoRangeStmt(com, side.base(g, b0), side.base(g, b1), node["n"])
            else:
                stmt = PowerTwoRangeStmt(com, side.base(g, b0), side.base(g, b1), node["n"],
                                         sec[node["x"]], sec[node["r"]])
        elif k == "bbs":
            sig = None
            if self.prover and not node.get("nosig"):
                sig = signature(node, self.public, side)
            kw = {"simulated": True} if mark == "ctor" else {}
            stmt = BBSPlusSignatureStmt([sec[s] for s in node["s"]], side.pk(node["key"]),
                                        signature=sig, binding=bool(node["bind"]), **kw)
        elif k == "cust":
            from zkv import custom
            stmt = custom.build(self, node)
        else:
            subs = [self.build(c) for c in node["c"]]
            if node["op"]:
                stmt = functools.reduce(operator.and_ if k == "and" else operator.or_, subs)
            else:
                stmt = (AndProofStmt if k == "and" else OrProofStmt)(*subs)
                if self.prover:
                    for i, c in enumerate(node["c"]):
                        if c.get("mark") == "post":
                            stmt.subproofs[i].set_simulated()
        if mark == "pre" or mark == "ctor" and k not in ("dlne", "bbs"):
            stmt.set_simulated()
        return stmt

    def prove(self, stmt=None, message=None):
        stmt = self.build() if stmt is None else stmt
        args = [] if message is None else [message]
        if self.mapping:
            return stmt.prove(self.mapping, *args)
        return stmt.prove(message=message) if message is not None else stmt.prove()

    def get_prover(self, stmt):
        return stmt.get_prover(self.mapping) if self.mapping else stmt.get_prover()


def num(node, key):
    v = node[key]
    return int(v) if abs(v) < 2 ** 31 and not node.get("big") else bn(v)


def walk(node):
    yield node
    for c in node.get("c", ()):
        yield from walk(c)


def leaves(node):
    return [n for n in walk(node) if n["k"] not in ("and", "or")]


def prover_party(case, side="P", values=None):
    return Party(case, side, True, values)


def verifier_stmt(case, side="V"):
    """The statement as built by a verifier. Sometimes by the same code as the prover's, marks included: they
    concern provers alone."""
    stmt = Party(case, side, False).build()
    salt = h_int("marks", json.dumps([case["tree"], case.get("msg")], sort_keys=True, default=str))
    if salt % 4 == 0:
        mark_clauses(stmt, salt // 4)
    return stmt


def mark_clauses(stmt, salt):
    for i, sub in enumerate(getattr(stmt, "subproofs", ())):
        if type(stmt).__name__ == "OrProofStmt" and (salt >> i) & 1:
            sub.set_simulated()
        mark_clauses(sub, salt >> 3)


# ---------------------------------------------------------------- truth
def leaf_true(node, public, values):
    """Do the prover's values satisfy the leaf whose public points were made from ``public``?"""
    k = node["k"]
    if k == "bbs":
        q = order("G1")
        if node.get("bad") not in (None, "msg") or node.get("nosig"):
            return False
        # a signature on another first message is good for a prover who gives that one
        shift = [1 if node.get("bad") and i == 0 else 0 for i in range(len(bbs_msgs(node)))]
        return all((values[m] - public[m] - d) % q == 0 for m, d in zip(bbs_msgs(node), shift))
    q = order(node["g"])

    def zero(which, terms):
        acc = {}
        for v, b in terms:
            acc[b] = acc.get(b, 0) + v
        for v, b in pub_terms(node, public, which):
            acc[b] = acc.get(b, 0) - v
        return all(v % q == 0 for v in acc.values())

    if k == "cust" and node.get("cheat"):
        return False
    if k == "cust" and node["inner"] == "and":
        s = node["t"][0][0]
        if (values[s] - public[s]) % q:
            return False
    if k in ("dl", "cust"):
        return zero("lhs", [(values[s], b) for s, b in node["t"]])
    if k == "dlne":
        x = values[node["x"]]
        return zero("h0", [(x, node["b"][0])]) and not zero("h1", [(x, node["b"][1])])
    x, r = values[node["x"]], values[node["r"]]
    if not zero("com", [(x, node["b"][0]), (r, node["b"][1])]):
        return False
    if k == "rng":
        return node["lo"] <= x < node["hi"]
    return 0 <= x < 2 ** node["n"]


def usable(node, unk):
    """Can the library pick the node as the one really proved?"""
    if node.get("mark"):
        return False
    k = node["k"]
    if k == "and":
        return all(usable(c, unk) for c in node["c"])
    if k == "or":
        return any(usable(c, unk) for c in node["c"])
    if k == "bbs":
        return not node.get("nosig") and not any(m in unk for m in bbs_msgs(node))
    return not any(s in unk for s in all_secrets(node))


def provable(node, public, values, unk=()):
    """'yes': every run succeeds; 'no': no run can succeed; 'maybe': depends on the clause drawn."""
    k = node["k"]
    if k == "and":
        r = [provable(c, public, values, unk) for c in node["c"]]
        return "no" if "no" in r else ("maybe" if "maybe" in r else "yes")
    if k == "or":
        r = [provable(c, public, values, unk) for c in node["c"] if usable(c, unk)]
        if not r or all(x == "no" for x in r):
            return "no"
        return "yes" if all(x == "yes" for x in r) else "maybe"
    if not usable(dict(node, mark=None), unk):
        return "no"
    return "yes" if leaf_true(node, public, values) else "no"


# ---------------------------------------------------------------- canonical form
def _pt(p):
    return bytes(p.export())


def bound_secrets(tree):
    """Occurrences of secrets that tie statements together (unbound inequalities and single power-two ranges do not)."""
    out = []
    for n in leaves(tree):
        if n["k"] == "p2" or (n["k"] == "dlne" and not n["bind"]):
            continue
        out.extend(all_secrets(n))
    return out


def canonical(case, side=None):
    """The statement as a value: two cases have equal canonical forms iff they are the same statement."""
    side = side or SIDES["V"]
    ids = {}
    names = bound_secrets(case["tree"])

    def sid(s):
        return ids.setdefault(s, len(ids))

    def base(g, b):
        return (g, _pt(side.base(g, b)))

    def go(n):
        k = n["k"]
        def pt(which):
            return _pt(side.lincomb(hgroup(n) if which == "h1" else n["g"], pub_terms(n, case["v"], which)))

        if k == "dl":
            return ("dl", pt("lhs"), tuple((sid(s), base(n["g"], b)) for s, b in n["t"]))
        if k == "dlne":
            g = n["g"]
            return ("dlne", pt("h0"), pt("h1"), base(g, n["b"][0]), base(hgroup(n), n["b"][1]),
                    sid(n["x"]) if n["bind"] and names.count(n["x"]) > 1 else None)
        if k in ("rng", "p2"):
            g = n["g"]
            pub = (pt("com"), base(g, n["b"][0]), base(g, n["b"][1]))
            if k == "p2":
                return ("p2", n["n"]) + pub
            w = n["hi"] - n["lo"]
            nb = max(1, (w - 1).bit_length())
            return ("and", (("dl", pub[0], ((sid(n["x"]), pub[1]), (sid(n["r"]), pub[2]))),
                            ("p2r", n["lo"], nb) + pub, ("p2r", n["hi"], nb) + pub))
        if k == "bbs":
            # the signature's own secrets matter only when another leaf refers to them
            es = tuple(sid(s) if names.count(s) > 1 else None for s in n["s"][:2]) if n["bind"] else (None, None)
            return ("bbs", n["key"], es + tuple(sid(m) for m in bbs_msgs(n)))
        subs = []
        for c in n["c"]:
            s = go(c)
            if n["op"] and s[0] == k:
                subs.extend(s[1])
            else:
                subs.append(s)
        return (k, tuple(subs))

    return go(case["tree"])
