"""C18 A BBS+ signature verifies exactly for the signed messages."""
from hypothesis import strategies as st
from petlib.pack import decode, encode

from zksk.pairings import BilinearGroupPair
from zksk.primitives.bbsplus import (
    BBSPlusKeypair, BBSPlusPublicKey, BBSPlusSecretKey, BBSPlusSignature, BBSPlusSignatureCreator,
    UserCommitmentMessage)
from zksk.base import NIZK
from zksk.expr import Secret, wsum_secrets
from zksk.primitives.dlrep import DLRep

from zkv import core, gen, model, mutate, ref
from zkv.core import Prop, Sub, accepted, must, must_accept, must_reject, require
from zkv.model import bn
from zkv.proto import copy_nizk, roundtrip
from zkv.props import c04

MAXM = 4


class Issuer:
    """The library's key material and what the reference needs to know about it."""

    def __init__(self, cap):
        self.bp = BilinearGroupPair()
        self.kp = must("key generation", BBSPlusKeypair.generate, self.bp, cap)
        self.q = int(self.bp.G1.order())
        self.gens = list(self.kp.generators)

    def lin(self, weights, gens):
        out = self.bp.G1.infinite()
        for w, g in zip(weights, gens):
            w = int(w) % self.q
            if w:
                out = out + bn(w) * g
        return out

    def valid(self, A, e, s, msgs):
        """(gamma + e) A = g0 + s g1 + sum m_i g_{i+2}, without pairings."""
        if len(msgs) + 2 > len(self.gens):
            return False
        k = (int(self.kp.sk.gamma) + int(e)) % self.q
        return self.lin([k], [A]) == self.lin([1, s] + list(msgs), self.gens)

    def decoded_pk(self):
        """The public key as another party gets it."""
        d = decode(encode([self.kp.pk.w, self.kp.pk.h0] + self.gens))
        return BBSPlusPublicKey(w=d[0], h0=d[1], generators=d[2:])


def val(v, small):
    return int(v) if small and abs(v) < 2 ** 31 else bn(v)


def draw_msgs(g, n, q):
    out = []
    for _ in range(n):
        k = g.i(0, 8)
        if k == 8:
            out.append(0)
        elif k == 0 and out:
            out.append(g.pick(out))
        elif k == 1:
            out.append(g.pick([0, 1, -1, q - 1, q, q + 1, 2]))
        elif k <= 4:
            out.append(g.i(1, 30))
        else:
            out.append(g.i(1, q - 1))
    return out


EDITS = ["value", "add", "add0", "drop", "swap", "rotate", "plus-q", "zero", "dup", "A", "e", "s", "es", "e+q", "s+q",
         "key", "gens", "scaleA", "shift", "all"]


@st.composite
def signing(draw):
    g = gen.G(draw, groups=["G1"])
    q = model.order("G1")
    cap = g.i(5, 12) if g.one_in(10) else g.i(1, MAXM)
    n = g.pick([1, cap, g.i(0, cap)])
    msgs = draw_msgs(g, n, q)
    edits = [{"how": g.pick(EDITS), "i": g.i(0, 23), "j": g.i(0, 23), "v": g.pick([1, -1, g.i(1, 20), g.i(1, q - 1)]),
              "move": g.pick(mutate.POINTS)} for _ in range(g.i(2, 5))]
    return {"cap": cap, "m": msgs, "small": g.i(0, 1), "zkp": g.i(0, 1), "edits": edits, "other": g.i(0, 1),
            "salt": g.i(0, 1 << 16)}


def edit(iss, e, A, ee, s, msgs, r):
    """Changed (A, e, s, messages, pk)."""
    q, pk, how = iss.q, iss.kp.pk, e["how"]
    m = list(msgs)
    i = e["i"] % max(1, len(m))
    j = e["j"] % max(1, len(m))
    if how == "value" and m:
        m[i] = int(m[i]) + e["v"]
    elif how == "zero" and m:
        m[i] = 0
    elif how == "add":
        m.insert(e["j"] % (len(m) + 1), e["v"])
    elif how == "add0":
        m.append(0)
    elif how == "drop" and m:
        del m[i]
    elif how == "swap" and m:
        m[i], m[j] = m[j], m[i]
    elif how == "rotate" and m:
        m = m[1:] + m[:1]
    elif how == "plus-q" and m:
        m[i] = int(m[i]) + q
    elif how == "dup" and m:
        m[i] = m[j]
    elif how == "shift" and len(m) > 1:
        # keeps the sum of the messages
        m[i], m[(i + 1) % len(m)] = int(m[i]) + 1, int(m[(i + 1) % len(m)]) - 1
    elif how == "all":
        m = [int(x) * 2 for x in m]
    elif how == "A":
        A = mutate.move_point(A, e["move"], r)
    elif how == "scaleA":
        A = bn(e["v"] % q) * A
    elif how == "e":
        ee = (int(ee) + e["v"]) % q
    elif how == "s":
        s = (int(s) + e["v"]) % q
    elif how == "es":
        ee, s = s, ee
    elif how == "e+q":
        ee = int(ee) + q
    elif how == "s+q":
        s = int(s) + q
    elif how == "key":
        pk = None
    elif how == "gens":
        # generators in another order
        pk = BBSPlusPublicKey(w=pk.w, h0=pk.h0, generators=pk.generators[1:] + pk.generators[:1])
    return A, ee, s, m, pk


def run_signing(case):
    r = core.rng()
    iss = Issuer(case["cap"])
    msgs = [val(v, case["small"]) for v in case["m"]]
    shown = list(msgs)
    pk = iss.decoded_pk() if case["other"] else iss.kp.pk
    creator = BBSPlusSignatureCreator(pk)
    req = must("committing to messages", creator.commit, msgs, zkp=bool(case["zkp"]))
    require([int(a) for a in msgs] == [int(a) for a in shown], "committing changed the caller's messages")
    com = decode(encode(req.com_message)) if case["other"] else req.com_message
    if case["zkp"]:
        sent = UserCommitmentMessage(com_message=com, com_nizk_proof=roundtrip(req.com_nizk_proof))
        must_accept("blinded commitment", sent.verify_blinding, iss.kp.pk)
        require(iss.lin([creator.s1] + list(msgs), iss.gens[1:]) == com, "blinded commitment is not s1 g1 + sum m g")
    else:
        require(req.com_nizk_proof is None, "a proof without a blinding")
        require(iss.lin(msgs, iss.gens[2:]) == com, "commitment is not the sum of the messages")
    pre = must("signing", iss.kp.sk.sign, com)
    sig = must("obtaining the signature", creator.obtain_signature, pre)
    require(iss.valid(sig.A, sig.e, sig.s, msgs), "the signature does not satisfy the signature equation")
    must_accept("issued signature", sig.verify_signature, pk, msgs)
    must_accept("issued signature under the issuer's copy of the key", sig.verify_signature, iss.kp.pk, list(msgs))
    labels = {"messages:%d" % len(msgs), "blinded" if case["zkp"] else "plain", "nontrivial"}
    if len(msgs) + 2 == len(iss.gens):
        labels.add("all-generators")
    for e in case["edits"]:
        A, ee, s, m, k = edit(iss, e, sig.A, sig.e, sig.s, msgs, r)
        m = [bn(x) for x in m]
        bad = BBSPlusSignature(A=A, e=bn(ee), s=bn(s))
        if e["how"] in ("key", "gens"):
            if k is None:
                other = bn(r.randrange(1, iss.q)) * iss.kp.h0
                k = BBSPlusPublicKey(w=other, h0=iss.kp.h0, generators=iss.gens)
            must_reject("signature under another key", bad.verify_signature, k, m)
            labels.add("edit:" + e["how"])
            continue
        want = iss.valid(A, int(ee), int(s), m)
        if want:
            # the content is the same up to multiples of the order and trailing zeros
            must_accept("signature with the same content (%s)" % e["how"], bad.verify_signature, pk, m)
            labels.add("same-content")
        else:
            must_reject("signature after edit %s" % e["how"], bad.verify_signature, pk, m)
            labels.add("edit:" + e["how"])
    # the checks above did not disturb anything
    must_accept("issued signature, again", sig.verify_signature, pk, msgs)
    return labels


# ---------------------------------------------------------------- blinding proofs
BLIND = ["com", "com", "response", "response", "challenge", "hash", "splice", "com-swap", "generators", "w", "drop-resp",
         "extra-resp", "no-proof", "forge-g0", "forge-shift", "forge-more", "adaptive", "adaptive"]


@st.composite
def blinding(draw):
    g = gen.G(draw, groups=["G1"])
    q = model.order("G1")
    cap = g.i(5, 12) if g.one_in(10) else g.i(1, MAXM)
    msgs = draw_msgs(g, g.i(1, cap), q)
    other = draw_msgs(g, g.pick([len(msgs), g.i(1, cap)]), q)
    return {"cap": cap, "m": msgs, "o": other, "how": g.pick(BLIND), "move": g.pick(mutate.POINTS),
            "kind": g.pick(c04.KINDS), "delta": mutate.draw_delta(g), "pos": g.i(0, 50), "i": g.i(0, 7), "ser": g.i(0, 1),
            "v": g.i(1, q - 1), "salt": g.i(0, 1 << 16)}


def forged(pk, bases, lhs, weights):
    """A proof for a representation chosen by the prover."""
    sv = [Secret() for _ in bases]
    return DLRep(lhs, wsum_secrets(sv, bases)).prove({a: b for a, b in zip(sv, weights)})


def run_blinding(case):
    r = core.rng()
    iss = Issuer(case["cap"])
    pk, q, how = iss.kp.pk, iss.q, case["how"]
    msgs = [bn(v) for v in case["m"]]
    creator = BBSPlusSignatureCreator(iss.decoded_pk())
    req = must("committing", creator.commit, msgs)
    must_accept("blinded commitment", req.verify_blinding, pk)
    must_accept("blinded commitment, checked twice", req.verify_blinding, pk)
    com, proof = req.com_message, req.com_nizk_proof
    n = len(proof.responses)
    vpk = pk
    require(n == len(msgs) + 1, "the proof covers %d secrets", n)
    if how == "com":
        com = mutate.move_point(com, case["move"], r)
        if com == req.com_message:
            return {"same"}
    elif how == "response":
        i = case["pos"] % n
        v = mutate.shift(proof.responses[i], case["delta"], q, r)
        if (v - int(proof.responses[i])) % q == 0:
            return {"same"}
        proof = copy_nizk(proof, responses=ref.replace(proof.responses, (i,), bn(v)))
    elif how == "challenge":
        v = mutate.shift(proof.challenge, case["delta"], 1 << 300, r)
        if (v - int(proof.challenge)) % q == 0:
            return {"same"}
        proof = copy_nizk(proof, challenge=bn(v))
    elif how == "hash":
        proof = copy_nizk(proof, stmt_hash=bytes(32))
    elif how in ("splice", "com-swap"):
        req2 = must("a second request", creator.commit, [bn(v) for v in case["o"]])
        must_accept("blinded commitment of the second request", req2.verify_blinding, pk)
        must_accept("blinded commitment of the first request, later", req.verify_blinding, pk)
        require(not req2.com_message == req.com_message, "two blinded requests have the same commitment")
        if how == "splice":
            proof = req2.com_nizk_proof
        else:
            com = req2.com_message
    elif how == "generators":
        g = list(iss.gens)
        k = 1 + case["i"] % n
        g[k] = mutate.move_point(g[k], "rand", r)
        vpk = BBSPlusPublicKey(w=pk.w, h0=pk.h0, generators=g)
    elif how == "w":
        # the commitment proof speaks about the generators only
        vpk = BBSPlusPublicKey(w=bn(2) * pk.w, h0=pk.h0, generators=iss.gens)
        req3 = UserCommitmentMessage(com_message=com, com_nizk_proof=proof)
        accepted(req3.verify_blinding, vpk)
        return {"w"}
    elif how == "drop-resp":
        proof = copy_nizk(proof, responses=proof.responses[:-1])
    elif how == "extra-resp":
        proof = copy_nizk(proof, responses=list(proof.responses) + [bn(0)])
    elif how == "no-proof":
        proof = None
    elif how.startswith("forge"):
        w = [bn(case["v"])] + msgs
        if how == "forge-g0":
            bases = [iss.gens[0]] + iss.gens[2:len(msgs) + 2]
        elif how == "forge-shift":
            bases = iss.gens[2:len(msgs) + 2] + [iss.gens[1]]
            w = msgs + [bn(case["v"])]
            if len(msgs) + 1 == 1:
                return {"same"}
        else:
            bases = iss.gens[1:len(msgs) + 2] + [iss.gens[0]]
            w = w + [bn(1)]
        com = iss.lin(w, bases)
        proof = forged(pk, bases, com, w)
        if how == "forge-shift" and len(set(map(int, w))) == 1:
            return {"same"}
    elif how == "adaptive":
        # the commitment is solved for after the challenge
        target = mutate.move_point(com, "rand", r)
        k = [r.randrange(q) for _ in range(n)]
        stmt = DLRep(target, wsum_secrets([Secret() for _ in range(n)], iss.gens[1:n + 1]))
        c, digest = ref.fs(stmt, None, iss.lin(k, iss.gens[1:]))
        cinv = pow(int(c), -1, q)
        resp = [r.randrange(q) for _ in range(n)]
        com = iss.lin([cinv * (b - a) for a, b in zip(k, resp)], iss.gens[1:])
        if case["i"] % 2:
            stmt2 = DLRep(com, wsum_secrets([Secret() for _ in range(n)], iss.gens[1:n + 1]))
            digest = stmt2.prehash_statement().digest()
        proof = NIZK(challenge=c, responses=[bn(x) for x in resp], precommitment=None, stmt_hash=digest)
    if case["ser"] and proof is not None:
        proof = roundtrip(proof)
    bad = UserCommitmentMessage(com_message=com, com_nizk_proof=proof)
    must_reject("blinding proof after %s" % how, bad.verify_blinding, vpk)
    must_accept("the request itself, afterwards", req.verify_blinding, pk)
    return {"nontrivial", "how:" + how}


# ---------------------------------------------------------------- histories
@st.composite
def history(draw):
    g = gen.G(draw, groups=["G1"])
    q = model.order("G1")
    cap = g.i(5, 12) if g.one_in(10) else g.i(1, MAXM)
    ops = []
    for _ in range(g.i(3, 9)):
        k = g.i(0, 6)
        if k <= 2:
            ops.append({"op": "commit", "u": g.i(0, 1), "m": draw_msgs(g, g.i(0, cap + g.pick([0, 0, 1])), q),
                        "zkp": g.i(0, 1), "small": g.i(0, 1)})
        elif k <= 4:
            ops.append({"op": "sign", "r": g.i(0, 9), "key": g.pick([0, 0, 0, 1])})
        elif k == 5:
            ops.append({"op": "obtain", "u": g.i(0, 1), "r": g.i(0, 9)})
        else:
            ops.append({"op": "sign", "r": g.i(0, 9), "key": 0, "twice": 1})
    return {"cap": cap, "ops": ops, "salt": g.i(0, 1 << 16)}


def run_history(case):
    """Requests by two users, with creators that are used again and again; a signature is as good as the
    reference says about the blinding the user held when obtaining it."""
    iss = [Issuer(case["cap"]), None]
    users = [BBSPlusSignatureCreator(iss[0].decoded_pk()), BBSPlusSignatureCreator(iss[0].kp.pk)]
    held = [None, None]            # the user's current request
    requests, presigs, sigs = [], [], []
    seen = {"s1": set(), "e": set(), "s": set(), "com": set()}
    labels = set()

    def fresh(what, v):
        require(v not in seen[what], "%s repeats between requests", what)
        seen[what].add(v)

    def obtain(u, p):
        sig = must("obtaining a signature", users[u].obtain_signature, p["pre"])
        ms = requests[p["req"]]["m"]
        want = iss[p["key"]].valid(sig.A, sig.e, sig.s, ms)
        # the blinding in use is that of the user's last request
        right = held[u] == p["req"] or (requests[p["req"]]["s1"] is None and (
            held[u] is None or requests[held[u]]["s1"] is None))
        require(want == right, "signature for request %d obtained by user %d: equation %s, history says %s",
                p["req"], u, want, right)
        sigs.append((sig, p["key"], ms, want))
        labels.add("obtained:" + ("right" if want else "wrong"))

    for o in case["ops"]:
        if o["op"] == "commit":
            u = users[o["u"]]
            msgs = [val(v, o["small"]) for v in o["m"]]
            if len(msgs) + 2 > len(u.pk.generators):
                must_reject("committing to more messages than the key supports", lambda: u.commit(
                    msgs, zkp=bool(o["zkp"])))
                labels.add("too-many")
                continue
            req = must("committing", u.commit, msgs, zkp=bool(o["zkp"]))
            requests.append({"req": req, "m": msgs, "s1": u.s1 if o["zkp"] else None, "u": o["u"]})
            held[o["u"]] = len(requests) - 1
            if o["zkp"]:
                fresh("s1", int(u.s1))
                fresh("com", bytes(req.com_message.export()))
            if len([x for x in requests if x["u"] == o["u"]]) > 1:
                labels.add("reused-creator")
        elif o["op"] == "sign" and requests:
            i = o["r"] % len(requests)
            if o["key"] and iss[1] is None:
                iss[1] = Issuer(case["cap"])
                require(int(iss[1].kp.sk.gamma) != int(iss[0].kp.sk.gamma), "two key pairs share the private key")
            x = requests[i]
            if x["s1"] is not None:
                must_accept("request in the history", x["req"].verify_blinding, iss[o["key"]].kp.pk)
            for _ in range(1 + o.get("twice", 0)):
                pre = must("signing", iss[o["key"]].kp.sk.sign, x["req"].com_message)
                fresh("e", int(pre.e))
                fresh("s", int(pre.s))
                presigs.append({"pre": pre, "req": i, "key": o["key"]})
            obtain(x["u"], presigs[-1])
        elif o["op"] == "obtain" and presigs:
            obtain(o["u"], presigs[o["r"] % len(presigs)])
    for sig, key, ms, want in sigs:
        v = accepted(sig.verify_signature, iss[key].kp.pk, ms)
        require(v == want, "signature at the end of the history: verdict %s, equation %s", v, want)
        if want and iss[1 - key] is not None:
            must_reject("signature under the other issuer's key", sig.verify_signature, iss[1 - key].kp.pk, ms)
    if sigs:
        labels.add("nontrivial")
    return labels


# ---------------------------------------------------------------- key material
@st.composite
def keys(draw):
    n = draw(st.integers(0, 5) | st.integers(6, 30))
    return {"n": n, "m": draw(st.integers(0, 7) | st.integers(n - 1, n + 5).map(abs)), "salt": draw(st.integers(0, 1 << 16))}


def run_keys(case):
    iss = Issuer(case["n"])
    kp, q = iss.kp, iss.q
    require(len(kp.generators) >= case["n"] + 2, "%d generators for %d", len(kp.generators), case["n"])
    require(kp.pk.w == kp.sk.gamma * kp.h0, "w is not gamma h0")
    require(int(kp.sk.gamma) % q != 0, "gamma is zero")
    require(len({bytes(x.export()) for x in kp.generators}) == len(kp.generators), "generators repeat")
    for part in (kp.pk, kp.sk):
        require([x.export() for x in part.generators] == [x.export() for x in kp.generators], "generators differ")
        require(part.h0 == kp.h0, "h0 differs")
    require(len(kp.pk.gen_pairs) == len(kp.generators), "paired generators")
    for a, b in zip(kp.generators, kp.pk.gen_pairs):
        require(a.pair(kp.h0) == b, "a precomputed pairing is wrong")
    msgs = [bn(i + 1) for i in range(case["m"])]
    fits = len(msgs) + 2 <= len(kp.generators)
    c = BBSPlusSignatureCreator(kp.pk)
    if not fits:
        must_reject("too many messages", lambda: c.commit(msgs))
        short = must("committing", c.commit, msgs[:len(kp.generators) - 2])
        sig = c.obtain_signature(kp.sk.sign(short.com_message))
        must_reject("a signature verified for surplus messages", sig.verify_signature, kp.pk, msgs)
        return {"nontrivial", "refused"}
    sig = c.obtain_signature(kp.sk.sign(must("committing", c.commit, msgs).com_message))
    must_accept("signature", sig.verify_signature, kp.pk, msgs)
    # spread of the random parts: below the order, top bits used
    tops = {k: 0 for k in ("gamma", "e", "s", "s1")}
    G1 = iss.bp.G1
    other = BBSPlusKeypair.generate(iss.bp, 0)
    tops["gamma"] = max(int(other.sk.gamma), int(kp.sk.gamma))
    for _ in range(24):
        p = kp.sk.sign(G1.generator())
        c.commit([])
        for k, v in (("e", p.e), ("s", p.s), ("s1", c.s1)):
            require(0 <= int(v) < q, "%s is out of range", k)
            tops[k] = max(tops[k], int(v))
    for k, v in tops.items():
        require(v > q >> (48 if k == "gamma" else 24), "%s does not use the range of the order", k)
    return {"nontrivial", "signed"}


PROP = Prop("C18", [
    Sub("signing", signing(), run_signing, 420, rule="issued signatures and edited ones against the equation in G1"),
    Sub("blinding", blinding(), run_blinding, 420, rule="altered, spliced and forged blinding proofs"),
    Sub("history", history(), run_history, 300, rule="requests and signatures with reused creators"),
    Sub("keys", keys(), run_keys, 60, rule="key material, capacity, freshness"),
], rule="A case is a message list (or a history of requests by two users) and edits of messages, signature, key or proof. "
   "The oracle is the signature equation evaluated in G1 with the private key. Non-trivial: at least one verdict on an "
   "altered object or on a signature of the history was compared with the oracle.")
