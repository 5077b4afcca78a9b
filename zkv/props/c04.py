"""C04 Any change to a proof or its message makes it rejected."""
import unicodedata

from hypothesis import strategies as st
from petlib.pack import encode

from zkv import core, gen, model, mutate, ref
from zkv.core import Prop, Sub, must, must_accept, must_reject, require
from zkv.proto import copy_nizk, roundtrip, verify

KINDS = ["resp", "resp", "resp-all", "resp-swap", "resp-neg-c", "sub", "sub-pair", "sub-swap", "challenge",
         "pre", "pre", "pre-none", "pre-pair", "pre-type", "hash", "msg", "msg", "sub+resp", "challenge"]


def make(kinds, groups=None, depth=3, width=3, count=4):
    @st.composite
    def strat(draw):
        g = gen.G(draw, groups=draw(groups) if groups is not None else None, kinds=kinds,
                  depth=draw(st.sampled_from(list(range(depth + 1)) + [depth])), width=width)
        tree = g.tree()
        muts = []
        for _ in range(g.i(1, count)):
            muts.append([g.pick(KINDS), g.i(0, 40), g.i(0, 40), mutate.draw_delta(g), g.pick(mutate.POINTS),
                         g.i(0, 24)])
        return g.case(tree, msg=gen.message(draw), muts=muts, own=g.i(0, 3) == 0, int=g.i(0, 2) == 0,
                      ser=g.i(0, 3) == 0)
    return strat()


def variant(msg, i):
    msg = msg or ""
    outs = [msg + "x", "x" + msg, msg + " ", " " + msg, msg.upper(), msg.lower(), msg[:-1], msg + "\x00",
            unicodedata.normalize("NFD", msg), msg[::-1], msg + msg, "other", msg + "\n", msg + "\r\n", "\n" + msg,
            msg.strip(), "\ufeff" + msg, msg.swapcase(), msg[:len(msg) // 2] + "\x01" + msg[len(msg) // 2:], msg + "\u200b",
            unicodedata.normalize("NFKC", msg), msg[:max(0, len(msg) - 1)] + "?", repr(msg), msg + "m" * 3000, msg[1:]]
    out = outs[i % len(outs)]
    return out if out != msg else msg + "!"


def retyped(x, j):
    """Something of another type that resembles a part of a proof."""
    outs = [encode(x), encode(x), [x], {"0": x}, str(x), repr(x).encode(), (x, None), encode(encode(x)), False, b"", [], {}, 0]
    if hasattr(x, "export"):
        outs += [x.export(), x.export()]
    if isinstance(x, (list, tuple)):
        outs += [{k: v for k, v in enumerate(x)}, list(x) + [None]]
    if isinstance(x, dict):
        outs += [list(x.values()), dict(x, extra=None)]
    return outs[j % len(outs)]


def infos(stmt, challenge, responses):
    out = list(ref.response_info(stmt, challenge, responses))
    return [x for x in out if x[0] == "resp"], [x for x in out if x[0] == "sub"]


def apply_response(m, stmt, challenge, responses, r):
    """Mutated responses or None when the mutation does not apply or changes nothing."""
    kind, i, j, delta, _, _ = m
    resp, sub = infos(stmt, challenge, responses)
    if kind.startswith("resp"):
        _, path, q, v = resp[i % len(resp)]
        if kind == "resp-swap":
            _, path2, q2, v2 = resp[j % len(resp)]
            if (v - v2) % q == 0 or (v - v2) % q2 == 0:
                return None
            return ref.replace(ref.replace(responses, path, model.bn(v2)), path2, model.bn(v))
        new = -v - int(challenge) if kind == "resp-neg-c" else mutate.shift(v, delta, q, r)
        if (new - v) % q == 0:
            return None
        if kind == "resp":
            return ref.replace(responses, path, model.bn(new))
        for _, p, _, w in resp:
            if w == v:
                responses = ref.replace(responses, p, model.bn(new))
        return responses
    if not sub:
        return None
    _, path, _, v = sub[i % len(sub)]
    if kind == "sub":
        new = mutate.shift(v, delta, CHQ(stmt, resp), r)
        return None if new == v else ref.replace(responses, path, model.bn(new))
    others = [s for s in sub if s[1][:-1] == path[:-1] and s[1] != path]
    _, path2, _, v2 = others[j % len(others)]
    if kind == "sub-swap":
        if v == v2:
            return None
        return ref.replace(ref.replace(responses, path, model.bn(v2)), path2, model.bn(v))
    d = (mutate.shift(v, delta, CHQ(stmt, resp), r) - v) % mutate.CH
    if d == 0:
        return None
    out = ref.replace(responses, path, model.bn((v + d) % mutate.CH))
    return ref.replace(out, path2, model.bn((v2 - d) % mutate.CH))


def same_transcript(stmt, challenge, responses, changed):
    """Repeated bases and neutral public values allow several responses to one commitment."""
    return ref.check(stmt, ref.recompute(stmt, challenge, responses), challenge, changed)


def CHQ(stmt, resp):
    return resp[0][2]


def run(case):
    party = model.prover_party(case)
    stmt = must("building", party.build)
    msg = case["msg"]
    labels = gen.describe(case)
    nizk = must("proving", party.prove, stmt, msg)
    if case["ser"]:
        nizk = must("serialisation", roundtrip, nizk)
    vstmt = model.verifier_stmt(case)
    must_accept("honest proof", verify, vstmt, nizk, msg)
    if case["own"]:
        vstmt = stmt
    # the equations, on a statement of the harness's own
    rstmt = model.verifier_stmt(case)
    rstmt.get_verifier().process_precommitment(nizk.precommitment)
    r = core.rng()
    done = 0
    for m in case["muts"]:
        kind, i, j, delta, how, k = m
        bad, what = None, kind
        vmsg = msg
        if kind == "sub+resp":
            a = apply_response(["sub-pair"] + m[1:], rstmt, nizk.challenge, nizk.responses, r)
            a = a and apply_response(["resp-all"] + m[1:], rstmt, nizk.challenge, a, r)
            bad = a and copy_nizk(nizk, responses=a)
        elif kind.startswith(("resp", "sub")):
            a = apply_response(m, rstmt, nizk.challenge, nizk.responses, r)
            bad = a and copy_nizk(nizk, responses=a)
        elif kind == "challenge":
            c = int(nizk.challenge)
            resp, _ = infos(rstmt, nizk.challenge, nizk.responses)
            q = resp[i % len(resp)][2]
            new = {0: c % mutate.CH, 1: c + q, 2: c - q, 3: 1, 4: c % q, 5: c + (q << 256), 6: c + (q << 128),
                   7: c - (q << 256), 8: c + (q << 300)}.get(j % 13, mutate.shift(c, delta, q, r))
            if new != c:
                bad = copy_nizk(nizk, challenge=model.bn(new))
            what = "challenge"
        elif kind == "pre-none":
            if nizk.precommitment is not None:
                bad = copy_nizk(nizk, precommitment=None)
        elif kind == "pre-type":
            nodes = [(), ()] + [p[:n] for p, _ in ref.flatten(nizk.precommitment) for n in range(1, len(p) + 1)]
            p = nodes[i % len(nodes)]
            new = retyped(ref.get(nizk.precommitment, p), j)
            if encode(new) != encode(ref.get(nizk.precommitment, p)):
                bad = copy_nizk(nizk, precommitment=ref.replace(nizk.precommitment, p, new))
        elif kind.startswith("pre"):
            leaves = [(p, v) for p, v in ref.flatten(nizk.precommitment) if v is not None]
            if nizk.precommitment is None:
                if i % 4 == 0:
                    bad = copy_nizk(nizk, precommitment=[None] * (1 + j % 3))
            elif leaves:
                p, v = leaves[i % len(leaves)]
                resp, _ = infos(rstmt, nizk.challenge, nizk.responses)
                if kind == "pre-pair":
                    pts = [(a, b) for a, b in leaves if hasattr(b, "export")]
                    if len(pts) > 1:
                        (p1, v1), (p2, v2) = pts[i % len(pts)], pts[j % len(pts)]
                        if p1 != p2 and type(v1) is type(v2) and v1.group == v2.group and v1 != v2:
                            pre = ref.replace(ref.replace(nizk.precommitment, p1, v2), p2, v1)
                            bad = copy_nizk(nizk, precommitment=pre)
                else:
                    new = mutate.change_leaf(v, delta if not hasattr(v, "export") else how, resp[0][2], r)
                    if new is not None:
                        bad = copy_nizk(nizk, precommitment=ref.replace(nizk.precommitment, p, new))
        elif kind == "hash":
            h = bytearray(nizk.stmt_hash)
            h[i % len(h)] ^= 1 << (j % 8)
            bad = copy_nizk(nizk, stmt_hash=[bytes(h), None, b"", bytes(nizk.stmt_hash[:-1]),
                                             nizk.stmt_hash + b"\0", bytes(h), bytes(h)][k % 7])
        elif kind == "msg":
            bad, vmsg = nizk, variant(msg, k)
        if not bad:
            continue
        if bad.responses is not nizk.responses and same_transcript(rstmt, nizk.challenge, nizk.responses, bad.responses):
            labels.add("equivalent")
            continue
        done += 1
        labels.add("mut:" + what)
        must_reject("proof with changed %s" % what, verify, vstmt, bad, vmsg)
    must_accept("honest proof again", verify, vstmt, nizk, msg)
    if case["int"]:
        for m in case["muts"]:
            if not m[0].startswith(("resp", "sub")) or m[0] == "sub+resp":
                continue
            prover = must("get_prover", party.get_prover, stmt)
            v = model.verifier_stmt(case).get_verifier()
            v.process_precommitment(prover.precommit())
            com = prover.commit()
            c = v.send_challenge(com)
            resp = prover.compute_response(c)
            bad = apply_response(m, v.stmt, c, resp, r)
            if bad is not None and not same_transcript(v.stmt, c, resp, bad):
                labels.add("int-mut:" + m[0])
                must_reject("interactive response with changed %s" % m[0], v.verify, bad)
                done += 1
    if done:
        labels.add("nontrivial")
    return labels


ec1 = st.sampled_from([[g] for g in gen.FAST])
pairs = st.sampled_from([["G1"], ["G1", "G2"], ["G2"], ["GT"]])

PROP = Prop("C04", [
    Sub("dl", make(("dl",)), run, 3600, rule="representation trees"),
    Sub("ext", make(("dl", "dlne", "rng", "p2", "cust"), ec1, 2), run, 1300, rule="with primitives"),
    Sub("prim", make(("dlne", "rng", "p2"), ec1, 0, count=8), run, 700, rule="single primitives"),
    Sub("pair", make(("dl", "bbs", "dlne"), pairs, 1), run, 220, rule="over pairing groups"),
], rule="A case is an accepted proof of a generated statement and one to eight changes to its message, "
   "responses, subchallenges (singly, swapped, in pairs keeping their sum), challenge, precommitment "
   "(every leaf value) or digest. Non-trivial: at least one change altered a value and was judged. "
   "Responses equal modulo the group order, or changes keeping all equations true, are skipped.")
