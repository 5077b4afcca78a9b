"""C09 Simulated transcripts are well formed but are not proofs."""
from hypothesis import strategies as st
from zksk.base import NIZK, SimulationTranscript

from zkv import core, gen, model, mutate, ref
from zkv.core import Prop, Sub, must, must_accept, must_reject, require
from zkv.props import c04
from zkv.proto import verify

CHALLENGES = [None, None, None, 0, 1, 2, ref.CH - 1, ref.CH // 2, "r", "r", "big"]
MUTS = ["resp", "resp-all", "resp-swap", "sub", "sub-pair", "sub-swap", "com", "com", "challenge", "pre", "hash"]


def make(kinds, groups=None, depth=3, width=4):
    @st.composite
    def strat(draw):
        g = gen.G(draw, groups=draw(groups) if groups is not None else None, kinds=kinds,
                  depth=draw(st.integers(0, depth)), width=width)
        tree = g.tree()
        muts = [[g.pick(MUTS), g.i(0, 40), g.i(0, 40), mutate.draw_delta(g), g.pick(mutate.POINTS), g.i(0, 9)]
                for _ in range(g.i(1, 4))]
        return g.case(tree, challenge=g.pick(CHALLENGES), muts=muts, who=g.pick(["V", "V", "V", "P"]),
                      msg=gen.message(draw))
    return strat()


def tr_copy(t, **changes):
    d = dict(commitment=t.commitment, challenge=t.challenge, responses=t.responses,
             precommitment=t.precommitment, stmt_hash=t.stmt_hash)
    d.update(changes)
    return SimulationTranscript(**d)


def consistent(case, tr):
    return model.verifier_stmt(case).verify_simulation_consistency(tr)


def run(case):
    r = core.rng()
    party = model.Party(case, case["who"], case["who"] == "P")
    stmt = must("building", party.build)
    want = case["challenge"]
    if want == "r":
        want = r.randrange(ref.CH)
    elif want == "big":
        want = r.randrange(ref.CH, 1 << 250)
    if want is not None:
        want = model.bn(want)
        tr = must("simulation", stmt.simulate, challenge=want)
        require(tr.challenge == want, "simulation for challenge %s carries %s", want, tr.challenge)
    else:
        tr = must("simulation", stmt.simulate)
        require(0 <= int(tr.challenge) < ref.CH, "simulated challenge out of range")
    labels = gen.describe(case) | {"who:" + case["who"], "challenge:" + str(case["challenge"])[:4]}
    require(must("consistency check", consistent, case, tr) is True, "a simulated transcript is inconsistent")
    rstmt = ref.constructed(model.verifier_stmt(case), tr.precommitment)
    require(ref.check(rstmt, tr.commitment, tr.challenge, tr.responses),
            "the simulated transcript does not satisfy the equations")
    for kind, p, q, v in ref.response_info(rstmt, tr.challenge, tr.responses):
        require(0 <= v < q, "simulated %s out of range", kind)
    # not a proof
    as_proof = NIZK(challenge=tr.challenge, responses=tr.responses, precommitment=tr.precommitment,
                    stmt_hash=tr.stmt_hash)
    must_reject("simulated transcript as a proof", verify, model.verifier_stmt(case), as_proof, case["msg"])
    must_reject("simulated transcript object as a proof", verify, model.verifier_stmt(case), tr, case["msg"])
    if case["tree"]["k"] != "dl" or (case["v"][case["tree"]["t"][0][0]] or case["tree"]["off"]):
        v = model.verifier_stmt(case).get_verifier()
        v.process_precommitment(tr.precommitment)
        c = v.send_challenge((tr.stmt_hash, tr.commitment))
        if not ref.check(rstmt, tr.commitment, c, tr.responses):
            must_reject("simulated transcript in an interactive run", v.verify, tr.responses)
    # changed transcripts
    for m in case["muts"]:
        kind, i, j, delta, how, k = m
        bad = None
        if kind.startswith(("resp", "sub")):
            a = c04.apply_response(m, rstmt, tr.challenge, tr.responses, r)
            bad = a and tr_copy(tr, responses=a)
        elif kind == "com":
            leaves = list(ref.flatten(tr.commitment))
            p, v = leaves[i % len(leaves)]
            new = mutate.move_point(v, how, r)
            if new != v:
                bad = tr_copy(tr, commitment=ref.replace(tr.commitment, p, new))
        elif kind == "challenge":
            c = int(tr.challenge)
            new = mutate.shift(c, delta, model.order("ec713"), r)
            if new != c:
                bad = tr_copy(tr, challenge=model.bn(new))
        elif kind == "pre":
            leaves = [(p, v) for p, v in ref.flatten(tr.precommitment) if hasattr(v, "export")]
            if leaves:
                p, v = leaves[i % len(leaves)]
                new = mutate.move_point(v, how, r)
                if new != v:
                    bad = tr_copy(tr, precommitment=ref.replace(tr.precommitment, p, new))
        elif kind == "hash":
            h = bytearray(tr.stmt_hash)
            h[i % len(h)] ^= 1 << (j % 8)
            bad = tr_copy(tr, stmt_hash=bytes(h))
        if not bad:
            continue
        if kind not in ("pre", "hash") and ref.check(rstmt, bad.commitment, bad.challenge, bad.responses):
            labels.add("equivalent")
            continue
        labels.add("mut:" + kind)
        must_reject("simulated transcript with changed %s" % kind, consistent, case, bad)
    again = must("second simulation", stmt.simulate)
    require(ref.plain(again.commitment) != ref.plain(tr.commitment), "two simulations share their commitments")
    require(must("consistency check", consistent, case, again) is True, "the second simulation is inconsistent")
    return labels | {"nontrivial"}


# ---------------------------------------------------------------- many simulations of one object
def series(kinds, groups=None, depth=2, width=3, most=7):
    base = make(kinds, groups, depth, width)

    @st.composite
    def strat(draw):
        case = draw(base)
        case["series"] = draw(st.lists(st.sampled_from([None, None, None, 0, 1, (1 << 128) - 1, 7, "r", "big", "check", "prove"]),
                                       min_size=3, max_size=most))
        return case
    return strat()


def run_series(case):
    """Every simulation by one object is as good as the first, and none repeats another."""
    r = core.rng()
    party = model.Party(case, case["who"], case["who"] == "P")
    stmt = must("building", party.build)
    labels = gen.describe(case)
    seen, made, last = [], 0, None
    for want in case["series"]:
        if want == "check":
            # the object that simulates is used to check as well
            if last is not None:
                require(must("consistency check", stmt.verify_simulation_consistency, last) is True,
                        "a simulated transcript is inconsistent for the object that made it")
            continue
        if want == "prove":
            if case["who"] == "P" and model.provable(case["tree"], case["v"], case["v"], set(case["unk"])) == "yes":
                nizk = must("proving between simulations", party.prove, stmt, case["msg"])
                must_accept("proof between simulations", verify, model.verifier_stmt(case), nizk, case["msg"])
                labels.add("proved-between")
            continue
        c = {"r": r.randrange(ref.CH), "big": r.randrange(ref.CH, 1 << 250)}.get(want, want)
        tr = must("simulation", stmt.simulate, **({} if c is None else {"challenge": model.bn(c)}))
        require(c is None or tr.challenge == model.bn(c), "a simulation carries another challenge")
        require(must("consistency check", consistent, case, tr) is True, "a simulated transcript is inconsistent")
        rstmt = ref.constructed(model.verifier_stmt(case), tr.precommitment)
        require(ref.check(rstmt, tr.commitment, tr.challenge, tr.responses), "a simulated transcript does not satisfy the equations")
        com = ref.plain(tr.commitment)
        require(com not in seen, "two simulations share their commitments")
        seen.append(com)
        made, last = made + 1, tr
    return labels | ({"nontrivial"} if made > 1 else set()) | {"simulated:%d" % made}


ec1 = st.sampled_from([[g] for g in gen.FAST])
pairs = st.sampled_from([["G1"], ["G1", "G2"], ["G2"], ["GT"], ["G1", "ec713"]])

PROP = Prop("C09", [
    Sub("dl", make(("dl",)), run, 2000, rule="representation trees"),
    Sub("ext", make(("dl", "dlne", "rng", "p2", "cust"), ec1, 2, 3), run, 700, rule="with primitives"),
    Sub("pair", make(("dl", "bbs", "dlne"), pairs, 1, 3), run, 130, rule="over pairing groups"),
    Sub("series", series(("dl",)), run_series, 500, rule="several simulations of one object, with checks and proofs between them"),
    Sub("series-ext", series(("dl", "dlne", "rng", "p2", "cust"), ec1), run_series, 250, rule="same, with primitives"),
    Sub("series-pair", series(("dl", "bbs", "dlne"), pairs, 1, 2, 5), run_series, 40, rule="same, over pairing groups"),
], rule="A case is a statement, a challenge to simulate for (or none) and one to four changes of the transcript. "
   "Non-trivial: the simulation was checked against the equations, tried as a proof, and changed.")
