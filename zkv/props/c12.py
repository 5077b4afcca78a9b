"""C12 Proofs made in one process verify in another."""
import atexit
import json
import os
import subprocess

from hypothesis import strategies as st
from zksk.base import NIZK

from zkv import boot, gen, helper, model
from zkv.core import Prop, Sub, must, must_accept, require
from zkv.props import c03
from zkv.proto import verify

_helpers = {}


def ask(i, req):
    """Ask process i (started on first use)."""
    if i not in _helpers:
        env = dict(boot.child_env(), PYTHONHASHSEED=str(1 + 7919 * i) if i < 2 else "random")
        p = subprocess.Popen(boot.command("-m", "zkv.helper", str(1000 * i + i)), cwd=boot.HERE, env=env,
                             stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        _helpers[i] = p
        atexit.register(p.kill)
    p = _helpers[i]
    p.stdin.write(json.dumps(req) + "\n")
    p.stdin.flush()
    line = p.stdout.readline()
    if not line:
        del _helpers[i]
        raise RuntimeError("helper process died")
    out = json.loads(line)
    require("error" not in out, "the other process failed: %s", out.get("error"))
    return out


def make(kinds, groups=None, depth=3, width=4):
    @st.composite
    def strat(draw):
        g = gen.G(draw, groups=draw(groups) if groups is not None else None, kinds=kinds,
                  depth=draw(st.integers(0, depth)), width=width)
        tree = g.tree()
        extra = {}
        if "cust" not in kinds and g.one_in(3):
            t2 = gen.clone(tree)
            for n in model.walk(t2):
                n.pop("mark", None)
            v2 = dict(g.v)
            for n in model.leaves(t2):
                model.freeze(n, g.v)
            other, what = c03.edit(g, t2, v2)
            extra["other"] = {"tree": other, "v": {s: v2[s] for s in dict.fromkeys(model.all_secrets(other))}}
        return g.case(tree, msg=gen.message(draw), who=g.i(0, 2), **extra)
    return strat()


def run(case):
    labels = gen.describe(case)
    i = case["who"]
    plain = {k: v for k, v in case.items() if k != "other"}
    nizk = must("proving", model.prover_party(case).prove, None, case["msg"])
    raw = nizk.serialize()
    out = ask(i, {"op": "verify", "case": plain, "proof": raw.hex(), "salt": case["salt"]})
    here = helper.digest(model.verifier_stmt(case), nizk.precommitment)
    require(here == nizk.stmt_hash.hex(), "the verifier's digest differs from the prover's in one process")
    require(out["digest"] == here, "the statement's digest differs between processes")
    require(out["ok"], "a proof made here is rejected by the other process")
    # and back
    out = ask(i, {"op": "prove", "case": plain, "salt": case["salt"] + 1})
    back = NIZK.deserialize(bytes.fromhex(out["proof"]))
    require(all(n["k"] != "dl" for n in model.leaves(case["tree"])) or len(back.stmt_hash) == 32, "digest")
    must_accept("a proof made by the other process", verify, model.verifier_stmt(case), back, case["msg"])
    if nizk.precommitment is None:
        require(back.stmt_hash == nizk.stmt_hash, "digests of equal statements differ")
    if "other" in case and model.canonical(case) != model.canonical(case["other"]):
        try:
            model.verifier_stmt(case["other"])
        except Exception:
            return labels | {"nontrivial"}
        o = dict(case["other"], msg=case["msg"], unk=[], style={})
        out = ask(i, {"op": "verify", "case": o, "proof": raw.hex(), "salt": 1})
        require(not out["ok"], "the other process accepts the proof for another statement")
        if all(n["k"] == "dl" for c in (case, o) for n in model.leaves(c["tree"])):
            require(out["digest"] != here, "another statement has the same digest in the other process")
            labels.add("other")
    return labels | {"nontrivial", "process:%d" % i}


@st.composite
def gens(draw):
    return {"n": draw(st.integers(1, 12)), "group": draw(st.sampled_from([None, None] + model.EC + ["G1"])),
            "seed": draw(st.one_of(st.just("default"), st.integers(0, 2 ** 40))), "who": draw(st.integers(0, 2))}


def run_gens(case):
    here = helper.handle(dict(case, op="gens"))["gens"]
    there = ask(case["who"], dict(case, op="gens"))["gens"]
    require(here == there, "generators differ between processes")
    return {"nontrivial", "group:%s" % case["group"], "default" if case["seed"] == "default" else "seeded"}


ec1 = st.sampled_from([[g] for g in gen.FAST])
pairs = st.sampled_from([["G1"], ["G1", "G2"], ["G2"], ["GT"], ["G1", "G2", "GT"], ["G1", "ec713"]])

PROP = Prop("C12", [
    Sub("dl", make(("dl",)), run, 1400, rule="representation trees"),
    Sub("ext", make(("dl", "dlne", "rng", "p2", "cust"), ec1, 2, 3), run, 600, rule="with primitives"),
    Sub("pair", make(("dl", "bbs", "dlne"), pairs, 1, 3), run, 170, rule="over pairing groups"),
    Sub("gens", gens(), run_gens, 240, rule="generators derived in both processes"),
], rule="A case is a statement proved here and verified by one of three other processes (own hash seed, memory "
   "layout, import order), and the reverse. Non-trivial: both directions were judged and the digests compared.")
