"""A second process that builds statements from cases, proves and verifies. JSON lines in and out."""
import json
import sys

from zkv import boot


def handle(req):
    from zksk.base import NIZK
    from zksk.utils import get_random_point, make_generators

    from zkv import core, model, ref
    from zkv.core import accepted
    from zkv.proto import verify

    op = req["op"]
    if op == "gens":
        group = None if req["group"] is None else model.SIDES["V"].group(req["group"])
        out = []
        if req["seed"] == "default":
            pts = make_generators(req["n"], group) if group is not None else make_generators(req["n"])
        else:
            pts = make_generators(req["n"], group, seed=req["seed"])
            pts.append(get_random_point(group, seed=req["seed"]))
        return {"gens": [bytes(p.export()).hex() for p in pts]}
    case = req["case"]
    with core.randomness(req["salt"]):
        if op == "prove":
            return {"proof": model.prover_party(case).prove(None, case["msg"]).serialize().hex()}
        nizk = NIZK.deserialize(bytes.fromhex(req["proof"]))
        stmt = model.verifier_stmt(case)
        ok = accepted(verify, stmt, nizk, case["msg"])
        return {"ok": ok, "digest": digest(model.verifier_stmt(case), nizk.precommitment)}


def digest(stmt, pre):
    try:
        stmt.get_verifier().process_precommitment(pre)
        return stmt.prehash_statement().digest().hex()
    except Exception as e:
        return "error " + type(e).__name__


def main():
    junk = [object() for _ in range(int(sys.argv[1]))]   # another memory layout
    boot.import_paths()
    if int(sys.argv[1]) % 2:
        import zksk.primitives.rangeproof
        import zksk.pairings
    for line in sys.stdin:
        try:
            out = handle(json.loads(line))
        except Exception as e:
            out = {"error": "%s: %s" % (type(e).__name__, e)}
        print(json.dumps(out), flush=True)
    del junk


if __name__ == "__main__":
    main()
