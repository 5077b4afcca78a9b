"""Putting one statement at a generated place of a tree, and precommitments at that place."""
from zkv import ref


def wrap(g, node, levels=(0, 0, 1, 1, 2)):
    """(tree, path): the node inside conjunctions with true representations and inside disjunctions whose
    other clauses are marked as simulated. Each level keeps the path as the library has it."""
    tree, path = node, []
    for _ in range(g.pick(list(levels))):
        sib = [g.leaf_dl([], g.pick(g.groups)) for _ in range(g.pick([1, 1, 2]))]
        i = g.i(0, len(sib))
        if g.b():
            k = "and"
        else:
            k = "or"
            for s in sib:
                s["mark"] = g.pick(["pre", "post"])
                if g.one_in(3):
                    s["off"] = g.i(1, 9)
        tree = {"k": k, "op": 0, "c": sib[:i] + [tree] + sib[i:]}
        path.insert(0, i)
    return tree, path


def place(stmt, path, pre):
    """A precommitment with ``pre`` at the path."""
    if not path:
        return pre
    out = [None] * len(stmt.subproofs)
    out[path[0]] = place(stmt.subproofs[path[0]], path[1:], pre)
    return out


def at(stmt, path):
    for i in path:
        stmt = stmt.subproofs[i]
    return stmt


def attempt(stmt, prover, pre, mode, msg, fresh):
    """Runs a reference prover for a constructed statement against the library's verifier ``fresh``.
    Returns (verdict function, equations hold)."""
    com = prover.commit()
    if mode == "int":
        verifier = fresh.get_verifier()
        verifier.process_precommitment(pre)
        c = verifier.send_challenge((stmt.prehash_statement().digest(), com))
        resp = prover.respond(c)
        return (lambda: verifier.verify(resp)), ref.check(stmt, com, c, resp)
    from zksk.base import NIZK
    from zkv.proto import roundtrip, verify
    c, digest = ref.fs(stmt, pre, com, msg)
    resp = prover.respond(c)
    nizk = NIZK(challenge=c, responses=resp, precommitment=pre, stmt_hash=digest)
    if mode == "ser":
        nizk = roundtrip(nizk)
    return (lambda: verify(fresh, nizk, msg)), ref.check(stmt, com, c, resp)
