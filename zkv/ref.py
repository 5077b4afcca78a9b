"""Reference semantics of transcripts, written from the equations over plain integers.

Works on built statements through their public structure: ``subproofs`` of compositions,
``constructed_stmt`` of extended statements, ``lhs``/``bases``/``secret_vars`` of representations.
"""
from petlib.bn import Bn
from zksk.base import NIZK, SimulationTranscript, build_fiat_shamir_challenge
from zksk.composition import AndProofStmt, OrProofStmt
from zksk.extended import ExtendedProofStmt

from zkv.model import bn

CH = 1 << 128


def inner(stmt):
    while isinstance(stmt, ExtendedProofStmt):
        stmt = stmt.constructed_stmt
    return stmt


def kind(stmt):
    stmt = inner(stmt)
    if isinstance(stmt, OrProofStmt):
        return "or"
    if isinstance(stmt, AndProofStmt):
        return "and"
    return "dl"


def wsum(stmt, weights):
    q = int(stmt.bases[0].group.order())
    res = stmt.bases[0].group.infinite()
    for w, b in zip(weights, stmt.bases):
        w = int(w) % q
        if w:
            res = res + bn(w) * b
    return res


def neg_mul(c, p):
    q = int(p.group.order())
    c = (-int(c)) % q
    return bn(c) * p


def dl_commitment(stmt, c, responses):
    """The only commitment that fits: sum r_i B_i - c Y."""
    return wsum(stmt, responses) + neg_mul(c, stmt.lhs)


def check(stmt, commitment, c, responses, seen=None):
    """The verdict the equations give."""
    stmt = inner(stmt)
    seen = {} if seen is None else seen
    k = kind(stmt)
    try:
        if k == "dl":
            if len(responses) != len(stmt.bases):
                return False
            for s, r in zip(stmt.secret_vars, responses):
                if seen.setdefault(s.name, int(r)) != int(r):
                    return False
            return dl_commitment(stmt, c, responses) == commitment
        if k == "and":
            if not len(responses) == len(commitment) == len(stmt.subproofs):
                return False
            return all([check(s, m, c, r, seen)
                        for s, m, r in zip(stmt.subproofs, commitment, responses)])
        chs, resps = responses
        n = len(stmt.subproofs)
        if not len(chs) == len(resps) == len(commitment) == n:
            return False
        if any(not 0 <= int(x) < CH for x in chs):
            return False
        if (sum(int(x) for x in chs) - int(c)) % CH:
            return False
        return all([check(s, m, x, r, {})
                    for s, m, x, r in zip(stmt.subproofs, commitment, chs, resps)])
    except Exception:  # petlib raises these for comparisons across groups
        return False


def recompute(stmt, c, responses):
    """The commitment that fits a well-formed response."""
    stmt = inner(stmt)
    k = kind(stmt)
    if k == "dl":
        return dl_commitment(stmt, c, responses)
    if k == "and":
        return [recompute(s, c, r) for s, r in zip(stmt.subproofs, responses)]
    return [recompute(s, x, r) for s, x, r in zip(stmt.subproofs, *responses)]


def split(rng, total, n):
    """n challenges adding up to total modulo 2^128."""
    out = [rng.randrange(CH) for _ in range(n - 1)]
    return out + [(total - sum(out)) % CH]


def sim(stmt, c, rng, seen=None, splitter=split):
    """A transcript for challenge c: (commitment, responses), equations satisfied."""
    stmt = inner(stmt)
    seen = {} if seen is None else seen
    k = kind(stmt)
    if k == "dl":
        q = int(stmt.bases[0].group.order())
        rs = [bn(seen.setdefault(s.name, rng.randrange(q))) for s in stmt.secret_vars]
        return dl_commitment(stmt, c, rs), rs
    if k == "and":
        parts = [sim(s, c, rng, seen, splitter) for s in stmt.subproofs]
        return [p[0] for p in parts], [p[1] for p in parts]
    chs = splitter(rng, int(c), len(stmt.subproofs))
    parts = [sim(s, x, rng, {}, splitter) for s, x in zip(stmt.subproofs, chs)]
    return [p[0] for p in parts], ([bn(x) for x in chs], [p[1] for p in parts])


class Unknown(Exception):
    """The witness does not cover the statement."""


class RefProver:
    """Honest sigma-protocol prover. ``witness`` maps secret names to integers; clauses whose secrets
    are missing are simulated. ``value``: optional override per (path, term index), which makes the
    prover use different values for occurrences of one secret, with randomisers of their own."""

    def __init__(self, stmt, witness, rng, live=None, value=None, dead=None):
        self.stmt, self.witness, self.rng = stmt, witness, rng
        self.live = live or {}
        self.value = value
        self.dead = dead or {}      # path of a disjunction -> object with draw() and fix()

    def _provable(self, stmt):
        stmt = inner(stmt)
        k = kind(stmt)
        if k == "dl":
            return all(s.name in self.witness for s in stmt.secret_vars)
        return (all if k == "and" else any)([self._provable(s) for s in stmt.subproofs])

    def commit(self):
        self.plan, com = self._commit(self.stmt, (), {})
        return com

    def _commit(self, stmt, path, ks):
        stmt = inner(stmt)
        k = kind(stmt)
        if k == "dl":
            q = int(stmt.bases[0].group.order())
            rs, xs = [], []
            for i, s in enumerate(stmt.secret_vars):
                v = self.value(path, i, s) if self.value else None
                if v is None:
                    if s.name not in self.witness:
                        raise Unknown(s.name)
                    rs.append(ks.setdefault(s.name, self.rng.randrange(q)))
                    xs.append(self.witness[s.name])
                else:
                    rs.append(self.rng.randrange(q))
                    xs.append(v)
            return ("dl", q, rs, xs), wsum(stmt, rs)
        if k == "and":
            parts = [self._commit(s, path + (i,), ks) for i, s in enumerate(stmt.subproofs)]
            return ("and", [p[0] for p in parts]), [p[1] for p in parts]
        n = len(stmt.subproofs)
        if path in self.dead:
            # every clause is simulated
            chs = self.dead[path].draw(self.rng, n)
            parts = [sim(s, x, self.rng) for s, x in zip(stmt.subproofs, chs)]
            return ("dead", self.dead[path], stmt, chs, [p[1] for p in parts]), [p[0] for p in parts]
        live = self.live.get(path)
        if live is None:
            ok = [i for i in range(n) if self._provable(stmt.subproofs[i])]
            if not ok:
                raise Unknown("no clause")
            live = ok[self.rng.randrange(len(ok))]
        chs = [None if i == live else self.rng.randrange(CH) for i in range(n)]
        subs, com = [], []
        for i, s in enumerate(stmt.subproofs):
            if i == live:
                p, m = self._commit(s, path + (i,), {})
                subs.append(p)
            else:
                m, r = sim(s, chs[i], self.rng)
                subs.append(r)
            com.append(m)
        return ("or", live, chs, subs), com

    def respond(self, c):
        return self._respond(self.plan, int(c))

    def _respond(self, plan, c):
        if plan[0] == "dl":
            _, q, rs, xs = plan
            return [bn((r + c * x) % q) for r, x in zip(rs, xs)]
        if plan[0] == "and":
            return [self._respond(p, c) for p in plan[1]]
        if plan[0] == "dead":
            return plan[1].fix(self.rng, c, plan[2], list(plan[3]), list(plan[4]))
        _, live, chs, subs = plan
        x = (c - sum(v for v in chs if v is not None)) % CH
        out = [self._respond(p, x) if i == live else p for i, p in enumerate(subs)]
        return ([bn(x if v is None else v) for v in chs], out)


def fs(stmt, precommitment, commitment, message=None):
    """(challenge, digest) of the non-interactive proof for the statement as it stands."""
    h = stmt.prehash_statement()
    digest = h.digest()
    return build_fiat_shamir_challenge(h, precommitment, commitment, message=message or ""), digest


def fs_nizk(prover, stmt, precommitment=None, message=None):
    """Non-interactive proof of a RefProver."""
    com = prover.commit()
    c, digest = fs(stmt, precommitment, com, message)
    return NIZK(challenge=c, responses=prover.respond(c), precommitment=precommitment,
                stmt_hash=digest)


def cross_nizk(prover, vstmt, message=None, precommitment=None):
    """A library prover for one statement, presented as a proof for ``vstmt``."""
    pre = prover.precommit()
    if precommitment is not None:
        pre = precommitment(pre)
    v = vstmt.get_verifier()
    v.process_precommitment(pre)
    com = prover.commit()[1]
    c, digest = fs(vstmt, pre, com, message)
    return NIZK(challenge=c, responses=prover.compute_response(c), precommitment=pre,
                stmt_hash=digest)


def cross_interactive(prover, verifier):
    """A library prover for one statement, talking to a verifier of another."""
    verifier.process_precommitment(prover.precommit())
    com = prover.commit()[1]
    c = verifier.send_challenge((verifier.stmt.prehash_statement().digest(), com))
    return verifier.verify(prover.compute_response(c))


def precommitment_of(stmt):
    """Precommitments of a statement prepared for simulation or proving, in the layout of a proof."""
    if isinstance(stmt, ExtendedProofStmt):
        return stmt.precommitment
    if kind(stmt) == "dl":
        return None
    pre = [precommitment_of(s) for s in stmt.subproofs]
    return None if all(p is None for p in pre) else pre


def constructed(stmt, pre):
    """The statement with a precommitment put in, as a verifier has it."""
    stmt.get_verifier().process_precommitment(pre)
    return stmt


def disjunctions(stmt, path=()):
    """Paths of the disjunctions of a constructed statement."""
    stmt = inner(stmt)
    if kind(stmt) == "dl":
        return
    if kind(stmt) == "or":
        yield path, len(stmt.subproofs)
    for i, s in enumerate(stmt.subproofs):
        yield from disjunctions(s, path + (i,))


def at(stmt, path):
    stmt = inner(stmt)
    for i in path:
        stmt = inner(stmt.subproofs[i])
    return stmt


def towards(stmt, path):
    """Choices that make the disjunctions above ``path`` go through it."""
    return {path[:i]: path[i] for i in range(len(path)) if kind(at(stmt, path[:i])) == "or"}


# ---------------------------------------------------------------- paths into nested values
def flatten(x, path=()):
    """(path, leaf) of a nested proof component."""
    if isinstance(x, (list, tuple)):
        for i, y in enumerate(x):
            yield from flatten(y, path + (i,))
    elif isinstance(x, dict):
        for k in sorted(x, key=str):
            yield from flatten(x[k], path + (k,))
    else:
        yield path, x


def replace(x, path, value):
    """Copy of a nested value with one position replaced."""
    if not path:
        return value
    if isinstance(x, dict):
        return {k: (replace(v, path[1:], value) if k == path[0] else v) for k, v in x.items()}
    out = [replace(v, path[1:], value) if i == path[0] else v for i, v in enumerate(x)]
    return tuple(out) if isinstance(x, tuple) else out


def get(x, path):
    for p in path:
        x = x[p]
    return x


def deep(x):
    """Copy of the containers."""
    if isinstance(x, dict):
        return {k: deep(v) for k, v in x.items()}
    if isinstance(x, list):
        return [deep(v) for v in x]
    if isinstance(x, tuple):
        return tuple(deep(v) for v in x)
    return x


def plain(x):
    """Comparable form of a proof component: numbers as int, points as bytes, tuples as lists."""
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, Bn):
        return int(x)
    if hasattr(x, "export"):
        return [type(x).__name__, bytes(x.export()).hex()]
    if isinstance(x, (bytes, bytearray)):
        return "b" + x.hex()
    return x


def shape(x):
    """Form of a proof component."""
    if isinstance(x, dict):
        return {"dict": {str(k): shape(x[k]) for k in sorted(x, key=str)}}
    if isinstance(x, (list, tuple)):
        return [type(x).__name__] + [shape(v) for v in x]
    return type(x).__name__


def positions(stmt, challenge, responses, scope=()):
    """Yields (scope, secret, order, challenge, response); scope tells the enclosing clauses apart."""
    stmt = inner(stmt)
    k = kind(stmt)
    if k == "dl":
        q = int(stmt.bases[0].group.order())
        for s, r in zip(stmt.secret_vars, responses):
            yield scope, s, q, int(challenge), int(r)
    elif k == "and":
        for i, s in enumerate(stmt.subproofs):
            yield from positions(s, challenge, responses[i], scope)
    else:
        for i, s in enumerate(stmt.subproofs):
            yield from positions(s, responses[0][i], responses[1][i], scope + ((id(stmt), i),))


def response_info(stmt, challenge, responses):
    """Yields (kind, path, modulus, value): kind 'resp' with the group order or 'sub'."""
    stmt = inner(stmt)
    k = kind(stmt)
    if k == "dl":
        q = int(stmt.bases[0].group.order())
        for i, r in enumerate(responses):
            yield ("resp", (i,), q, int(r))
    elif k == "and":
        for i, s in enumerate(stmt.subproofs):
            for a, p, q, v in response_info(s, challenge, responses[i]):
                yield a, (i,) + p, q, v
    else:
        for i, x in enumerate(responses[0]):
            yield ("sub", (0, i), CH, int(x))
        for i, s in enumerate(stmt.subproofs):
            for a, p, q, v in response_info(s, challenge, responses[1][i]):
                yield a, (1, i) + p, q, v
