"""Running the library's protocols between separately built objects."""
import contextlib
import io

from petlib.pack import decode, encode

from zksk.base import NIZK
from zksk.utils.debug import SigmaProtocol

from zkv.core import must


def interactive(prover, verifier, precommit=True):
    """The documented message flow. Returns the verifier's verdict."""
    if precommit:
        verifier.process_precommitment(prover.precommit())
    commitment = prover.commit()
    challenge = verifier.send_challenge(commitment)
    return verifier.verify(prover.compute_response(challenge))


def wire(x):
    """A message of the protocol as it arrives at the other end of a connection."""
    return decode(encode(x))


def over_wire(prover, verifier):
    """The documented message flow with every message packed."""
    verifier.process_precommitment(wire(prover.precommit()))
    challenge = verifier.send_challenge(wire(prover.commit()))
    return verifier.verify(wire(prover.compute_response(wire(challenge))))


def verify(stmt, nizk, message=None):
    return stmt.verify(nizk) if message is None else stmt.verify(nizk, message)


def copy_nizk(n, **changes):
    d = dict(challenge=n.challenge, responses=n.responses, precommitment=n.precommitment,
             stmt_hash=n.stmt_hash)
    d.update(changes)
    return NIZK(**d)


def roundtrip(nizk):
    return NIZK.deserialize(nizk.serialize())


def runner(verifier, prover, verbose=False):
    """The same through the library's protocol runner."""
    with contextlib.redirect_stdout(io.StringIO()):
        return SigmaProtocol(verifier, prover).verify(verbose=verbose)


class Tampered:
    """A prover some of whose commitments are replaced by what ``change`` makes of them."""

    def __init__(self, prover, change):
        self.prover = prover
        self.change = change

    def precommit(self):
        return self.prover.precommit()

    def commit(self):
        digest, commitment = self.prover.commit()
        return digest, self.change(commitment)

    def compute_response(self, challenge):
        return self.prover.compute_response(challenge)


class Answers:
    """A prover whose messages are fixed beforehand."""

    def __init__(self, precommitment, commitment, response):
        self.messages = precommitment, commitment, response

    def precommit(self):
        return self.messages[0]

    def commit(self):
        return self.messages[1]

    def compute_response(self, challenge):
        return self.messages[2]
