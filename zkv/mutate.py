"""Changes to the components of a proof, described by JSON and applied to concrete values."""
from petlib.bn import Bn

from zkv import ref
from zkv.model import bn

CH = 1 << 128


def draw_delta(g):
    return g.pick(["+1", "-1", "+big", "neg", "zero", "double", "+2^128", "-2^128", "+2^64", "+q-1", "+2^k"])


def shift(v, delta, q, r):
    """The changed number."""
    v = int(v)
    if delta == "+1":
        return v + 1
    if delta == "-1":
        return v - 1
    if delta == "+big":
        return v + 1 + r.randrange(1 << 200)
    if delta == "neg":
        return -v
    if delta == "zero":
        return 0
    if delta == "double":
        return 2 * v
    if delta == "+2^128":
        return v + CH
    if delta == "-2^128":
        return v - CH
    if delta == "+2^64":
        return v + (1 << 64)
    if delta == "+2^k":
        return v ^ (1 << r.randrange(q.bit_length()))
    return v + q - 1


def move_point(p, how, r):
    """A different point of the same group."""
    g = p.group
    q = int(g.order())
    new = p
    if how == "+g":
        new = p + g.generator()
    elif how == "*2":
        new = bn(2) * p
    elif how == "neg":
        new = bn(q - 1) * p
    elif how == "inf":
        new = g.infinite()
    elif how == "rand":
        new = bn(r.randrange(1, q)) * g.generator()
    return new


POINTS = ["+g", "*2", "neg", "inf", "rand"]


def change_leaf(v, how, q, r):
    """Changed version of a number, point or string; None if it would be the same value."""
    if isinstance(v, (Bn, int)) and not isinstance(v, bool):
        n = shift(v, how, q, r)
        return None if (n - int(v)) % q == 0 else (bn(n) if isinstance(v, Bn) else n)
    if hasattr(v, "export"):
        n = move_point(v, how, r)
        return None if n == v else n
    if isinstance(v, bytes):
        return v + b"\x01"
    if isinstance(v, str):
        return v + "x"
    if v is None:
        return 7
    return None
