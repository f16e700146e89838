"""P06: comparison of values."""
from vf import Check
import numgen
from vals import *


def I(n):
    return N("I", n)


def U(n):
    return N("U", n)


def F(x):
    return N("F", x if isinstance(x, tuple) else int(x))


POOL = [NULL, Bo(False), Bo(True), I(0), I(1), I(-1), U(0), U(1), F(0.0), F(1.0), F((1, -1)), S(""), S("a"), S("0"), D(b""), D(b"a"), L([]), M({}), L([NULL]), L([I(0)]), L([L([])]),
        M({"": NULL}), M({"a": NULL}), M({"a": M({})}), M({"a": L([])})]
WRAPS = [lambda x: x, lambda x: L([x]), lambda x: M({"a": x}), lambda x: L([I(1), x]), lambda x: L([x, I(1)]), lambda x: M({"a": x, "b": I(1)}), lambda x: M({"": I(1), "a": x}), lambda x: L([M({"a": x})]), lambda x: M({"a": L([x])})]


def run():
    c = Check("P06", ["ops_num"])
    c.vectors_from("exhaustive", "MCNum", "MCNum.cfg", env={"PROFILE": "cmp"}, ok=numgen.vec_ok)
    rng = c.rng("random")
    cs = []
    for _ in range(c.n(8000, 120000)):
        a = numgen.nested(rng, rng.choice([0, 0, 0, 1, 2, 3]))
        b = numgen.tweak(rng, a) if rng.random() < 0.7 else numgen.nested(rng, rng.choice([0, 0, 1]))
        cs.append({"op": "cmp", "a": a, "b": b, "via": rng.randrange(5)})
    c.validate("random", "TraceNum", cs)
    # every pair of small values, bare and at the same place of otherwise equal values
    c.validate("pairs", "TraceNum", [{"op": "cmp", "a": w(a), "b": w(b), "via": (i + j + k) % 5} for k, w in enumerate(WRAPS) for i, a in enumerate(POOL) for j, b in enumerate(POOL)])
    return c.finish()
