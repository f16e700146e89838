"""P09: writing JSON."""
from vf import Check
from vals import *
import numgen


def string(rng):
    r = rng.random()
    if r < 0.08:
        n = rng.choice([126, 127, 128, 129, 500, 509, 510, 511, 512, 513, 1030])
        return [rng.choice([0x61, 0x61, 0x61, 0x22, 0x0a, 0x1f]) if rng.random() < 0.05 else 0x61 for _ in range(n)]
    return [b for _ in range(rng.choice([0, 1, 2, 3, 8, 30])) for b in
            rng.choice([[0x61], [0x22], [0x5c], [0x2f], [8], [9], [10], [12], [13], [1], [0x1f], [0x7f], [0xc3, 0xa9], [0xe2, 0x82, 0xac], [0xf0, 0x9d, 0x84, 0x9e], [0x20], [0x75]])]


def dbl(rng):
    import struct
    r = rng.random()
    if r < 0.3:
        return N("F", struct.unpack("<d", struct.pack("<Q", rng.getrandbits(64)))[0] if rng.random() < 0.5 else rng.uniform(-1, 1) * 10.0 ** rng.randint(-20, 20))
    if r < 0.5:
        return N("F", float(rng.choice([0, 1, -1, 10, 0.1, 0.5, 1e15, 1e16, 1.2345678901234567e16, 12345678901234567.0, 99999999999999984.0, 1e17, 1e18, 123456789012345680.0,
                                        1e-4, 1e-5, 1.5e-5, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, float("inf"), float("-inf"), float("nan")])))
    return N("F", float(rng.randint(-2**53, 2**53)) * 2.0 ** rng.choice([0, 0, 1, 3, 10, -1, -10, -60]))


def scalar(rng):
    r = rng.random()
    if r < 0.3:
        return {"t": "S", "s": string(rng)}
    if r < 0.5:
        return dbl(rng)
    if r < 0.65:
        return N("I", numgen.integer(rng, -2**63, 2**63 - 1))
    if r < 0.75:
        return N("U", numgen.integer(rng, 0, 2**64 - 1))
    if r < 0.82:
        return numgen.blob(rng, [rng.randrange(256) for _ in range(rng.choice([0, 1, 2, 3, 4, 30, 200]))])
    return rng.choice([NULL, Bo(True), Bo(False)])


def nested(rng, depth, root=False):
    if not root and (depth == 0 or rng.random() < 0.3):
        return scalar(rng)
    n = rng.choice([0, 1, 2, 3, 5])
    if rng.random() < 0.5:
        return L([nested(rng, depth - 1) for _ in range(n)])
    return M({bytes(string(rng)): nested(rng, depth - 1) for _ in range(n)})


def cases(rng, n):
    cs = []
    for _ in range(n):
        v = nested(rng, rng.choice([1, 2, 3]), True)
        deep = rng.random() < 0.06
        if deep:
            for _ in range(rng.choice([5, 30, 45])):
                v = L([v]) if rng.random() < 0.5 else M({"k": v})
        c = {"op": "jwrite", "v": v, "strict": rng.random() < 0.3, "pretty": rng.random() < 0.5}
        if rng.random() < 0.5:
            c["indent"] = rng.choice([0, 1, 2, 3] if deep else [0, 1, 2, 3, 4, 8, 8, 8, 40, 63, 64, 65, 128])
        cs.append(c)
    return cs


def run():
    c = Check("P09", ["ops_json"])
    c.vectors_from("exhaustive", "MCJsonW", "MCJsonW.cfg", env={"DEPTH": str(c.n(3, 4))},
                   ok=lambda e, r: r.get("o") == e["o"] and r.get("back") == e["back"])
    c.validate("random", "TraceJson", cases(c.rng("random"), c.n(3000, 40000)))
    return c.finish()
