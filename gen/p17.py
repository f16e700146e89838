"""P17: diff then patch."""
import copy
from vf import Check
from vals import *
from p16 import KEYS, SCAL


def mutate(rng, v, depth=0):
    v = copy.deepcopy(v)
    if v["t"] == "L":
        l = v["l"]
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            r = rng.random()
            if r < 0.4 and l:
                l.pop(rng.randrange(len(l)))
            elif r < 0.7:
                l.insert(rng.randrange(len(l) + 1), value(rng, 1, KEYS, SCAL))
            elif l:
                k = rng.randrange(len(l))
                l[k] = mutate(rng, l[k], depth + 1)
        return v
    if v["t"] == "M":
        m = {bytes(k): x for k, x in v["m"]}
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            r = rng.random()
            if r < 0.35 and m:
                m.pop(rng.choice(sorted(m)))
            elif r < 0.65:
                m[rng.choice(KEYS).encode()] = value(rng, 1, KEYS, SCAL)
            elif m:
                k = rng.choice(sorted(m))
                m[k] = mutate(rng, m[k], depth + 1)
        return M(m)
    return value(rng, 1, KEYS, SCAL) if rng.random() < 0.5 else v


def cases(rng, n):
    out = []
    while len(out) < n:
        a = value(rng, 3, KEYS, SCAL, 5, 0.9)
        b = mutate(rng, a) if rng.random() < 0.8 else value(rng, 3, KEYS, SCAL, 5, 0.9)
        out.append({"op": "diff", "a": a, "b": b})
    return out


def run():
    c = Check("P17", ["ops_ext"])
    c.vectors_from("exhaustive", "MCDiff", "MCDiff.cfg", env={"DEPTH": str(c.n(2, 3))})
    c.validate("random", "TracePatch", cases(c.rng("random"), c.n(5000, 50000)))
    return c.finish()
