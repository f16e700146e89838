"""P24: flatten, expand, recursive difference and update."""
from vf import Check
from vals import *

KEYS = ["a", "b", "c", "key", "0", "1x", "é", "a b"]
SCAL = [NULL, Bo(True), I(0), I(-7), U(5), F(0.5), S(""), S("x"), S("/a[0]"), S("é"), D(b"\x00\xff")]


def full(rng, depth, keys, scal):
    """without empty containers"""
    if depth == 0 or rng.random() < 0.25:
        return rng.choice(scal)
    n = rng.choice([1, 1, 2, 3, 4, 12])
    if rng.random() < 0.5:
        return L([full(rng, depth - 1 if n < 10 else 0, keys, scal) for _ in range(n)])
    return M({rng.choice(keys): full(rng, depth - 1, keys, scal) for _ in range(n)})


def cases(rng, n):
    cs = []
    for _ in range(n):
        r = rng.random()
        if r < 0.5:
            keys = KEYS if rng.random() < 0.8 else KEYS + ["a/b", "x.y", "[", "", "\\"]
            v = full(rng, rng.choice([1, 2, 3, 4]), keys, [S("x"), S(""), S("q,r")] if rng.random() < 0.3 else SCAL)
            if rng.random() < 0.1:
                v = value(rng, 3, keys, SCAL)
            p = {"pd": B(rng.choice("/././.:|_é"[:8])), "pp": B(rng.choice(["", "", "/", ".", "$"])), "ip": B(rng.choice("[[[(")), "ld": B(rng.choice(",;")), "simple": rng.random() < 0.5}
            p["is"] = B(rng.choice(["]", "", ")"]) if p["ip"] != B("[") or rng.random() < 0.1 else "]")
            if p["pp"] and rng.random() < 0.5:
                p["pp"] = p["pd"]
            if flattenable(v, p["simple"]):
                cs.append({"op": "flatten", "v": v, "p": p})
        else:
            from p17 import mutate
            a = value(rng, 4, KEYS[:4] + [""], SCAL, 4, 0.8)
            if a["t"] != "M":
                a = M({"a": a, "b": value(rng, 2, KEYS[:4], SCAL)})
            b = mutate(rng, a) if rng.random() < 0.6 else M({rng.choice(KEYS): value(rng, 3, KEYS[:4], SCAL, 4, 0.7) for _ in range(3)})
            cs.append({"op": "rdiff" if r < 0.75 else "rupdate", "a": a, "b": b})
    return cs


def flattenable(v, simple):
    """the root has a leaf (an empty root has no flat form), no empty top level key"""
    if v["t"] in "LM":
        xs = v["l"] if v["t"] == "L" else [x for k, x in v["m"]]
        if v["t"] == "M" and any(not k for k, x in v["m"]):
            return False
        return bool(xs) and any(leafy(x, simple) for x in xs)
    return True


def leafy(v, simple):
    if v["t"] == "L":
        return (simple and all(x["t"] not in "LM" for x in v["l"])) or any(leafy(x, simple) for x in v["l"])
    if v["t"] == "M":
        return any(leafy(x, simple) for k, x in v["m"])
    return True


def part(e, r):
    return r.get("o") == "ok" and all(r.get(k) == e[k] for k in e)


def run():
    c = Check("P24", ["ops_flat"])
    for p in ("flat", "update"):
        c.vectors_from("exhaustive-" + p, "MCFlat", "MCFlat.cfg", env={"PROFILE": p, "DEPTH": str(c.n(2, 3))}, ok=part)
    c.validate("random", "TraceFlat", cases(c.rng("random"), c.n(6000, 60000)))
    return c.finish()
