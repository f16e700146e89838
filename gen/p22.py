"""P22: a parser's description and schema agree with what it accepts."""
from vf import Check
from vals import *
from argdecl import Decl


def case(rng):
    g = Decl(rng, small=True)
    d = g.decl()
    for o in d["opts"]:
        if rng.random() < 0.1:
            o["adv"] = rng.random() < 0.8
        if rng.random() < 0.1:
            o["title"] = B("a title")
    c = {"op": "described", "decl": d, "runs": [dict(g.run(d)) for _ in range(rng.choice([1, 2, 3]))]}
    if rng.random() < 0.1:
        c["validate"] = True
    return c


def plain(v):
    """a value of either encoding, numbers as numbers"""
    if isinstance(v, dict):
        if "g" in v:
            return ["num", v["g"] * (v["m"][0] if v["m"] else 0) * 2 ** v["e"]]
        if v.get("t") in ("I", "U"):
            return ["num", v["i"]]
        return {k: plain(x) for k, x in v.items()}
    return [plain(x) for x in v] if isinstance(v, list) else v


def agrees(out, r):
    if out["o"] == "exit":
        return r["o"] == "exit" and (out["any"] or r["st"] != 0)
    return r["o"] == "ok" and plain(r["v"]) == plain(out["v"])


def alike(a, b):
    return a["o"] == b["o"] and (plain(a["v"]) == plain(b["v"]) if a["o"] == "ok" else (a["st"] == 0) == (b["st"] == 0))


def matches(e, r):
    """the results are those of the specification, satisfy the schema and are those of the rebuilt parsers"""
    if r["o"] != "ok" or not r["valid"] or len(r["rs"]) != len(e):
        return False
    if not all(any(agrees(x, y) for x in outs) for outs, y in zip(e, r["rs"])):
        return False
    return all(len(b) == len(r["rs"]) and all(alike(x, y) for x, y in zip(r["rs"], b)) for b in r["bs"])


def run():
    c = Check("P22", ["ops_args"])
    c.vectors_from("exhaustive", "MCArgs", "MCArgs.cfg", env={"BIG": "0" if c.quick else "1", "LONG": "0", "DESCRIBED": "1"}, ok=matches)
    rng = c.rng("random")
    c.validate("random", "TraceArgSchema", [case(rng) for _ in range(c.n(1800, 40000))])
    return c.finish()
