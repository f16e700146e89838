"""P21: command lines yield the declared options or are rejected."""
from vf import Check
from vals import *
from argdecl import Decl


def case(rng):
    g = Decl(rng)
    d = g.decl()
    return {"op": "args", "decl": d, "runs": [g.run(d) for _ in range(rng.choice([1, 1, 2, 3]))]}


def plain(v):
    """a value, integers of either kind alike"""
    if isinstance(v, dict):
        return {k: "I" if k == "t" and x == "U" else plain(x) for k, x in v.items()}
    return [plain(x) for x in v] if isinstance(v, list) else v


def agrees(out, r):
    if out["o"] == "exit":
        return r["o"] == "exit" and (out["any"] or r["st"] != 0)
    return r["o"] == "ok" and plain(r["v"]) == plain(out["v"])


def matches(e, r):
    """every run has one of the outcomes computed by the specification"""
    rs = r.get("rs", [])
    return r["o"] == "ok" and len(rs) == len(e) and all(any(agrees(x, y) for x in outs) for outs, y in zip(e, rs))


def run():
    c = Check("P21", ["ops_args"])
    c.vectors_from("exhaustive", "MCArgs", "MCArgs.cfg", env={"BIG": "0" if c.quick else "1", "LONG": "0", "DESCRIBED": "0"}, ok=matches)
    if not c.quick:
        c.vectors_from("longer", "MCArgs", "MCArgs.cfg", env={"BIG": "0", "LONG": "1", "DESCRIBED": "0"}, ok=matches)
    rng = c.rng("random")
    c.validate("random", "TraceArgs", [case(rng) for _ in range(c.n(7000, 120000))])
    return c.finish()
