"""P02: only null changes type by itself; refused operations change nothing."""
import heapgen
import p07
from heapgen import *

BIG = {"t": "U", "i": 1000000}


def large_index(c):
    """The largest index on a list: refused where an element would have to exist, and nothing changes."""
    cases = []
    lits = [L([]), L([I(1)]), L([I(1), S("x"), L([I(2)])]), M({"a": I(1)}), I(3), S("s")]
    for lit in lits:
        base = [{"f": "assign", "via": 0, "h": {"v": 1}, "src": {"k": "lit", "v": lit}}]
        one = {"k": "lit", "v": I(5)}
        for ops in ([{"f": "set", "via": v, "h": {"v": 1}, "e": BIG, "src": one}] for v in (0, 1, 2)):
            cases.append(base + ops)
        cases.append(base + [{"f": "atdef", "h": {"v": 1}, "to": 1, "e": BIG, "src": one}])
        cases.append(base + [{"f": "at", "h": {"v": 1}, "to": 1, "e": BIG}, {"f": "exists", "h": {"r": 1}},
                             {"f": "read", "h": {"r": 1}}, {"f": "assign", "via": 0, "h": {"r": 1}, "src": one}])
        cases.append(base + [{"f": "erase", "h": {"v": 1}, "e": BIG}])
        for f in ("get", "contains"):
            cases.append(base + [{"f": f, "via": 0, "h": {"v": 1}, "e": BIG}])
        cases.append(base + [{"f": "getdef", "h": {"v": 1}, "e": BIG, "src": one}])
    c.validate("large-index", "TraceHeap", [{"op": "heap", "nv": 1, "nr": 1, "ops": o} for o in cases], cfg="TraceHeap.cfg")


def run():
    c = heapgen.run("P02", "types", heapgen.mix(set=10, append=8, use=8, atdef=6, merge=6, incr=6, setpath=8, erasepath=5, index=3, atpathdef=5),
                    3, 2, 3500, 60000, extra=large_index, ops=["ops_heap", "ops_num"])
    c.validate("steps", "TraceNum", p07.unary_cases(c.rng("steps"), c.n(1000, 10000)))
    c.validate("operands", "TraceNum", p07.arith_cases(c.rng("operands"), c.n(1500, 10000), 0.4))
    return c.finish()
