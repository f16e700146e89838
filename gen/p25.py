"""P25: documents written call by call, recorded and replayed."""
from vf import Check
from vals import *
import p10
import p14


def calls(rng, v, ev, flush):
    if rng.random() < flush:
        ev.append({"f": "fl"})
    n = {} if rng.random() < 0.5 else {"n": len(v.get("l", v.get("m", [])))}
    if v["t"] == "L":
        ev.append(dict(f="bl", **n))
        for x in v["l"]:
            calls(rng, x, ev, flush)
        ev.append({"f": "el"})
    elif v["t"] == "M":
        ev.append(dict(f="bm", **n))
        m = list(v["m"])
        rng.shuffle(m)
        for k, x in m:
            ev.append({"f": "s", "v": {"t": "S", "s": k}})
            calls(rng, x, ev, flush)
        ev.append({"f": "em"})
    else:
        ev.append({"f": "s", "v": v})


def deep(rng, n):
    v = p10.scalar(rng)
    for _ in range(n):
        v = L([v]) if rng.random() < 0.5 else M({"k": v})
        if rng.random() < 0.3:
            v = L([NULL, v, S("x")]) if rng.random() < 0.5 else M({"a": NULL, "b": v, "c": L([])})
    return v


def cases(rng, n):
    cs = []
    for _ in range(n):
        f = rng.choice(["json", "yaml", "xml"])
        ev = []
        flush = rng.choice([0, 0, 0.1, 0.5])
        for _ in range(rng.choice([1, 1, 2, 3]) if f == "yaml" else 1):
            v = deep(rng, rng.choice([1, 5, 20])) if rng.random() < 0.2 else p10.nested(rng, rng.choice([0, 1, 2, 3]))
            if f == "json" and v["t"] not in "LM":
                v = L([v])
            ev.append({"f": "bd"})
            calls(rng, finite(p14.clean(v)), ev, flush)
            ev.append({"f": "ed"})
        c = {"op": "events", "f": f, "ev": ev, "cut": rng.randrange(len(ev) + 1)}
        c["p"] = p10.params(rng) if f == "yaml" else {"pretty": rng.random() < 0.5, "indent": rng.choice([0, 1, 2, 4, 8, 100, 200, 600])}
        if rng.random() < 0.2:
            c["later"] = True
        cs.append(c)
    return cs


def finite(v):
    if v["t"] == "L":
        return L([finite(x) for x in v["l"]])
    if v["t"] == "M":
        return {"t": "M", "m": [[k, finite(x)] for k, x in v["m"]]}
    if v.get("null"):
        return D(b"")
    return NULL if v["t"] == "F" and "k" in v else v


def run():
    c = Check("P25", ["ops_events", "io"])
    c.vectors_from("exhaustive", "MCEvents", "MCEvents.cfg", env={"DEPTH": str(c.n(7, 9))})
    c.validate("random", "TraceEvents", cases(c.rng("random"), c.n(4000, 40000)))
    return c.finish()
