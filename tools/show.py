#!/usr/bin/env python3
"""show.py REPLAY [--min]: print a recorded heap session compactly; --min removes operations not needed for the rejection."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf


def pv(v):
    t = v["t"]
    if t == "N": return "null"
    if t == "B": return str(v["b"]).lower()
    if t in "IU": return t.lower() + str(v.get("i", v.get("w")))
    if t == "F": return "f" + str(v.get("q", 0) / 1024 if "q" in v else v["x"])
    if t == "S": return repr(bytes(v["s"]).decode("latin1"))
    if t == "D": return "blob%r" % bytes(v["d"])
    if t == "R": return "@%d" % v["n"]
    if t == "L": return "[" + ", ".join(map(pv, v["l"])) + "]"
    if t == "M": return "{" + ", ".join(repr(bytes(k).decode("latin1")) + ": " + pv(x) for k, x in v["m"]) + "}"


def pe(e): return repr(bytes(e["s"]).decode("latin1")) if "s" in e else str(e["i"])
def ph(h): return "v%d" % h["v"] if "v" in h else "r%d" % h["r"]
def ps(s):
    if s["k"] == "lit": return pv(s["v"])
    return {"h": "%s", "copy": "copy(%s)", "get": "%s.get"}[s["k"]] % ph(s["h"]) + ("(" + pe(s["e"]) + ")" if s["k"] == "get" else "")


def po(o):
    r = o["f"]
    if "to" in o: r = "r%d := " % o["to"] + r
    a = []
    for k, f in (("h", ph), ("e", pe), ("p", lambda p: "/".join(map(pe, p))), ("src", ps), ("h2", ph), ("kind", str), ("by", str), ("prune", str)):
        if k in o: a.append(f(o[k]))
    return r + "(" + ", ".join(a) + ") via%d" % o.get("via", 0)


def main():
    r = json.load(open(sys.argv[1]))
    case, mod = r["case"], r["module"]
    cfg = "TraceHeap.cfg" if mod == "TraceHeap" else "Trace.cfg"
    work = os.path.join(vf.VERIF, ".work", "show-%d" % os.getpid())
    os.makedirs(work, exist_ok=True)
    drv = vf.build(r["ops"])

    def bad(cs):
        res = vf.drive(drv, cs, work)
        return res, vf.judge(mod, [{"c": c, "r": x} for c, x in zip(cs, res)], work, cfg=cfg)[1]
    if "--min" in sys.argv:
        while True:
            cs = []
            ops = case["ops"]
            for k in range(len(ops)):
                cs.append(dict(case, ops=ops[:k]))
            for k in range(len(ops)):
                cs.append(dict(case, ops=ops[:k] + ops[k + 1:]))
            cs = [c for c in cs if c["ops"]]
            if not cs: break
            _, b = bad(cs)
            if not b: break
            case = cs[min(b, key=lambda k: len(cs[k]["ops"]))]
    res, b = bad([case])
    for o, e in zip(case["ops"], res[0].get("ev", [{}] * len(case["ops"]))):
        print(po(o), "->", e.get("o"), e.get("k", ""), pv(e["v"]) if "v" in e else "", ("   | " + " ; ".join(map(pv, e["p"]))) if "p" in e else "")
    print(res[0]["o"], "SPEC:", b.get(0, "accepted")[:1500])


main()
