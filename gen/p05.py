"""P05: paths as addresses and as text."""
import heapgen
import p07
from vals import *


def text_cases(rng, n):
    out = []
    al = [97, 98, 47, 91, 93, 92, 49, 48, 32, 46, 195, 169, 126]
    for _ in range(n):
        if rng.random() < 0.6:
            p = []
            for _ in range(rng.randint(0, 6)):
                if rng.random() < 0.6:
                    p.append({"t": "S", "s": [rng.choice(al) for _ in range(rng.choice([0, 1, 2, 3, 8]))]})
                else:
                    p.append({"t": "U", "w": B(str(rng.choice([0, 1, 9, 10, 99, 4294967295, 2**31, rng.randrange(2**32)])))})
            out.append({"op": "pathfmt", "p": p})
        else:
            t = [rng.choice([47, 91, 93, 92, 49, 48, 97, 45, 43, 32]) for _ in range(rng.randint(0, 9))]
            if rng.random() < 0.3:
                t = B("/a[" + rng.choice(["0", "007", "4294967295", "4294967296", "99999999999", "-1", "+1", " 1", "1 ", "1a", ""]) + "]") + t[:2]
            out.append({"op": "pathparse", "s": t})
    return out


def run():
    c = heapgen.run("P05", "paths", heapgen.mix(haspath=10, getpath=12, getpathdef=8, setpath=20, atpath=12, atpathdef=10, erasepath=16), 2, 2, 3000, 60000,
                    qdepth=2, ops=["ops_heap", "ops_path", "ops_num"])
    c.vectors_from("text", "MCPaths", "MCPaths.cfg", env={"DEPTH": c.n("1", "2")})
    c.validate("text-random", "TracePaths", text_cases(c.rng("text"), c.n(4000, 40000)))
    c.validate("into", "TraceNum", [x for x in p07.into_cases(c.rng("into"), c.n(400, 3000)) if x["path"]])
    return c.finish()
