"""P11: property lists."""
from vf import Check
from vals import *
import p09

PIECES = ["", " ", "  ", "\n", "\t", "\r", "a", "word", "<", ">", "&", "'", '"', "&amp;", "&#10;", "]]>", "<![CDATA[x]]>", "<!-- c -->", "</string>", "<true/>", "é", "€", "𝄞", "\u0085", " ", "%", "1", "true", "\n  ", "a\r\nb"]


def string(rng):
    return list("".join(rng.choice(PIECES) for _ in range(rng.choice([1, 1, 2, 3, 10, 200]))).encode())


def scalar(rng):
    if rng.random() < 0.5:
        return {"t": "S", "s": string(rng)}
    while True:
        v = p09.scalar(rng)
        if v["t"] != "S":
            return v


def nested(rng, depth):
    if depth == 0 or rng.random() < 0.25:
        return scalar(rng)
    n = rng.choice([0, 1, 1, 2, 3, 5])
    if rng.random() < 0.5:
        return L([nested(rng, depth - 1) for _ in range(n)])
    return M({bytes(string(rng)): nested(rng, depth - 1) for _ in range(n)})


def trips(rng, n):
    cs = []
    for _ in range(n):
        v = nested(rng, rng.choice([0, 1, 2, 3]))
        if rng.random() < 0.03:
            for _ in range(rng.choice([5, 30, 45])):
                v = L([v]) if rng.random() < 0.5 else M({"k": v})
        p = {"flow": rng.random() < 0.5}
        if rng.random() < 0.5:
            p["indent"] = rng.choice([0, 1, 2, 4, 8])
        cs.append({"op": "xrt", "v": v, "p": p})
    return cs


def tok(k, n):
    return {"k": k, "n": n}


def toks(rng, depth):
    r = rng.random()
    gap = lambda: rng.choice([[], [], [{"k": "t", "s": B("\n  ")}], [{"k": "m"}]])
    if depth == 0 or r < 0.5:
        n = rng.choice(["string", "string", "integer", "integer", "real", "null", "true", "false"])
        if n in ("null", "true", "false"):
            return rng.choice([[tok("e", n)], [tok("o", n), tok("c", n)]])
        if n == "string":
            t = [{"k": "t", "s": B(rng.choice(PIECES[:-1]).replace("\r", "x"))} for _ in range(rng.choice([0, 1, 1, 2]))]
            t = [x for x in t if x["s"]]
        elif n == "integer":
            t = [{"k": "t", "s": B(rng.choice(["", "", " ", "\n"]) + str(rng.choice([0, 1, -1, 255, 2**63 - 1, -2**63, 2**63, 2**64 - 1, rng.getrandbits(40)])) + rng.choice(["", "", " "]))}]
        else:
            t = [{"k": "t", "s": B(rng.choice(["0.5", "1e10", "-2.25", "3", "0.1", "1e-7", "123456789.123456789", ".5"]))}]
        if t and rng.random() < 0.15:
            t.insert(rng.randrange(len(t) + 1), {"k": "m"})
        return [tok("o", n)] + t + [tok("c", n)]
    n = rng.choice([0, 1, 2, 3])
    out = [tok("o", "array" if r < 0.75 else "dict")]
    for _ in range(n):
        out += gap()
        if r >= 0.75:
            out += rng.choice([[tok("o", "key"), {"k": "t", "s": B(rng.choice("abc "))}, tok("c", "key")], [tok("e", "key")], [tok("o", "key"), tok("c", "key")]]) + gap()
        out += toks(rng, depth - 1)
    out += gap()
    return out + [tok("c", out[0]["n"])]


def texts(rng, n):
    cs = []
    for _ in range(n):
        k = [tok("o", "plist")] + toks(rng, rng.choice([0, 1, 2, 3])) + [tok("c", "plist")]
        r = rng.random()
        if r < 0.2:
            k = k[:rng.randrange(len(k))]
        elif r < 0.35:
            del k[rng.randrange(len(k))]
        elif r < 0.5:
            j = rng.randrange(len(k))
            k[j] = tok(rng.choice("oce"), rng.choice(["dict", "array", "string", "key", "integer", "real", "true", "plist"]))
        if k:
            cs.append({"op": "xtok", "k": k})
    return cs


def garbage(rng, n):
    base = b'<?xml version="1.0"?><plist><dict><key>a</key><array><integer>1</integer><string>x&amp;y</string><data>AAEC</data><real>1.5</real></array></dict></plist>'
    cs = []
    for _ in range(n):
        b = bytearray(base)
        for _ in range(rng.choice([1, 1, 2, 5])):
            j = rng.randrange(len(b) + 1)
            r = rng.random()
            if r < 0.3:
                del b[j:j + rng.choice([1, 1, 4, 10])]
            elif r < 0.7:
                b[j:j] = rng.choice([b"<", b">", b"&", b"/", b"<!--", b"<![CDATA[", b"]]>", b"<plist>", b"</plist>", b"<dict>", b"<x>", b"<true/>", b"\x00", b"\xff", b"&#0;", b"<?p?>", b'<!DOCTYPE a [<!ENTITY b "c">]>'])
            else:
                b = b[:j] or bytearray(b"<")
        cs.append({"op": "xany", "s": list(b)})
    return cs


def run():
    c = Check("P11", ["ops_xml"])
    c.vectors_from("exhaustive-markup", "MCPlist", "MCPlist.cfg", env={"DEPTH": str(c.n(5, 6))}, ok=same)
    c.vectors_from("exhaustive-strings", "MCYaml", "MCYaml.cfg", env={"PROFILE": "xrt", "DEPTH": str(c.n(3, 3))})
    c.validate("round-trip", "TraceYaml", trips(c.rng("round-trip"), c.n(3000, 40000)))
    c.validate("markup", "TracePlist", texts(c.rng("markup"), c.n(4000, 40000)))
    c.validate("garbage", "TraceYaml", garbage(c.rng("garbage"), c.n(2000, 20000)))
    return c.finish()


def same(e, r):
    return r.get("o") == e["o"] and (e["o"] != "ok" or norm(r["v"]) == norm(e["v"]))


def norm(v):
    """signedness of integers aside"""
    if v["t"] == "U":
        return dict(v, t="I")
    if v["t"] == "L":
        return dict(v, l=[norm(x) for x in v["l"]])
    if v["t"] == "M":
        return dict(v, m=[[k, norm(x)] for k, x in v["m"]])
    return v
