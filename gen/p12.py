"""P12: headers with payload, bundle headers."""
import itertools
from vf import Check
from vals import *
import p09

OUTS = ["str", "sb", "mem", "name", "file"]
INS = ["str", "ptr", "ref", "fname", "ffile", "fsb", "psb", "ps", "ex"]
FMTS = ["json", "yaml", "xml"]


def inp(rng, kinds=INS):
    k = rng.choice(kinds)
    q = [rng.choice([1, 2, 3, 7, 31, 32, 33, 100]) for _ in range(rng.choice([1, 2, 4]))] if k in ("psb", "ps", "ex") else []
    return {"k": k, "q": q, "b": rng.choice([1, 2, 3, 8, 32, 33, 64, 8192])}


def key(s):
    return {"t": "S", "s": B(s)}


def idx(n):
    return {"t": "U", "i": n}


PLACES = [[key("d")], [key("a")], [key("p"), key("d")], [key("a"), idx(0)], [key("a"), idx(2)], [key("a"), idx(1), key("x")], [key("x/y"), key("[z]")], [key("payload"), key("length")],
          [key("payload"), key("data")], [key("payload"), key("a"), key("b"), key("c")], [key("é")], [key("payload")]]
STR = ["", "a", "text", "two words", "é€", "q\"uote", "<&>", "a\nb", "-", "1", "null", "x" * 40]


def scalar(rng):
    r = rng.random()
    if r < 0.3:
        return NULL
    if r < 0.6:
        return S(rng.choice(STR))
    if r < 0.66:
        return Bo(rng.random() < 0.5)
    if r < 0.7:
        return D(bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 2, 40]))))
    if r < 0.72:
        return dict(D(b""), null=True)
    return N("I", rng.choice([0, 1, -1, 7, 1000, 2**31, -2**63])) if rng.random() < 0.7 else N("F", rng.choice([0.5, -2.25, 1e10]))


def nest(rng, d):
    if d == 0 or rng.random() < 0.4:
        return scalar(rng)
    n = rng.choice([0, 1, 2, 3])
    if rng.random() < 0.5:
        return L([nest(rng, d - 1) for _ in range(n)])
    return M({rng.choice(["a", "d", "p", "x", "data", "length", "payload", "é"]): nest(rng, d - 1) for _ in range(n)})


def top(rng):
    return M({rng.choice(["a", "d", "p", "x", "payload", "é", "z", "x/y"]): nest(rng, rng.choice([0, 1, 2, 3])) for _ in range(rng.choice([0, 1, 2, 4]))})


def body(rng):
    n = rng.choice([0, 1, 2, 3, 31, 32, 33, 64, 100, 500])
    if rng.random() < 0.004:
        n = rng.choice([4000, 8192, 8200, 9000, 20000])
    b = [rng.choice([0, 0, 10, 13, 32, 65, 255, rng.randrange(256)]) for _ in range(n)]
    p, k = [], 0
    while k < n and rng.random() < 0.6:
        m = rng.randrange(n - k + 1)
        p.append(b[k:k + m])
        k += m
    return p + [b[k:]] if n or rng.random() < 0.5 else []


def bscalar(rng):
    r = rng.random()
    if r < 0.35:
        return S(rng.choice(["a", "text", "two words", "a:b", "x.y", "é", "1a", "-x", "a\tb", ".", "/usr", "=", "12:30", "a,b"]))
    if r < 0.45:
        return S(rng.choice(["", "1", "a#b", "a|b", " a", "a ", "null", "a\nb", "true"]))
    if r < 0.5:
        return rng.choice([NULL, Bo(True), Bo(False)])
    return N("I", rng.choice([0, 1, -1, 7, 123456789, 2**63 - 1, -2**63])) if rng.random() < 0.6 else \
        N("U", 2**64 - 1) if rng.random() < 0.2 else p09.N("F", rng.choice([0.5, -2.25, 1e10, 0.1, 1e300, 5e-324, 3.0]))


def bmap(rng):
    d = {}
    for _ in range(rng.choice([0, 1, 2, 3, 6])):
        k = rng.choice(["a", "b", "key", "key.sub", "é", "k-1", "A", "x/y", "id", "_", "a b", "a:b", "payload.x"]) if rng.random() < 0.98 else "k" * rng.choice([50, 1000])
        d[k] = L([bscalar(rng) for _ in range(rng.choice([0, 1, 1, 2, 3]))]) if rng.random() < 0.4 else bscalar(rng)
    return M(d)


def record(rng, c):
    bundle = c["f"] == "bundle"
    r = {"v": bmap(rng) if bundle else top(rng)}
    if rng.random() < 0.9:
        r["p"] = body(rng)
    if rng.random() < 0.15:
        # a length of an earlier record
        n = rng.choice([NULL, S("9"), N("I", 0), N("I", 9), N("U", 9), N("U", 32), N("U", 1000), N("I", 2**31)])
        if bundle:
            r["v"]["m"] = sorted([kv for kv in r["v"]["m"] if kv[0] != B("payload.length")] + [[B("payload.length"), n]], key=lambda kv: kv[0])
        else:
            r["v"]["m"] = sorted([kv for kv in r["v"]["m"] if kv[0] != B("payload")] + [[B("payload"), M({"length": n, "x": NULL})]], key=lambda kv: kv[0])
    return r


def payloads(rng, n):
    cs = []
    for _ in range(n):
        c = {"op": "pl", "f": rng.choice(FMTS + ["bundle"]), "ov": rng.choice(OUTS), "iv": inp(rng)}
        c.update(record(rng, c))
        if c["f"] == "bundle":
            if rng.random() < 0.4:
                c["dp"], c["lp"] = [key("d")], [key("n.x")]
            elif rng.random() < 0.5:
                c["ov"] = rng.choice(["nstr", "nsb", "nmem"])
                c["iv"] = {"k": rng.choice(["nstr", "nptr", "nref", "nname", "nfile", "nsb"]), "q": [], "b": 1}
        elif rng.random() < 0.7:
            c["dp"], c["lp"] = rng.choice(PLACES), rng.choice(PLACES)
        r = rng.random() if c["ov"] not in ("nstr", "nsb", "nmem") else 1
        if r < 0.1:
            c["ign"] = True
        elif r < 0.2:
            c["n"] = rng.choice([0, 1, 2, 5, 32, 100, 1000, 2**31 - 1])
        r = rng.random()
        if r < 0.15:
            c["cut"] = rng.choice([0, 1, 10, 20, 31, 32, 33, 50, 64, 90, 96, 128])
        elif r < 0.35:
            c["cutz"] = rng.choice([0, 1, 2, 30, 31, 32, 63, 99])
        cs.append(c)
    return cs


def sequences(rng, n):
    cs = []
    for _ in range(n):
        c = {"op": "plseq", "f": rng.choice(FMTS + ["bundle"]), "iv": inp(rng, ["mem", "name", "file", "sb", "psb", "ps", "ex"])}
        c["rs"] = [record(rng, c) for _ in range(rng.choice([2, 3, 4]))]
        cs.append(c)
    return cs


def alignments(quick):
    """Every header length modulo the boundary, every truncation after the header."""
    cs = []
    k = 0
    for f in FMTS + ["bundle"]:
        for n in range(0, 34):
            for m in (0, 1, 31, 32, 33):
                k += 1
                c = {"op": "pl", "f": f, "v": M({"k": S("x" * (n + 1))}), "p": [[(7 * j) % 256 for j in range(m)]], "ov": OUTS[k % 5], "iv": {"k": INS[k % 9], "q": [1 + k % 5], "b": 1 + k % 40}}
                cs.append(c)
                if m and n % (8 if quick else 1) == 0:
                    for z in range(m + 1):
                        cs.append(dict(c, cutz=z))
        for cut in range(0, 200):
            cs.append({"op": "pl", "f": f, "v": M({"k": S("xyz")}), "p": [[1, 0, 2]], "ov": "str", "iv": {"k": INS[cut % 9], "q": [1 + cut % 7], "b": 1 + cut % 9}, "cut": cut})
        # lengths far beyond the input
        for big in (10**6, 2**31 - 1):
            for i in INS:
                cs.append({"op": "pl", "f": f, "v": M({"k": S("x")}), "p": [[1, 2, 3]], "ov": "str", "iv": {"k": i, "q": [5], "b": 7}, "n": big})
    return cs


def texts(depth):
    toks = ["a", "1", ":", " ", "#", "|", "\n", "\t"]
    k = 0
    for d in range(1, depth + 1):
        for t in itertools.product(toks, repeat=d):
            k += 1
            s = "".join(t)
            if d > 4 and ":" not in t:
                continue
            yield {"op": "bread", "s": B(s), "iv": {"k": ["mem", "ps", "ex", "sb"][k % 4], "q": [1 + k % 3], "b": 1 + k % 5}}


def lines(rng, n):
    cs = []
    for _ in range(n):
        ls = []
        for _ in range(rng.choice([1, 1, 2, 3, 5])):
            k = rng.choice(["a", "b", "key", "bundle.version", "é", "", "a b", "#c"])
            v = rng.choice(["1", "x", "1|2|", "1|", "a|b", "||", "a||b", "|", "", "-1.5e3", "x # c", "0x1F", "true", "~", "null", "y: z", "a | b|", "|a", "12#3", ".inf", "1|x|2.5|"])
            ls.append(rng.choice(["", " ", "\t"]) + k + rng.choice([":", ": ", " : ", "\t:\t", "", " "]) + v + rng.choice(["", " ", "\r", " # z", "\t"]))
            if rng.random() < 0.1:
                ls.append(rng.choice(["", " ", "#", "# c: 1", "erroneous"]))
            if rng.random() < 0.01:
                ls.append("# " + "c" * rng.choice([4090, 4095, 4096, 4097, 8192]))
        s = "\n".join(ls) + rng.choice(["\n", "", "\n\n"])
        cs.append({"op": "bread", "s": B(s), "iv": inp(rng, ["mem", "name", "file", "sb", "psb", "ps", "ex"])})
    return cs


def same(a, b):
    if isinstance(a, dict) and a.get("t") in ("I", "U") and isinstance(b, dict) and b.get("t") in ("I", "U"):
        return dict(a, t="I") == dict(b, t="I")
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def framed(e, r):
    return (r.get("o") == "ok" and r["z"] > 0 and r["z"] % 32 == 0 and r["rest"] == e["rest"] and
            r["h"]["o"] == "ok" and same(r["h"]["v"], e["h"]) and r["back"]["o"] == "ok" and same(r["back"]["v"], e["back"]))


def run():
    c = Check("P12", ["ops_payload", "io"])
    c.vectors_from("exhaustive-places", "MCPayload", "MCPayload.cfg", ok=framed)
    c.validate("alignments", "TracePayload", alignments(c.quick))
    c.validate("payloads", "TracePayload", payloads(c.rng("payloads"), c.n(5000, 60000)))
    c.validate("sequences", "TracePayload", sequences(c.rng("sequences"), c.n(600, 8000)))
    c.validate("bundle-texts", "TracePayload", list(texts(c.n(4, 6))))
    c.validate("bundle-lines", "TracePayload", lines(c.rng("lines"), c.n(3000, 30000)))
    c.validate("bundle-maps", "TracePayload", [{"op": "bh", "v": bmap(r)} for r in [c.rng("maps")] for _ in range(c.n(2000, 20000))])
    return c.finish()
