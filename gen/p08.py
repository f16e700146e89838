"""P08: reading JSON."""
from vf import Check
from vals import *

WS = ["", "", "", " ", "\n", "\t ", "/**/", "/* x */", "/***/", " /* ] \" */ "]


def num(rng):
    r = rng.random()
    if r < 0.4:
        s = str(rng.choice([0, 1, 7, 10, 2**31, 2**53, 2**53 + 1, 2**63 - 1, 2**63, 2**64 - 1, 2**64, 2**70, rng.getrandbits(60)]))
        return rng.choice(["", "", "-"]) + s
    s = rng.choice(["", "-"]) + rng.choice(["0", str(rng.randint(1, 9)), str(rng.getrandbits(rng.choice([10, 53, 60, 80])) + 1)])
    if rng.random() < 0.7:
        s += "." + "".join(rng.choice("0123456789") for _ in range(rng.choice([1, 1, 2, 5, 16, 25])))
    if rng.random() < 0.5:
        s += rng.choice("eE") + rng.choice(["", "+", "-"]) + str(rng.choice([0, 1, 2, 10, 22, 60, 200, 300]))
    return s


def string(rng):
    out = []
    for _ in range(rng.choice([0, 1, 2, 3, 6, 20])):
        r = rng.random()
        if r < 0.5:
            out.append(rng.choice(["a", "b", " ", "/", "'", "é", "€", "\U0001d11e", "\x7f", "[", "{", ":"]))
        elif r < 0.7:
            out.append("\\" + rng.choice('"\\/bfnrt'))
        elif r < 0.95:
            u = rng.choice([0x41, 0x80, 0x7ff, 0x800, 0x1, 0x1f, 0xffff, 0xd7ff, 0xe000, 0x20ac])
            h = "%04x" % u
            out.append("\\u" + (h.upper() if rng.random() < 0.5 else h))
        else:
            out.append("\\u%04x\\u%04x" % (rng.randint(0xd800, 0xdbff), rng.randint(0xdc00, 0xdfff)))
    if rng.random() < 0.01:
        out.append("x" * rng.choice([3400, 3495, 3500, 7100]))
    return '"' + "".join(out) + '"'


def text(rng, depth):
    w = lambda: rng.choice(WS)
    r = rng.random()
    if depth > 0 and r < 0.5:
        n = rng.randint(0, 4)
        if rng.random() < 0.5:
            return "[" + w() + ",".join(w() + text(rng, depth - 1) + w() for _ in range(n)) + "]"
        return "{" + w() + ",".join(w() + rng.choice(['"a"', '"b"', '""', string(rng)]) + w() + ":" + w() + text(rng, depth - 1) + w() for _ in range(n)) + "}"
    if r < 0.7:
        return num(rng)
    if r < 0.9:
        return string(rng)
    return rng.choice(["true", "false", "null"])


def mutate(rng, b):
    b = bytearray(b)
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        i = rng.randrange(len(b) + 1)
        r = rng.random()
        if r < 0.35 and i < len(b):
            del b[i]
        elif r < 0.7:
            b[i:i] = rng.choice([b"[", b"]", b"{", b"}", b",", b":", b'"', b"\\", b"0", b"1", b".", b"e", b"-", b"+", b" ", b"/", b"*", b"t", b"u", b"\x01", b"\n", b"\x80"])
        elif r < 0.85 and i < len(b):
            j = rng.randrange(len(b))
            b[i], b[j] = b[j], b[i]
        else:
            b = b[:i]
            if not b:
                b = bytearray(b" ")
    return bytes(b)


def cases(rng, n):
    cs = []
    for _ in range(n):
        t = rng.choice(WS) + rng.choice("[{")
        t = "[" + text(rng, rng.choice([1, 2, 3])) + "]" if t[-1] == "[" else '{"k":' + text(rng, rng.choice([0, 1, 2, 3])) + "}"
        b = (rng.choice(WS) + t).encode("utf-8", "surrogatepass")
        if rng.random() < 0.5:
            b = mutate(rng, b)
        if b"\\u0000BLOB" in b or (b"\x01" in b and b"/*" in b):
            continue
        cs.append({"op": "jread", "s": list(b), "via": rng.randrange(2)})
    for d in (10, 31, 32, 33, 63, 64, 65, 126, 127, 128, 129, 255, 256, 257, 300, 600):
        b = b"[" * d + b"]" * d
        cs.append({"op": "jdepth", "s": list(b)})
        cs.append({"op": "jdepth", "s": list(b[:-1])})
        cs.append({"op": "jdepth", "s": list(b[:-1] + b"}")})
        cs.append({"op": "jdepth", "s": list(b'{"a":' * d + b"1" + b"}" * d)})
        cs.append({"op": "jdepth", "s": list(b'{"a":[' * d + b"]}" * d)})
    return cs


def run():
    c = Check("P08", ["ops_json"])
    for p, q, t in (("struct", 7, 8), ("number", 5, 6), ("string", 4, 5), ("word", 6, 8), ("comment", 6, 7)):
        c.vectors_from("exhaustive-" + p, "MCJson", "MCJson.cfg", env={"PROFILE": p, "DEPTH": str(c.n(q, t))}, heap=c.n("6g", "16g"))
    c.validate("random", "TraceJson", cases(c.rng("random"), c.n(4000, 60000)))
    return c.finish()
