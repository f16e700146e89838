"""P23: base64 and blobs."""
import base64
from vf import Check
from vals import *


def pieces(rng, data, most=4):
    out = []
    for _ in range(rng.randrange(most)):
        k = rng.randrange(len(data) + 1)
        out.append(list(data[:k]))
        data = data[k:]
    out.append(list(data))
    if rng.random() < 0.2:
        out.insert(rng.randrange(len(out) + 1), [])
    return out


def data(rng):
    return bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 2, 3, 4, 5, 8, 17, 53, 54, 55, 60, 107, 108, 109, 300])))


def history(rng, n):
    a = []
    for _ in range(n):
        h = rng.randrange(3)
        r = rng.random()
        if r < 0.35:
            how = rng.choice(["copy", "own", "own", "free", "ref"])
            p = pieces(rng, bytes(rng.choice([0, 97, 98, 255]) for _ in range(rng.choice([0, 1, 2, 3, 6]))))
            if how == "free":
                p = [x for x in p if x] or [[7]]
            if how != "free" and rng.random() < 0.05:
                p = []
            a.append({"k": "new", "h": h, "how": how, "p": p})
        elif r < 0.75:
            a.append({"k": rng.choice(["asg", "asg", "dup", "var", "vdup"]), "h": h, "g": rng.randrange(3)})
        elif r < 0.9:
            a.append({"k": "drop", "h": h})
        else:
            a.append({"k": "poke", "h": h, "at": rng.randrange(3), "v": rng.randrange(256)})
    return {"op": "blob", "a": a}


def cases(rng, n):
    cs = []
    for k in range(n):
        r = k % 4
        if r == 0:
            cs.append({"op": "enc", "p": pieces(rng, data(rng)), "w": rng.choice([0, 0, 1, 3, 4, 5, 8, 11, 60, 64, 72, 72, 76, 100])})
        elif r == 1:
            s = bytearray(base64.b64encode(data(rng)))
            for _ in range(rng.choice([0, 1, 2, 5])):
                k = rng.randrange(len(s) + 1)
                s[k:k] = rng.choice([b"\n", b"\r\n"])
            cs.append({"op": "dec", "s": list(s), "bytes": True})
        elif r == 2 and k % 8 == 2:
            s = bytearray(base64.b64encode(data(rng)))
            for _ in range(rng.choice([1, 2, 5])):
                if s:
                    s[rng.randrange(len(s))] = rng.randrange(256)
                else:
                    s = bytearray(b"{")
            cs.append({"op": "dec", "s": list(s), "bytes": False})
        else:
            cs.append(history(rng, rng.choice([3, 6, 12])))
    cs += [{"op": "dec", "s": [x] * 5, "bytes": False} for x in range(256) if not chr(x).isalnum()]
    return cs


def enc_ok(e, r):
    if r.get("o") != "ok":
        return False
    if "flat" in e:
        return [x for x in r["s"] if x not in (10, 13)] == e["flat"] and r["back"] == e["back"]
    return r["steps"] == e["steps"]


def run():
    c = Check("P23", ["ops_blob"])
    c.vectors_from("exhaustive-base64", "MCBlobs", "MCBlobs.cfg", env={"PROFILE": "enc", "DEPTH": str(c.n(4, 5))}, ok=enc_ok)
    c.vectors_from("exhaustive-blob", "MCBlobs", "MCBlobs.cfg", env={"PROFILE": "blob", "DEPTH": "3"}, ok=enc_ok)
    c.validate("random", "TraceBlobs", cases(c.rng("random"), c.n(6000, 60000)))
    return c.finish()
