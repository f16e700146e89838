"""Random numbers and values with exact numbers."""
from fractions import Fraction
from vals import *

EDGE = [0, 1, 2, 3, 5, 7, 10, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**53 - 1, 2**53, 2**53 + 1, 2**62, 2**63 - 1,
        2**63, 2**63 + 1, 2**64 - 2, 2**64 - 1]


def integer(rng, lo, hi):
    r = rng.random()
    if r < 0.55:
        x = rng.choice(EDGE) * rng.choice([1, -1]) + rng.choice([0, 0, 1, -1])
    elif r < 0.8:
        x = rng.randint(-20, 20)
    else:
        x = rng.getrandbits(rng.randint(1, 64)) * rng.choice([1, -1])
    return x if lo <= x <= hi else rng.randint(0, 100)


def num(rng, special=True):
    r = rng.random()
    if r < 0.35:
        return N("I", integer(rng, -2**63, 2**63 - 1))
    if r < 0.65:
        return N("U", integer(rng, 0, 2**64 - 1))
    if special and r < 0.69:
        return rng.choice([N("F", float("inf")), N("F", float("-inf"))])
    if r < 0.85:
        return N("F", (integer(rng, -2**64 + 1, 2**64 - 1), rng.choice([0, 0, 0, -1, -2, -10, 1, 3])))
    return N("F", (rng.getrandbits(rng.choice([1, 5, 20, 53, 64])) * rng.choice([1, -1]), rng.choice([-1074, -300, -64, -30, -3, 0, 2, 40, 64, 900])))


def near(rng, v):
    """A number close to or equal to v, perhaps of another type."""
    if "k" in v:
        return dict(v)
    m = 0
    for x in reversed(v["m"]):
        m = m * 32768 + x
    m *= v["g"]
    f = Fraction(m) * Fraction(2) ** v["e"]
    if f.denominator == 1 and abs(f) < 2**64 and rng.random() < 0.8:
        n = int(f) + rng.choice([0, 0, 1, -1])
        t = rng.choice("IUF")
        if t == "I" and not -2**63 <= n < 2**63 or t == "U" and not 0 <= n < 2**64:
            t = "F"
        if t == "F" and abs(n).bit_length() > 64:
            return dict(v)
        return N(t, n)
    m2 = m + rng.choice([0, 1, -1])
    return N("F", (m2 if abs(m2).bit_length() <= 64 else m, v["e"]))


def bytestr(rng):
    return [rng.choice([0x61, 0x62, 0, 255, 128, 0x7f]) for _ in range(rng.choice([0, 1, 1, 2, 3, 4]))]


def blob(rng, b):
    r = rng.random()
    if not b and r < 0.3:
        return {"t": "D", "d": [], "null": True}
    if r < 0.5:
        return {"t": "D", "d": b}
    cut, left = [], len(b)
    while left or rng.random() < 0.3:
        k = rng.randint(0, left)
        cut.append(k)
        left -= k
    return {"t": "D", "d": b, "cut": cut}


def scalar(rng):
    r = rng.random()
    if r < 0.45:
        return num(rng)
    if r < 0.65:
        return {"t": "S", "s": bytestr(rng)}
    if r < 0.85:
        return blob(rng, bytestr(rng))
    return rng.choice([NULL, Bo(True), Bo(False)])


def nested(rng, depth):
    if depth == 0 or rng.random() < 0.3:
        return scalar(rng)
    n = rng.randint(0, 3)
    if rng.random() < 0.5:
        return L([nested(rng, depth - 1) for _ in range(n)])
    return M({rng.choice(["", "a", "b", "aa"]): nested(rng, depth - 1) for _ in range(n)})


def tweak(rng, v):
    """Equal value, or one that differs in one place."""
    t = v["t"]
    if t == "L" and v["l"]:
        l = list(v["l"])
        r = rng.random()
        if r < 0.15:
            l.pop()
        elif r < 0.3:
            l.append(NULL)
        elif r < 0.4 and len(l) > 1:
            l[0], l[-1] = l[-1], l[0]
        else:
            i = rng.randrange(len(l))
            l[i] = tweak(rng, l[i])
        return L(l)
    if t == "M" and v["m"]:
        m = [list(x) for x in v["m"]]
        r = rng.random()
        i = rng.randrange(len(m))
        if r < 0.15:
            del m[i]
        elif r < 0.3:
            m[i][0] = m[i][0] + [0x63]
        else:
            m[i][1] = tweak(rng, m[i][1])
        return {"t": "M", "m": sorted(m, key=lambda x: bytes(x[0]))}
    if t in "IUF":
        return near(rng, v)
    b = v.get("s", v.get("d"))
    if b is not None:
        r = rng.random()
        b = list(b)
        if r < 0.2 and b:
            b.pop()
        elif r < 0.4:
            b.append(rng.choice([0, 0x61]))
        elif r < 0.5 and b:
            b[-1] ^= 0x81
        return blob(rng, b) if t == "D" else {"t": "S", "s": b}
    return dict(v) if rng.random() < 0.5 else scalar(rng)


def vec_ok(e, r):
    """The fields named by the specification agree; comparison result 2 stands for either nonzero one."""
    if r.get("o") != "ok":
        return False
    if e.get("c") == 2:
        return r["c"] in (-1, 1) and r["eq"] is False
    if "c" in e and (r["eq"] != (r["c"] == 0) or r["lt"] != (r["c"] < 0) or r["gt"] != (r["c"] > 0)):
        return False
    return all(r.get(k) == v for k, v in e.items())
