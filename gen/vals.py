"""Seeded generators of values in the exchange encoding."""
import struct


def S(s):
    if isinstance(s, str):
        s = s.encode("utf-8")
    return {"t": "S", "s": list(s)}


def B(s):
    return list(s.encode("utf-8") if isinstance(s, str) else s)


NULL = {"t": "N"}


def I(n):
    return {"t": "I", "i": n} if abs(n) <= 10**9 else {"t": "I", "w": str(n)}


def U(n):
    return {"t": "U", "i": n} if n <= 10**9 else {"t": "U", "w": str(n)}


def Bo(b):
    return {"t": "B", "b": b}


def F(x):
    if x == x and abs(x) <= 900000 and (x * 1024) == int(x * 1024) and not (x == 0 and str(x)[0] == "-"):
        return {"t": "F", "q": int(x * 1024)}
    if x != x:
        return {"t": "F", "x": "7ff8000000000000"}
    return {"t": "F", "x": "%016x" % struct.unpack(">Q", struct.pack(">d", x))[0]}


def D(b):
    return {"t": "D", "d": list(b)}


def L(xs):
    return {"t": "L", "l": list(xs)}


def M(d):
    items = []
    for k, v in (d.items() if isinstance(d, dict) else d):
        items.append([list(k.encode("utf-8")) if isinstance(k, str) else list(k), v])
    seen = {}
    for k, v in items:
        seen[bytes(k)] = v
    return {"t": "M", "m": [[list(k), seen[k]] for k in sorted(seen)]}


def from_py(x):
    if x is None:
        return NULL
    if isinstance(x, bool):
        return Bo(x)
    if isinstance(x, int):
        return I(x)
    if isinstance(x, float):
        return F(x)
    if isinstance(x, str):
        return S(x)
    if isinstance(x, bytes):
        return D(x)
    if isinstance(x, (list, tuple)):
        return L([from_py(v) for v in x])
    return M({k: from_py(v) for k, v in x.items()})


def value(rng, depth, keys, scalars, maxlen=3, pc=0.6):
    """Random nested value: keys = list of key strings, scalars = list of encoded scalars."""
    if depth > 0 and rng.random() < pc:
        n = rng.choice([0, 1, 1, 2, 2, 3, maxlen])
        n = min(n, maxlen)
        if rng.random() < 0.5:
            return L([value(rng, depth - 1, keys, scalars, maxlen, pc) for _ in range(n)])
        return M({rng.choice(keys): value(rng, depth - 1, keys, scalars, maxlen, pc) for _ in range(n)})
    return rng.choice(scalars)


def subvalues(v, path=()):
    """All (path, value) pairs, path elements are key bytes or int indices."""
    yield path, v
    if v["t"] == "L":
        for i, x in enumerate(v["l"]):
            yield from subvalues(x, path + (i,))
    elif v["t"] == "M":
        for k, x in v["m"]:
            yield from subvalues(x, path + (bytes(k),))


def N(t, x):
    """Number as an exact dyadic; x is an int, a float, or a pair (mantissa, exponent)."""
    if isinstance(x, float):
        if x != x:
            return {"t": "F", "k": "nan"}
        if x in (float("inf"), float("-inf")):
            return {"t": "F", "k": "inf", "g": 1 if x > 0 else -1}
        n, d = x.as_integer_ratio()
        x = (n, -(d.bit_length() - 1))
    m, e = x if isinstance(x, tuple) else (x, 0)
    if m == 0:
        return {"t": t, "g": 0, "m": [], "e": 0}
    g, m = (1 if m > 0 else -1), abs(m)
    while m % 2 == 0:
        m, e = m // 2, e + 1
    limbs = []
    while m:
        limbs.append(m % 32768)
        m //= 32768
    return {"t": t, "g": g, "m": limbs, "e": e}
