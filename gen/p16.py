"""P16: JSON Pointer and Patch."""
from vf import Check
from vals import *

KEYS = ["a", "b", "ab", "", "0", "1", "-", "a/b", "m~n", "~1", "01", "10", " ", "c%d", "\"", "\\"]
SCAL = [NULL, Bo(True), Bo(False), I(0), I(1), U(1), I(-5), F(1.0), F(1.5), S(""), S("a"), S("1"), D(b"xy")]


def ptr_text(path):
    out = b""
    for e in path:
        t = str(e).encode() if isinstance(e, int) else e
        out += b"/" + t.replace(b"~", b"~0").replace(b"/", b"~1")
    return list(out)


def rand_path(rng, doc):
    """A pointer into, next to, or beyond the document."""
    path, v = rng.choice(list(subvalues(doc)))
    r = rng.random()
    if r < 0.35:
        return ptr_text(path)
    if v["t"] == "L":
        n = len(v["l"])
        e = rng.choice([0, n, n + 1, max(0, n - 1), b"-", b"-", b"a", b"-1", b"01", b"+1", b"1e0", b" 0", b"4294967296",
                        b"18446744073709551616", b"00", b"", n // 2])
        path = path + (e,)
    elif v["t"] == "M":
        e = rng.choice([k.encode() for k in KEYS])
        path = path + (e,)
    elif r < 0.6:
        path = path + (rng.choice([b"a", b"0", b"-"]),)
    if rng.random() < 0.08:
        path = path + (rng.choice([b"a", b"0", b"-", b""]),)
    t = ptr_text(path)
    if rng.random() < 0.03:
        t = B(rng.choice(["a", "a/b", "0", "#/a", " /a"]))
    return t


def rand_op(rng, doc, deep=2):
    fn = rng.choice(["add"] * 4 + ["remove"] * 3 + ["replace"] * 2 + ["move"] * 3 + ["copy"] * 3 + ["test"])
    o = {"op": S(fn), "path": {"t": "S", "s": rand_path(rng, doc)}}
    if fn in ("add", "replace"):
        o["value"] = value(rng, deep, KEYS, SCAL)
    if fn == "test":
        p, v = rng.choice(list(subvalues(doc)))
        if rng.random() < 0.85:
            o["path"] = {"t": "S", "s": ptr_text(p)}
        o["value"] = v if rng.random() < 0.8 else value(rng, 1, KEYS, SCAL)
    if fn in ("move", "copy"):
        o["from"] = {"t": "S", "s": rand_path(rng, doc) if rng.random() < 0.2 else ptr_text(rng.choice(list(subvalues(doc)))[0])}
    if rng.random() < 0.02:
        o.pop(rng.choice(list(o)))
    if rng.random() < 0.01:
        o["op"] = S(rng.choice(["Add", "", "nop"]))
    return M(o)


def cases(rng, n):
    out = []
    while len(out) < n:
        doc = value(rng, 3, KEYS, SCAL, 4, 0.9)
        if rng.random() < 0.45:
            fn = rng.choice(["get", "add", "remove", "replace", "move", "copy"])
            c = {"op": "ptr", "fn": fn, "doc": doc, "p": rand_path(rng, doc)}
            if fn in ("add", "replace"):
                c["val"] = value(rng, 2, KEYS, SCAL)
            if fn in ("move", "copy"):
                c["from"] = rand_path(rng, doc) if rng.random() < 0.3 else ptr_text(rng.choice(list(subvalues(doc)))[0])
            out.append(c)
        else:
            k = rng.choice([1, 2, 2, 3, 3, 4, 5, 6])
            ops = [rand_op(rng, doc) for _ in range(k)]
            if rng.random() < 0.4:    # force a failure at the end so that everything before is rolled back
                ops.append(M({"op": S("test"), "path": S(""), "value": S("never")}))
            p = L(ops) if rng.random() < 0.95 else ops[0]
            out.append({"op": "patch", "doc": doc, "patch": p})
    return out


def run():
    c = Check("P16", ["ops_ext"])
    c.vectors_from("exhaustive", "MCPatch", "MCPatch.cfg", env={"DEPTH": str(c.n(2, 3))})
    c.validate("random", "TracePatch", cases(c.rng("random"), c.n(6000, 60000)))
    return c.finish(["pointers with an invalid '~' escape are outside the domain"])
