"""Random sessions of operations on variables and references."""
from vals import *

KEYS = ["a", "b", "c", ""]
SCAL = [NULL, Bo(True), I(0), I(-3), U(7), F(1.5), S(""), S("xy"), D(b"\x00\x01")]
MORE = [S("a\0b"), S("a text of more than fifteen bytes"), I(32767), U(65535), F(-0.25), D(b"x" * 40)]


def key(rng):
    return {"t": "S", "s": B(rng.choice(KEYS) if rng.random() < 0.98 else rng.choice(["a\0b", "a/b", "[0]", "long key of more than fifteen bytes", "é"]))}


def idx(rng):
    return {"t": "U", "i": rng.choice([0, 0, 1, 1, 2, 3, 5]) if rng.random() < 0.98 else rng.choice([8, 9, 16, 17, 33])}


def elem(rng):
    return key(rng) if rng.random() < 0.6 else idx(rng)


class Gen:
    def __init__(self, rng, nv=3, nr=3, weights=None, scal=SCAL):
        self.rng, self.nv, self.nr, self.scal = rng, nv, nr, scal
        self.w = weights

    def h(self, pv=0.5):
        r = self.rng
        return {"v": r.randint(1, self.nv)} if r.random() < pv or not self.nr else {"r": r.randint(1, self.nr)}

    def lit(self, depth=2):
        return {"k": "lit", "v": value(self.rng, depth, KEYS, self.scal if self.rng.random() < 0.9 else MORE, 4 if self.rng.random() < 0.98 else 20, 0.6)}

    def src(self):
        r = self.rng.random()
        if r < 0.4:
            return self.lit(self.rng.choice([0, 0, 1, 2]))
        if r < 0.75:
            return {"k": "h", "h": self.h()}
        if r < 0.88:
            return {"k": "copy", "h": self.h()}
        return {"k": "get", "h": self.h(), "e": elem(self.rng)}

    def path(self):
        return [elem(self.rng) for _ in range(self.rng.choice([0, 1, 1, 2, 2, 3]))]

    def op(self, f=None):
        rng = self.rng
        f = f or rng.choices(list(self.w), list(self.w.values()))[0]
        o = {"f": f, "via": rng.randrange(3)}
        to = rng.randint(1, self.nr) if self.nr else 1
        if f == "newvar":
            o["h"] = {"v": rng.randint(1, self.nv)}
        elif f != "drop":
            o["h"] = self.h()
        if f in ("at", "atdef", "ref", "rebind", "drop", "atpath", "atpathdef"):
            o["to"] = to
        if f in ("assign", "newvar", "set", "append", "atdef", "getdef", "index", "merge", "resdef", "setpath", "atpathdef",
                 "getpathdef"):
            o["src"] = self.src()
        if f == "set" and "v" not in o["h"]:
            o["via"] = 0
        if f in ("set", "at", "atdef", "get", "getdef", "contains", "erase"):
            o["e"] = elem(rng)
        if f == "use":
            o["kind"] = rng.choice("LM")
        if f == "equal":
            o["h2"] = self.h()
        if f == "read" and rng.random() < 0.5:
            o["pre"] = rng.randrange(40)
        if f in ("assign", "set") and o["via"] and rng.random() < 0.6:
            o["nat"] = rng.choice([0, 1, 2, 3, 4])
        if f == "incr":
            o["by"], o["via"] = rng.choice([1, -1]), rng.randrange(6)
        if f.endswith("path") or f.endswith("pathdef"):
            o["p"] = self.path()
        if f == "setpath":
            o["via"] = 0
        if f == "erasepath":
            o["prune"] = rng.random() < 0.5
        return o

    def session(self, n, warm=2):
        rng = self.rng
        ops = []
        for j in range(1, self.nv + 1):
            if rng.random() < 0.85:
                ops.append(dict({"f": "assign", "via": rng.randrange(3), "h": {"v": j}, "src": self.lit(3)}, **({"nat": rng.randrange(4)} if rng.random() < 0.5 else {})))
        ops += [self.op() for _ in range(n)]
        return {"op": "heap", "nv": self.nv, "nr": self.nr, "ops": ops}


ALL = dict(assign=10, newvar=3, set=6, append=4, use=3, at=8, atdef=3, ref=3, rebind=3, drop=1, read=6, exists=4, get=3,
           getdef=2, contains=2, size=2, empty=2, index=1, equal=2, clear=3, erase=6, merge=2, incr=2, resdef=2, haspath=1, getpath=2,
           getpathdef=1, setpath=3, atpath=3, atpathdef=2, erasepath=2)


def mix(**kw):
    w = dict(ALL)
    w.update(kw)
    return w


def vec_ok(e, r):
    """Compare the last operation of a session with the specification's expectation."""
    if r.get("o") != "ok" or not r["ev"]:
        return False
    l = r["ev"][-1]
    if e["o"] in ("ok", "either") and l["o"] == "ok" and l["p"] == e["p"] and l.get("v", e["v"]) == e["v"]:
        return True
    if e["o"] in ("err", "either") and l["o"] == "err" and l["p"] == e["p"]:
        return True
    if e["mb"] and l["p"] == e["q"]:
        return (l["o"] == "err" and l["k"] == "badref") or (e["f"] == "exists" and l["o"] == "ok" and l["v"] == Bo(False))
    return False


OVER = [NULL, Bo(False), Bo(True), I(0), I(-3), U(0), U(7), F(0.0), F(1.5), S(""), S("xy"), D(b"\x00\x01"), L([]), L([NULL]), L([I(1), NULL, S("x")]),
        M({}), M({"a": NULL}), M({"": I(2), "b": L([NULL, I(1)])}), M({"a": M({"b": NULL}), "c": Bo(False)})]
DEFAULTS = [NULL, Bo(False), I(0), U(0), F(0.0), S(""), L([]), M({})]


def cross(rng, share=1.0):
    """every operation on every kind of value, with elements that are there, null or missing"""
    out = []
    lit = lambda v: {"k": "lit", "v": v}
    put = lambda n, v: {"f": "assign", "via": 0, "h": {"v": n}, "src": lit(v)}
    es = [{"t": "S", "s": B(k)} for k in ("a", "", "z")] + [{"t": "U", "i": i} for i in (0, 1, 4)]
    for old in OVER:
        inner = [[put(1, old)], [put(1, L([old, old])), {"f": "at", "h": {"v": 1}, "to": 1, "e": es[4]}], [put(1, M({"k": old})), {"f": "at", "h": {"v": 1}, "to": 1, "e": {"t": "S", "s": B("k")}}]]
        for n, pre in enumerate(inner):
            h = {"r": 1} if n else {"v": 1}
            ops = []
            for new in OVER:
                for via in (0, 1, 2):
                    for nat in ((0, 1, 2, 3, 4) if new in DEFAULTS else (0, 1, 2, 3)) if via else (0,):
                        ops.append({"f": "assign", "via": via, "h": h, "src": lit(new), "nat": nat})
            for new in [NULL, I(3), L([I(1)]), M({"a": I(1)})]:
                ops += [{"f": f, "h": h, "src": lit(new), "via": 0} for f in ("append", "index", "merge")]
                ops.append({"f": "resdef", "h": h, "src": lit(new)})
                for e in es:
                    ops += [{"f": "atdef", "h": h, "to": 2, "e": e, "src": lit(new)}, {"f": "getdef", "h": h, "e": e, "src": lit(new)}]
                    ops += [{"f": "set", "h": h, "e": e, "src": lit(new), "via": v} for v in ((0, 1, 2) if not n else (0,))]
                    for e2 in es:
                        ops += [{"f": f, "h": h, "p": [e, e2], "src": lit(new), "to": 2, "via": 0} for f in ("setpath", "getpathdef", "atpathdef")]
            for e in es:
                ops += [{"f": f, "h": h, "e": e, "via": v} for f in ("get", "contains", "erase") for v in (0, 1)]
                ops.append({"f": "at", "h": h, "e": e, "to": 2})
                for p in ([e], [e, es[0]], [e, es[3]]):
                    ops += [{"f": f, "h": h, "p": p, "via": 0} for f in ("haspath", "getpath")]
                    ops += [{"f": "erasepath", "h": h, "p": p, "prune": x} for x in (False, True)]
            ops += [{"f": f, "h": h, "via": v} for f in ("size", "empty", "clear", "read", "exists") for v in (0, 1)]
            ops += [{"f": "use", "h": h, "kind": k, "via": 0} for k in "LM"] + [{"f": "incr", "h": h, "by": b, "via": v} for b in (1, -1) for v in range(6)]
            for o in ops:
                if o["f"] == "incr" and o["by"] < 0 and old == U(0):
                    continue  # wraps: left to the numbers of P07
                if share == 1 or o.get("nat") == 4 and o["via"] == 1 or rng.random() < (share / 4 if o["f"] == "assign" or "p" in o else share):
                    out.append({"op": "heap", "nv": 1, "nr": 2, "ops": pre + [o]})
    return out


def gone(rng, share=1.0):
    """every operation through a reference whose target is gone or not there yet"""
    out = []
    lit = lambda v: {"k": "lit", "v": v}
    put = lambda n, v: {"f": "assign", "via": 0, "h": {"v": n}, "src": lit(v)}
    ka, i1 = {"t": "S", "s": B("a")}, {"t": "U", "i": 1}
    at = lambda e: {"f": "at", "h": {"v": 1}, "to": 1, "e": e}
    es = [ka, {"t": "S", "s": B("z")}, i1, {"t": "U", "i": 4}]
    for old in [NULL, Bo(True), I(1), U(7), F(1.5), S("xy"), D(b"\x00\x01"), L([I(1), I(2)]), M({"a": I(1)})]:
        inner = [[put(1, old), {"f": "ref", "h": {"v": 1}, "to": 1, "via": 0}, {"f": "newvar", "h": {"v": 1}, "src": lit(I(5))}],
                 [put(1, M({"a": old})), at(ka), {"f": "erase", "h": {"v": 1}, "e": ka}],
                 [put(1, M({"a": old})), at(ka), {"f": "clear", "h": {"v": 1}}],
                 [put(1, L([I(0), old])), at(i1), {"f": "erase", "h": {"v": 1}, "e": i1}],
                 [put(1, L([I(0), old])), at(i1), put(1, I(5))],
                 [put(1, old), {"f": "atpath", "h": {"v": 1}, "to": 1, "p": [{"t": "S", "s": B("z")}, ka]}],
                 [put(1, old), {"f": "atpath", "h": {"v": 1}, "to": 1, "p": [{"t": "U", "i": 3}]}]]
        h = {"r": 1}
        ops = [{"f": "read", "h": h, "via": 0, "pre": n} for n in range(40)]
        ops += [{"f": f, "h": h, "via": v} for f in ("size", "empty", "clear", "read", "exists") for v in (0, 1)]
        ops += [{"f": "use", "h": h, "kind": k, "via": v} for k in "LM" for v in (0, 1)]
        ops += [{"f": "incr", "h": h, "by": b, "via": v} for b in (1, -1) for v in range(6)]
        ops += [{"f": "equal", "h": a, "h2": b, "via": v} for a, b in ((h, {"v": 1}), ({"v": 1}, h), (h, h)) for v in (0, 1, 2)]
        for e in es:
            ops += [{"f": f, "h": h, "e": e, "via": v} for f in ("get", "contains", "erase") for v in (0, 1)]
            ops += [{"f": "at", "h": h, "e": e, "to": t, "via": v} for t in (1, 2) for v in (0, 1)]
            ops += [{"f": f, "h": h, "p": [e], "via": 0} for f in ("haspath", "getpath")]
            ops += [{"f": "erasepath", "h": h, "p": [e], "prune": x} for x in (False, True)] + [{"f": "atpath", "h": h, "p": [e], "to": 2}]
            for new in [I(3), L([I(1)])]:
                ops += [{"f": f, "h": h, "e": e, "to": 2, "src": lit(new), "via": 0} for f in ("atdef", "getdef", "set")]
                ops += [{"f": f, "h": h, "p": [e], "src": lit(new), "to": 2, "via": 0} for f in ("setpath", "getpathdef", "atpathdef")]
        for new in [NULL, I(3), L([I(1)]), M({"a": I(1)})]:
            ops += [{"f": f, "h": h, "src": lit(new), "via": v} for f in ("append", "index", "merge", "resdef", "assign") for v in (0, 1, 2)]
        for k in ("h", "copy"):
            ops += [{"f": f, "h": {"v": 2}, "src": {"k": k, "h": h}, "via": 0} for f in ("assign", "append", "merge", "newvar", "index", "resdef")]
        ops += [{"f": f, "h": h, "to": t, "via": v} for f in ("ref", "rebind") for t in (1, 2) for v in (0, 1)]
        for pre in inner:
            out += [{"op": "heap", "nv": 2, "nr": 2, "ops": pre + [o]} for o in ops if share == 1 or rng.random() < share]
    return out


def run(pid, profile, weights, nv, nr, quick, thorough, extra=None, qdepth=3, ops=("ops_heap",), share=0.5):
    from vf import Check
    c = Check(pid, list(ops))
    for p in profile.split():
        c.vectors_from("exhaustive-" + p, "MCHeap", "MCHeap.cfg", env={"PROFILE": p, "DEPTH": str(c.n(qdepth, qdepth + 1))}, ok=vec_ok, heap=c.n("6g", "16g"))
    rng = c.rng("random")
    g = Gen(rng, nv, nr, weights)
    if extra:
        extra(c)
    c.validate("cross", "TraceHeap", cross(c.rng("cross"), c.n(share, 1.0)), cfg="TraceHeap.cfg")
    if pid == "P03":
        c.validate("gone", "TraceHeap", gone(c.rng("gone"), c.n(0.5, 1.0)), cfg="TraceHeap.cfg")
    c.validate("random", "TraceHeap", [g.session(rng.randint(3, 14)) for _ in range(c.n(quick, thorough))], cfg="TraceHeap.cfg")
    return c
