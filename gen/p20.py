"""P20: URI references, identifiers and the registry of schemas."""
from vf import Check
from vals import *

SEGS = ["a", "b", ".", "..", "", "c.d", "..e", "f.", "g;x=1", "%2F", "h:i", "j@k", "...", "~"]


def path(rng):
    n = rng.choice([0, 1, 2, 3, 4, 6, 9])
    p = "/".join(rng.choice(SEGS if rng.random() < 0.7 else [".", "..", "a", ""]) for _ in range(n))
    return ("/" if rng.random() < 0.6 else "") + p


def uri(rng):
    s = rng.choice(["", "", "http:", "file:", "urn:", "a+b.c:", "x:"])
    a = rng.choice(["", "", "//h", "//", "//u@h:80", "//u:p@h", "//u:p:q@h:1", "//[::1]:8080", "//h.x.y", "//h:"])
    p = path(rng)
    if a and p and p[0] != "/":
        p = "/" + p
    q = rng.choice(["", "", "?", "?q", "?a/../b", "?x?y", "?a:b@c//d"])
    f = rng.choice(["", "", "#", "#f", "#/a/b~1c", "#/a/../b", "#?x", "#a:b//c@d"])
    return s + a + p + q + f


def uris(rng, n):
    return [{"op": "uri", "b": B(uri(rng)), "r": B(uri(rng))} for _ in range(n)]


NAMES = ["a", "b/c", "p%", "enum", "default", "id", "~t", "x y", "q%41"]


def frag(name):
    t = name.replace("~", "~0").replace("/", "~1")
    return t.replace("%", "%25").replace(" ", "%20")


def pointer(rng):
    r = rng.random()
    if r < 0.2:
        return rng.choice(["", "#"])
    if r < 0.4:
        return rng.choice(["#foo", "#bar"])
    if r < 0.85:
        return "#/%s/%s" % (rng.choice(["definitions", "definitions", "properties"]), frag(rng.choice(NAMES)))
    if r < 0.9:
        return "#/allOf/%d" % rng.randrange(2)
    return "#/definitions/%s/definitions/%s" % (frag(rng.choice(NAMES)), frag(rng.choice(NAMES)))


PLACES = ["http://x/dir/", "http://x/dir/b", "http://x/a", "http://y", "urn:u", "rel.json", "", "http://x/dir/c/d?q", "/abs/s"]


def ref(rng, base):
    r = rng.random()
    if r < 0.5:
        return pointer(rng)
    if r < 0.75:
        p = rng.choice(["b", "./b", "c/d?q", "?q", "c/", "e"] + (["../a", "../dir/b", "c/../b"] if base.startswith("http://x/dir/") else []))
    else:
        p = rng.choice(PLACES[:6] + ["http://x/dir/../a", "http://x/./dir/b", "http://nowhere/"])
    return p + pointer(rng)


def esc(tok):
    return frag(bytes(tok).decode())


def parts(v, at=""):
    """pointers to the schemas inside a schema"""
    out = [at]
    for k, x in v.get("m", []):
        kw = bytes(k).decode()
        if kw in ("definitions", "properties") and x["t"] == "M":
            for n, y in x["m"]:
                out += parts(y, "%s/%s/%s" % (at, kw, esc(n)))
        elif x["t"] == "L" and kw == "allOf":
            for n, y in enumerate(x["l"]):
                out += parts(y, "%s/%s/%d" % (at, kw, n))
        elif x["t"] == "M" and kw in ("items", "additionalProperties"):
            out += parts(x, at + "/" + kw)
    return out


def idents(v):
    out = []
    for k, x in v.get("m", []):
        if bytes(k) == b"id" and x["t"] == "S":
            out.append(bytes(x["s"]).decode())
        elif x["t"] == "M":
            out += idents(x)
        elif x["t"] == "L":
            for y in x["l"]:
                out += idents(y)
    return out


class Gen:
    """schemas whose references mostly lead somewhere"""

    def __init__(self, rng):
        self.rng = rng
        self.k = 0
        self.known = []          # (uri, pointers, identifiers)

    def ident(self, base):
        rng = self.rng
        r = rng.random()
        self.k += 1
        if r < 0.45:
            return "#f%d" % self.k if rng.random() < 0.9 else "#foo"
        if r < 0.7:
            return rng.choice(["b", "c/d?q", "?q", "c/", "e%d" % self.k, "e%d/" % self.k])
        return rng.choice(["http://x/dir/e%d" % self.k, "http://z/r%d#" % self.k, "http://z/s%d" % self.k, "http://x/a#foo"])

    def target(self):
        rng = self.rng
        if not self.known or rng.random() < 0.15:
            return rng.choice(PLACES) + pointer(rng)
        u, ps, ids = rng.choice(self.known)
        r = rng.random()
        if r < 0.1:
            return u
        if ids and r < 0.35:
            i = rng.choice(ids)
            return i if "://" in i else u.split("#")[0] + i if i[0] == "#" else i
        return u.split("#")[0] + "#" + rng.choice(ps)

    def shape(self, depth, root=False):
        rng = self.rng
        m = {}
        if rng.random() < 0.2:
            m["id"] = S(self.ident(""))
        if rng.random() < (0.1 if root else 0.3):
            m["$ref"] = NULL
            return M(m)
        self.k += 1
        m["enum"] = L([I(j) for j in sorted({rng.randrange(1, 8) for _ in range(4)})] + [M({"id": S("#foo"), "$ref": S("#bar")})] * (rng.random() < 0.1))
        if rng.random() < 0.15:
            m["default"] = M({"id": S(rng.choice(["#foo", "b/../c", "x y"])), "enum": L([I(0)]), "$ref": S("q/./r")})
        if rng.random() < 0.1:
            m["title"] = S("t")
        if depth > 0:
            for kw in ("definitions", "properties"):
                if rng.random() < 0.6:
                    m[kw] = M({rng.choice(NAMES): self.shape(depth - 1) for _ in range(rng.choice([1, 2, 3]))})
            if rng.random() < 0.4:
                m["allOf"] = L([self.shape(depth - 1) for _ in range(rng.choice([1, 2]))])
            if rng.random() < 0.1:
                m["items"] = self.shape(depth - 1)
            if rng.random() < 0.1:
                m["additionalProperties"] = self.shape(0)
        return M(m)

    def fill(self, v, base, ps, ids):
        rng = self.rng
        if v["t"] == "L":
            return L([self.fill(x, base, ps, ids) for x in v["l"]])
        if v["t"] != "M":
            return v
        out = []
        for k, x in v["m"]:
            if bytes(k) == b"id" and x["t"] == "S":
                i = bytes(x["s"]).decode()
                base = i if "://" in i else base if i[0] in "#?" else ("http://x/dir/" if base.startswith("http://x/dir/") else "")
        for k, x in v["m"]:
            if bytes(k) == b"$ref" and x["t"] == "N":
                r = rng.random()
                if r < 0.5:
                    x = S("#" + rng.choice(ps))
                elif r < 0.65 and ids:
                    x = S(rng.choice(ids))
                elif r < 0.85:
                    x = S(self.target())
                else:
                    x = S(ref(rng, base))
            else:
                x = self.fill(x, base, ps, ids)
            out.append([k, x])
        return {"t": "M", "m": out}

    def schema(self, depth, place, root=False):
        s = self.shape(depth, root)
        ps, ids = parts(s), idents(s)
        self.known.append((place, ps, ids))
        return self.fill(s, place, ps, ids)


def history(rng):
    g = Gen(rng)
    n = rng.choice([1, 1, 2, 3])
    c = {"op": "loader", "n": n}
    places = rng.sample(PLACES, 5)
    if rng.random() < 0.4:
        c["remote"] = [[B(p), g.schema(2, p)] for p in rng.sample(places[3:], rng.choice([0, 1, 2])) if p]
        places = places[:3]
    adv = rng.random() < 0.3
    if adv:
        files = []
        for f in rng.sample(["p0/f.json", "p1/f.json", "p0/g.json", "h.json", "p1/k.json"], rng.choice([1, 2, 3])):
            u = rng.choice(["file:///SCRATCH/" + f, "/SCRATCH/" + f] + ([f[3:], "./" + f[3:], "file://" + f[3:], f[3:] + "?q"] if f[0] == "p" else []))
            s = g.schema(1, u)
            files.append([B(f), {"t": "none"} if rng.random() < 0.2 else s])
        c["adv"] = {"paths": [B(p) for p in rng.choice([["p0", "p1"], ["p1", "p0"], ["p0"]])], "files": files}
        if len(c["adv"]["paths"]) == 1:
            c["adv"]["files"] = [f for f in files if f[0][:2] != B("p1")]
    ops = []
    for _ in range(rng.choice([2, 4, 6, 8])):
        l = rng.randrange(n)
        r = rng.random()
        if places and (r < 0.25 or not ops):
            p = places.pop()
            s = g.schema(2, p, True)
            if rng.random() < 0.2:
                p = p.replace("http://x/", "http://x/./").replace("rel.json", "./rel.json")
            ops.append({"f": "add", "l": rng.choice([0, l]), "u": B(p + rng.choice(["", "", "#"])), "s": s})
            continue
        t = g.target()
        if rng.random() < 0.2:
            t = t.replace("http://x/", "http://x/./").replace("rel.json", "./rel.json")
        if r < 0.3:
            ops.append({"f": "forget", "l": l, "u": B(rng.choice([t, t.split("#")[0]]))})
        elif r < 0.65:
            ops.append({"f": "get", "l": rng.choice([l, n - 1]), "u": B(t)})
        elif r < 0.8:
            ops.append({"f": "val", "l": rng.choice([l, n - 1]), "s": S(t), "d": I(rng.randrange(1, 8))})
        else:
            h = Gen(rng)
            h.known = list(g.known)
            s = h.schema(2, "", True)
            if rng.random() < 0.5:
                s = M({"allOf": L([M({"$ref": S(t)})]), "definitions": M({rng.choice(NAMES): h.schema(1, "")})})
            ops.append({"f": "val", "l": rng.choice([l, n - 1]), "s": s, "d": I(rng.randrange(1, 8))})
    c["ops"] = ops
    return local(c) if adv else c


def local(x):
    """the same without anything that would be looked for in the network"""
    if isinstance(x, dict):
        return {k: local(v) for k, v in x.items()}
    if isinstance(x, list):
        if x and all(isinstance(b, int) for b in x):
            return list(bytes(x).replace(b"http://", b"file://").replace(b"urn:", b""))
        return [local(y) for y in x]
    return x


def histories(rng, n):
    return [history(rng) for _ in range(n)]


def run():
    c = Check("P20", ["ops_schema"])
    c.vectors_from("exhaustive", "MCUri", "MCUri.cfg", env={"DEPTH": str(c.n(4, 5))})
    c.validate("references", "TraceUri", uris(c.rng("references"), c.n(6000, 100000)))
    c.validate("registry", "TraceLoader", histories(c.rng("registry"), c.n(2500, 40000)))
    return c.finish()
