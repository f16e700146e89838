"""P18: draft-4 validation."""
import json
import os

from vf import Check
from vals import *
import numgen

META = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "data", "draft4.json")))
META["properties"].pop("format")       # not in the first edition of the draft
META_URI = "http://json-schema.org/draft-04/schema"
KEYS = ["a", "b", "ab", "bb", "abc", "x1", "y-2", "a/b", "m~n", "p%q", "", "$ref1", "enum", "id2"]
TEXTS = ["", "a", "b", "ab", "ba", "aab", "abc", "ABC", "a1", "12", "x y", "a.b", "a-b", "foo", "food", "-", "$", "(a)"]
PATTERNS = ["a", "^a", "b$", "^ab$", "a*b", "^(a|b)+$", "[0-9]", "^[a-z]*$", "[^a]", "^.{2}$", "a{2}", "^a{1,2}b", "a?b", "(ab|ba)$",
            "^$", "a\\.b", "^[^0-9]+$", "x.y", "^\\(a\\)$", "o{2,}", "^(fo*)d?$", "a|^b", "[A-Z-]", "[ab]{2,3}$", "-", "\\$"]


FORMATS = {"date": ["2019-12-31", "0000-01-01", "1999-10-09", "2019-12-3", "2019-1-31", "19-12-31", "2019/12/31", "2019-12-31Z", " 2019-12-31", "2019-12-41", "2019-21-01", "2019-12-31T00:00:00Z", "", "a"],
           "time": ["00:00:00", "23:59:59", "12:30:07", "12:60:00", "12:00:61", "30:00:00", "1:00:00", "12:30", "12.30.07", "12:30:07Z", "012:30:07", "", "noon"],
           "date-time": ["2019-12-31T23:59:59Z", "2000-02-29T00:00:00Z", "2019-12-31 23:59:59Z", "2019-12-31T23-59-59Z", "19-12-31T23:59:59Z", "2019-12-31T23:59:59Zx", "x2019-12-31T23:59:59Z", "2019-12-41T23:59:59Z", "2019-22-31T23:59:59Z", "", "a"],
           "regex": ["a", "^(a|b)*$", "[0-9]{2}", "", "(", "(a", "[a", "[", "a(b", "x[0-9"],
           "other": ["", "a", "2019"], "color": ["red", "#fff"]}


def number(rng):
    r = rng.random()
    if r < 0.5:
        return rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 10, 12, 100, -1, -2, -3, -7, -12])
    if r < 0.8:
        return rng.choice([0.5, 1.5, 2.5, 0.25, -0.5, -2.5, 3.75, -1.25, 0.125, 7.5, 6.0, -4.0, 2.0, 0.0, 12.0])
    return rng.randrange(-900, 900)


def num(rng, x):
    """one of the representations of a number"""
    if x == int(x):
        return rng.choice([I(int(x)), I(int(x)), F(float(x))] + ([U(int(x))] if x >= 0 else []))
    return F(float(x))


def data(rng, depth):
    r = rng.random()
    if depth > 0 and r < 0.5:
        n = rng.choice([0, 1, 1, 2, 2, 3, 4])
        if rng.random() < 0.6:
            return {k: data(rng, depth - 1) for k in rng.sample(KEYS[:7] if rng.random() < 0.7 else KEYS, n)}
        l = [data(rng, depth - 1) for _ in range(n)]
        if l and rng.random() < 0.3:
            l.append(rng.choice(l))
        return l
    if r < 0.75:
        return number(rng)
    if r < 0.9:
        return rng.choice(TEXTS)
    return rng.choice([True, False, None])


def same(a, b):
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None:
        return a is b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b
    if type(a) != type(b):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    return a == b


def distinct(xs):
    out = []
    for x in xs:
        if not any(same(x, y) for y in out):
            out.append(x)
    return out


def typename(rng, d):
    if d is None:
        return "null"
    if isinstance(d, bool):
        return "boolean"
    if isinstance(d, (int, float)):
        return rng.choice(["number", "integer"]) if d == int(d) else "number"
    return {str: "string", list: "array", dict: "object"}[type(d)]


TYPES = ["array", "boolean", "integer", "null", "number", "object", "string"]


class Gen:
    """schemas that describe a value more or less; sub-schemas are moved to
    definitions and other documents and referred to"""

    def __init__(self, rng):
        self.rng = rng
        self.defs = {}
        self.docs = []
        self.refs = []
        self.k = 0

    def mutate(self, d):
        rng = self.rng
        r = rng.random()
        if isinstance(d, dict) and d and r < 0.85:
            d = dict(d)
            k = rng.choice(sorted(d))
            if r < 0.3:
                del d[k]
            elif r < 0.5:
                d[rng.choice(KEYS)] = data(rng, 1)
            else:
                d[k] = self.mutate(d[k])
            return d
        if isinstance(d, list) and d and r < 0.85:
            d = list(d)
            i = rng.randrange(len(d))
            if r < 0.25:
                del d[i]
            elif r < 0.4:
                d.insert(i, data(rng, 1))
            elif r < 0.5:
                d.append(d[i])
            else:
                d[i] = self.mutate(d[i])
            return d
        if isinstance(d, (int, float)) and not isinstance(d, bool) and r < 0.7:
            return d + rng.choice([1, -1, 0.5, -0.5, 2, -d, -2 * d])
        if isinstance(d, str) and r < 0.7:
            return rng.choice([d + "a", d[1:], "b" + d, d[::-1], d.upper()])
        return data(rng, 1)

    def whole(self, n):
        """a count, at times as a floating number"""
        n = max(0, n)
        return float(n) if self.rng.random() < 0.1 else n

    def near(self):
        return self.rng.choice([0, 0, 0, 0, 1, -1])

    def schema(self, d, depth):
        s = self.inner(d, depth)
        if self.rng.random() < 0.12 and self.k < 6:
            return self.moved(s)
        return s

    def moved(self, s):
        rng = self.rng
        self.k += 1
        if self.refs and rng.random() < 0.15:
            return {"$ref": rng.choice(self.refs)}
        r = rng.random()
        if r < 0.5:
            k = rng.choice(["d%d", "d/%d", "~d%d", "d%%%d", "enum%d"]) % self.k
            self.defs[k] = s
            esc = k.replace("~", "~0").replace("/", "~1").replace("%", "%25")
            u = "#/definitions/" + esc
        elif r < 0.65:
            k = "i%d" % self.k
            if "$ref" in s or "id" in s:
                s = {"allOf": [s]}
            s = dict(s, id=rng.choice(["#n%d"] if has_local(s) else ["#n%d", "http://s/x%d", "http://s/t/y%d#"]) % self.k)
            self.defs[k] = s
            u = s["id"]
            if u[-1] == "#" and rng.random() < 0.5:
                u = u[:-1]
        elif r < 0.85:
            uri = "http://d/doc%d" % self.k
            if has_local(s):
                self.defs["d%d" % self.k] = s
                u = "#/definitions/d%d" % self.k
            else:
                self.docs.append([uri, s])
                u = rng.choice([uri, uri + "#"])
        else:
            uri = "http://d/doc%d" % self.k
            if has_local(s):
                return s
            self.docs.append([uri, {"definitions": {"q": s, "r": {"$ref": "#/definitions/q"}}}])
            u = uri + rng.choice(["#/definitions/q", "#/definitions/r"])
        self.refs.append(u)
        return {"$ref": u}

    def inner(self, d, depth):
        rng = self.rng
        if rng.random() < 0.04:
            return {}
        s = {}
        ks = rng.choice([0, 1, 1, 2, 3, 4])
        for _ in range(ks):
            self.keyword(s, d, depth)
        if depth > 0 and rng.random() < 0.35:
            self.combine(s, d, depth - 1)
        if rng.random() < 0.05:
            s["title"] = "t"
        if rng.random() < 0.05:
            s["default"] = {"$ref": "#/nowhere", "id": "q"}
        return s

    def keyword(self, s, d, depth):
        rng = self.rng
        r = rng.random()
        if r < 0.2:
            t = typename(rng, d) if rng.random() < 0.9 else rng.choice(TYPES)
            s["type"] = t if rng.random() < 0.7 else sorted({t} | set(rng.sample(TYPES, rng.choice([0, 1, 2]))))
            return
        if r < 0.3:
            e = [data(rng, 1) for _ in range(rng.choice([1, 2, 3]))] + ([d] if rng.random() < 0.85 else [self.mutate(d)])
            rng.shuffle(e)
            s["enum"] = distinct(e)
            return
        kind = type(d) if rng.random() < 0.9 else type(data(rng, 1))
        if kind in (int, float):
            x = d if isinstance(d, (int, float)) and not isinstance(d, bool) else number(rng)
            if r < 0.5:
                m = rng.choice([1, 2, 3, 0.5, 0.25, 1.5, 2.5, 7, 12, abs(x) or 1, abs(x) / 2 or 1, 10])
                s["divisibleBy" if rng.random() < 0.25 else "multipleOf"] = m if m * 1024 == int(m * 1024) and m > 0 else 1
            elif r < 0.75:
                s["minimum"] = x + rng.choice([0, 0, -1, 1, -0.5, 0.5, -7])
                if rng.random() < 0.4:
                    s["exclusiveMinimum"] = rng.random() < 0.7
            else:
                s["maximum"] = x + rng.choice([0, 0, -1, 1, -0.5, 0.5, 7])
                if rng.random() < 0.4:
                    s["exclusiveMaximum"] = rng.random() < 0.7
        elif kind is str:
            n = len(d) if isinstance(d, str) else 2
            if r < 0.36 and isinstance(d, str):
                s["format"] = rng.choice(sorted(FORMATS)[:3] + ["regex", "other"])
                if not any(d in x for x in (FORMATS[s["format"]], TEXTS[:10], TEXTS[11:12])):
                    s["format"] = "color"
            elif r < 0.5:
                s["minLength"] = self.whole(n + self.near())
            elif r < 0.65:
                s["maxLength"] = self.whole(n + self.near())
            else:
                s["pattern"] = rng.choice(PATTERNS)
        elif kind is list:
            l = d if isinstance(d, list) else []
            if r < 0.4:
                s["minItems"] = self.whole(len(l) + self.near())
            elif r < 0.5:
                s["maxItems"] = self.whole(len(l) + self.near())
            elif r < 0.6:
                s["uniqueItems"] = rng.random() < 0.8
            elif r < 0.75 and depth > 0:
                if l and all(typename(rng, x) == typename(rng, l[0]) for x in l):
                    s["items"] = self.schema(rng.choice(l), depth - 1)
                else:
                    s["items"] = {"type": sorted({typename(rng, x) for x in l} | {"null"})}
            elif depth > 0:
                n = max(0, len(l) + rng.choice([0, 0, -1, -1, 1, -2]))
                s["items"] = [self.schema(l[i] if i < len(l) else data(rng, 1), depth - 1) for i in range(n)] or [{}]
                if rng.random() < 0.6:
                    rest = l[n:]
                    s["additionalItems"] = rng.choice([True, False, self.schema(rest[0] if rest else 1, 0)])
        elif kind is dict:
            m = d if isinstance(d, dict) else {"a": 1}
            ks = sorted(m)
            if r < 0.36:
                s["minProperties"] = self.whole(len(m) + self.near())
            elif r < 0.42:
                s["maxProperties"] = self.whole(len(m) + self.near())
            elif r < 0.5:
                s["required"] = sorted(set(rng.sample(ks, rng.randrange(len(ks) + 1)) + ([rng.choice(KEYS)] if rng.random() < 0.15 else []))) or ["a"]
            elif r < 0.75 and depth > 0:
                p = {k: self.schema(m[k], depth - 1) for k in rng.sample(ks, rng.randrange(len(ks) + 1))}
                if rng.random() < 0.4:
                    p[rng.choice(KEYS)] = self.schema(data(rng, 0), 0)
                s["properties"] = p
                self.rest(s, m, depth)
            elif r < 0.9 and depth > 0:
                p = {}
                for _ in range(rng.choice([1, 2])):
                    k = rng.choice(ks) if ks else "a"
                    p[rng.choice(PATTERNS[:14] + ["^%s$" % "".join(c for c in k if c.isalnum())])] = self.schema(m.get(k, 1), depth - 1) if rng.random() < 0.7 else {}
                s["patternProperties"] = p
                self.rest(s, m, depth)
            elif r < 0.94:
                self.rest(s, m, depth)
            else:
                dep = {}
                for _ in range(rng.choice([1, 2])):
                    k = rng.choice(ks) if ks and rng.random() < 0.8 else rng.choice(KEYS)
                    if rng.random() < 0.15:
                        dep[k] = rng.choice(ks) if ks and rng.random() < 0.7 else rng.choice(KEYS)
                    elif rng.random() < 0.5:
                        dep[k] = sorted(set(rng.sample(ks, rng.randrange(1, len(ks) + 1)) if ks and rng.random() < 0.8 else [rng.choice(KEYS)]))
                    else:
                        dep[k] = self.schema(d, max(0, depth - 1))
                s["dependencies"] = dep

    def rest(self, s, m, depth):
        rng = self.rng
        if rng.random() < 0.6:
            others = sorted(set(m) - set(s.get("properties", {})))
            s["additionalProperties"] = rng.choice([True, False, self.schema(m[rng.choice(others)] if others else 1, max(0, depth - 1))])

    def combine(self, s, d, depth):
        rng = self.rng
        def some():
            x = d if rng.random() < 0.5 else self.mutate(d) if rng.random() < 0.6 else data(rng, 1)
            return self.schema(x, depth)
        for _ in range(rng.choice([1, 1, 2])):
            k = rng.choice(["allOf", "anyOf", "oneOf", "not"])
            if k == "not":
                s["not"] = self.schema(self.mutate(d), depth)
            elif k == "allOf":
                s["allOf"] = [self.schema(d, depth) for _ in range(rng.choice([1, 2, 3]))]
            else:
                s[k] = [some() for _ in range(rng.choice([1, 2, 3, 4]))]


def has_local(s):
    """contains references or identifiers relative to its document"""
    if isinstance(s, dict):
        return any((k in ("$ref", "id")) or has_local(v) for k, v in s.items())
    return isinstance(s, list) and any(has_local(v) for v in s)


def enc(rng, x):
    if isinstance(x, bool) or x is None:
        return from_py(x)
    if isinstance(x, (int, float)):
        return num(rng, x)
    if isinstance(x, str):
        return S(x)
    if isinstance(x, list):
        return L([enc(rng, y) for y in x])
    return M({k: enc(rng, v) for k, v in x.items()})


def case(rng, s, d, docs=()):
    return {"op": "valid", "docs": [[B(u), enc(rng, x)] for u, x in docs], "s": enc(rng, s), "d": enc(rng, d)}


def described(rng):
    d = data(rng, rng.choice([0, 1, 2, 3]))
    g = Gen(rng)
    s = g.inner(d, rng.choice([1, 2, 3]))
    if g.defs:
        if "$ref" in s:
            s = {"allOf": [s]}
        s["definitions"] = g.defs
    for _ in range(rng.choice([0, 0, 1, 2])):
        d = g.mutate(d)
    r = rng.random()
    if g.defs or r < 0.8:
        return case(rng, s, d, g.docs)
    uri = "http://d/main"
    if r < 0.9 or not isinstance(d, dict):
        return dict(case(rng, s, d, g.docs + [[uri, s]]), s=S(rng.choice([uri, uri + "#"])))
    d = dict(d)
    d["$schema"] = uri
    return dict(case(rng, s, d, g.docs + [[uri, s]]), s=NULL)


def recursive(rng):
    """schemas that refer to themselves, with data up to the recursion limit"""
    kind = rng.randrange(5)
    leaf = rng.choice([1, "a", None, {}, [], {"v": "x"}, 2.5])
    n = rng.choice([0, 1, 2, 5, 10, 20, 24, 30, 32])
    if kind == 0:       # linked list
        s = {"type": "object", "properties": {"next": {"$ref": "#"}, "v": {"type": "integer"}}, "additionalProperties": rng.random() < 0.5}
        n = rng.choice([0, 1, 5, 20, 40, 48, 49])
        d = {"v": 1} if rng.random() < 0.6 else {"v": "1"} if rng.random() < 0.5 else leaf
        for j in range(n):
            d = {"next": d}
            if rng.random() < 0.3:
                d["v"] = j if rng.random() < 0.95 else j + 0.5
    elif kind == 1:     # nested lists
        s = {"anyOf": [{"type": "integer"}, {"type": "array", "items": {"$ref": "#"}, "maxItems": 3}]}
        d = rng.choice([1, "a", []])
        n = rng.choice([0, 1, 5, 20, 30, 32])
        for _ in range(n):
            d = [d] + [1] * rng.choice([0, 0, 0, 1, 3])
    elif kind == 2:     # tree through definitions
        s = {"$ref": "#/definitions/tree", "definitions": {"tree": {"type": "object", "required": ["v"], "properties": {
            "l": {"$ref": "#/definitions/tree"}, "r": {"$ref": "#/definitions/tree"}, "v": {"enum": [1, 2, 3]}}}}}
        def tree(k):
            t = {"v": rng.choice([1, 2, 3]) if rng.random() < 0.97 else 4}
            if k:
                for b in "lr":
                    if rng.random() < 0.7:
                        t[b] = tree(k - 1)
            return t
        d = tree(rng.choice([1, 2, 3, 4]))
    elif kind == 3:     # not of itself below
        s = {"properties": {"n": {"not": {"$ref": "#"}}}, "type": ["object"]}
        d = rng.choice([1, {}, {"n": 1}])
        for _ in range(rng.choice([0, 1, 2, 3, 10, 20, 30])):
            d = {"n": d}
    else:
        s = {"oneOf": [{"type": "number", "minimum": 2}, {"type": "object", "patternProperties": {"^a": {"$ref": "#"}}, "additionalProperties": False, "minProperties": 1}]}
        d = rng.choice([1, 2, 3, "a"])
        for j in range(n):
            d = {"a%d" % rng.randrange(2): d}
            if rng.random() < 0.1:
                d["ab"] = rng.choice([2, 2, 2, 1])
    return case(rng, s, d)


def meta(rng):
    """schemas, right and wrong ones, validated by the schema of schemas"""
    d = data(rng, 2)
    g = Gen(rng)
    s = g.inner(d, 2)
    if g.defs:
        s["definitions"] = g.defs
    if rng.random() < 0.6:
        s = spoil(rng, s)
    return dict(case(rng, {}, s, [[META_URI, META]]), s=S(META_URI + rng.choice(["", "#"])))


def spoil(rng, s):
    """something in a schema replaced"""
    if isinstance(s, dict) and s:
        k = rng.choice(sorted(s))
        s = dict(s)
        if rng.random() < 0.5:
            s[k] = spoil(rng, s[k])
        else:
            s[k] = rng.choice([1, -1, 0, 0.5, True, "a", [], [1], ["a"], ["a", "a"], {}, {"a": 1}, {"a": []}, None, "array", ["string", "object"]])
            if k == "pattern":
                s[k] = 1
        return s
    if isinstance(s, list) and s:
        i = rng.randrange(len(s))
        return s[:i] + [spoil(rng, s[i])] + s[i + 1:]
    return rng.choice([1, -1, "a", [], {}, None, True])


WORDS = ["type", "enum", "multipleOf", "divisibleBy", "minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum", "minLength", "maxLength",
         "pattern", "format", "items", "additionalItems", "minItems", "maxItems", "uniqueItems", "properties", "patternProperties",
         "additionalProperties", "required", "minProperties", "maxProperties", "dependencies", "allOf", "anyOf", "oneOf", "not", "id", "default", "definitions", "$ref"]


def odd(rng, depth):
    r = rng.random()
    if depth and r < 0.5:
        return {rng.choice(WORDS): odd(rng, depth - 1) for _ in range(rng.choice([1, 2, 3]))}
    if depth and r < 0.6:
        return [odd(rng, depth - 1) for _ in range(rng.choice([0, 1, 2]))]
    return rng.choice([0, -1, 1, 2.5, -0.5, 0.0, True, False, None, "", "a", "(", "[", "string", "array", "regex", "date-time", "#", "#/items", "#/nowhere", "#/a~2", "http://d/x", {}, []])


def loose(rng):
    """schemas that mean nothing or never end: nothing but the schema and the
    data being left alone is required"""
    r = rng.random()
    d = data(rng, 2)
    if r < 0.15:
        again = {"$ref": "#"}
        k = rng.choice(["anyOf", "oneOf", "allOf"])
        s = {k: [again] * rng.choice([1, 2, 3])}
        if rng.random() < 0.5:
            s["not"] = again
        if rng.random() < 0.3:
            s = {"not": {k: [again, again]}, "definitions": {"a": again}}
    elif r < 0.5:
        s = spoil(rng, Gen(rng).inner(d, 2))
    else:
        s = odd(rng, 3)
        s = s if isinstance(s, dict) else {"type": s}
    return dict(case(rng, s, d), loose=True)


def wide(rng):
    """keywords with several entries, mostly satisfied, so that every single
    entry decides the outcome"""
    yes = lambda: rng.choice([{}, {"type": "integer"}, {"minimum": 1}, {"type": ["string", "integer"]}, {"enum": [0, 1, 2]}, {"not": {"type": "string"}}])
    no = lambda: rng.choice([{"type": "string"}, {"minimum": 3}, {"maximum": 0}, {"enum": ["a", 7]}, {"not": {"type": "integer"}}, {"type": ["null", "array"]}])
    bad = rng.choice([0.0, 0.1, 0.2, 0.35])
    sub = lambda p=bad: no() if rng.random() < p else yes()
    n = rng.choice([2, 3, 3, 4, 5])
    num = lambda: rng.choice([1, 2])
    keys = rng.sample(["a", "b", "ab", "ba", "abc", "c", "bc", "d", "cd", "aa"], n)
    k = rng.choice(["patternProperties", "patternProperties", "properties", "dependencies", "required", "items", "allOf", "anyOf", "oneOf", "enum", "type", "mixed"])
    d = {x: num() for x in keys}
    if k == "patternProperties":
        s = {k: {x: sub() for x in rng.sample(["a", "b", "c", "^a", "b$", "^.$", "[ab]", "d", "..", "c$", "^ab"], n)}}
        d = {x: d[x] for x in keys[:rng.choice([1, 2, n])]}
        if rng.random() < 0.4:
            s["additionalProperties"] = rng.choice([False, sub()])
        if rng.random() < 0.4:
            s["properties"] = {x: sub() for x in keys[:2]}
    elif k == "properties":
        s = {k: {x: sub() for x in keys}}
        if rng.random() < 0.5:
            d["zz"] = num()
            s["additionalProperties"] = sub(0.3)
    elif k == "dependencies":
        s = {k: {x: rng.sample(keys, rng.choice([1, 2])) + (["zz"] if rng.random() < bad else []) if rng.random() < 0.6 else {"properties": {y: sub() for y in rng.sample(keys, 2)}} for x in keys}}
        for x in rng.sample(keys, rng.choice([0, 0, 1])):
            d.pop(x)
    elif k == "required":
        s = {k: keys}
        for x in rng.sample(keys, rng.choice([0, 1])):
            d.pop(x)
    elif k == "items":
        d = [num() for _ in range(n)]
        s = {k: [sub() for _ in range(max(1, n + rng.choice([-2, -1, 0, 0, 1])))]}
        if rng.random() < 0.5:
            s["additionalItems"] = rng.choice([True, False, sub()])
    elif k in ("allOf", "anyOf", "oneOf"):
        d = num()
        s = {k: [sub({"allOf": bad, "anyOf": 0.8, "oneOf": 0.75}[k]) for _ in range(n)]}
    elif k == "enum":
        vals = rng.sample([1, 2, 3, "a", "b", None, True, 1.5, [1], {"a": 1}, [], {}, -1, False], n + 1)
        d = rng.choice(vals)
        s = {k: vals[:n]}
    elif k == "type":
        ts = rng.sample(["array", "boolean", "integer", "null", "number", "object", "string"], n)
        d = rng.choice([1, 1.5, 2.0, "a", None, True, [], {}, -3])
        s = {k: ts}
    else:
        s = {"properties": {x: sub() for x in keys[:2]}, "patternProperties": {x: sub() for x in ["a", "b"]},
             "additionalProperties": sub(), "required": keys[:1], "maxProperties": n + rng.choice([-1, 0, 0]),
             "minProperties": n - rng.choice([-1, 0, 0]), "dependencies": {keys[0]: keys[1:]}}
    for _ in range(rng.choice([0, 0, 0, 1, 2])):
        if rng.random() < 0.5:
            s, d = {"items": s}, [d]
        else:
            s, d = {"properties": {"w": s}}, {"w": d}
    return case(rng, s, d)


def formatted(rng):
    """texts of a format, as they are and spoilt"""
    f = rng.choice(sorted(FORMATS))
    d = rng.choice(FORMATS[f] if rng.random() < 0.8 else FORMATS[rng.choice(sorted(FORMATS))] if f != "date-time" else ["a", "12"])
    if f in ("date", "time", "date-time") and rng.random() < 0.4:
        two = lambda lo, hi: "%02d" % rng.randint(lo, hi)
        date, time = "%04d-%s-%s" % (rng.randrange(10000), two(1, 12), two(1, 31)), ":".join([two(0, 23), two(0, 59), two(0, 59)])
        d = {"date": date, "time": time, "date-time": date + "T" + time + "Z"}[f]
        if rng.random() < 0.5:
            # one character replaced by what fits nowhere
            j = rng.randrange(len(d))
            d = d[:j] + rng.choice("xT" if f != "date-time" or j != 10 else "xt") + d[j + 1:]
    s = {"format": f}
    if rng.random() < 0.3:
        s[rng.choice(["minLength", "maxLength"])] = rng.choice([0, 1, 8, 10, 20])
    for _ in range(rng.choice([0, 0, 1])):
        s, d = rng.choice([({"items": s}, [d, d]), ({"properties": {"w": s}}, {"w": d}), ({"not": s}, d), ({"anyOf": [s, {"type": "null"}]}, d)])
    return case(rng, s, rng.choice([1, None, [d], {"a": d}]) if rng.random() < 0.05 else d)


def limit(rng):
    """numeric keywords at the edges of the number types"""
    k = rng.choice(["minimum", "maximum", "enum", "type", "uniqueItems", "multipleOf", "multipleOf"])
    n = numgen.num(rng, False)
    while n["e"] < -40 or n["e"] > 60:
        n = numgen.num(rng, False)
    d = numgen.near(rng, n) if rng.random() < 0.7 else numgen.num(rng, False)
    while d["e"] < -40 or d["e"] > 60:
        d = numgen.num(rng, False)
    if k == "multipleOf":
        n = dict(n, g=1) if n["g"] else N("U", 3)
        if rng.random() < 0.6:
            n = N(rng.choice("IU"), rng.choice([1, 2, 3, 7, 10, 2**31, 2**32 + 1, 2**62])) if rng.random() < 0.6 else N("F", rng.choice([0.5, 0.25, 1.5, 3.0, 2.5]))
    return {"op": "limit", "k": k, "x": k in ("minimum", "maximum") and rng.random() < 0.5, "n": n, "d": d}


def run():
    c = Check("P18", ["ops_schema"])
    c.vectors_from("exhaustive", "MCSchema", "MCSchema.cfg", env={"MAXKW": "2" if c.quick else "3"})
    for name, f, quick, thorough in (("described", described, 5000, 120000), ("wide", wide, 3000, 60000), ("recursive", recursive, 400, 3000), ("formatted", formatted, 1500, 15000), ("meta", meta, 500, 8000), ("loose", loose, 3000, 40000)):
        rng = c.rng(name)
        c.validate(name, "TraceSchema", [f(rng) for _ in range(c.n(quick, thorough))])
    rng = c.rng("limits")
    c.validate("limits", "TraceLimit", [limit(rng) for _ in range(c.n(5000, 60000))])
    return c.finish()
