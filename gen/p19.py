"""P19: defaults of schemas."""
from vf import Check
from vals import *

KEYS = ["a", "b", "c", "n", "d/e", "~f", "", "default", "enum", "$ref", "items"]
VALUES = [1, 0, -5, 2.5, "x", "", True, False, None, [], {}, [1], {"a": 1}, {"b": {"c": 2}}, [None, {"a": 3}], {"$ref": "q/../r", "id": "z"}, {"default": 7}]


class Gen:
    def __init__(self, rng):
        self.rng = rng
        self.names = rng.sample(["p", "q/r", "s~", "t%", "u"], rng.choice([0, 1, 2, 3]))
        self.docs = rng.sample(["http://d/x", "http://d/y/"], rng.choice([0, 0, 1, 2]))
        self.refs = ["#/definitions/" + k.replace("~", "~0").replace("/", "~1").replace("%", "%25") for k in self.names]
        self.root = ["#"] if rng.random() < 0.3 else []
        self.inner = {}

    def keys(self):
        return self.rng.choice(KEYS[:4]) if self.rng.random() < 0.8 else self.rng.choice(KEYS)

    def schema(self, depth, local=True):
        rng = self.rng
        r = rng.random()
        refs = (self.refs + self.root if local else ["#"] * bool(self.root)) + [d + f for d in self.docs for f in ("", "#", "#/definitions/w")]
        if refs and r < 0.2:
            return {"$ref": rng.choice(refs)}
        s = {}
        if rng.random() < 0.4:
            s["default"] = rng.choice(VALUES)
        if depth > 0:
            if rng.random() < 0.6:
                s["properties"] = {self.keys(): self.schema(depth - 1, local) for _ in range(rng.choice([1, 2, 3]))}
            if rng.random() < 0.2:
                s["items"] = self.schema(depth - 1, local) if rng.random() < 0.4 else [self.schema(depth - 1, local) for _ in range(rng.choice([1, 2, 3]))]
            for k in ("allOf", "oneOf", "anyOf"):
                if rng.random() < 0.12:
                    s[k] = [self.schema(depth - 1, local) for _ in range(rng.choice([1, 2, 3]))]
            if rng.random() < 0.1:
                s[rng.choice(["not", "additionalProperties", "additionalItems"])] = self.schema(depth - 1, local)
            if rng.random() < 0.1:
                s["patternProperties"] = {".": self.schema(0, local)}
            if rng.random() < 0.1:
                s["dependencies"] = {self.keys(): self.schema(0, local)}
        if rng.random() < 0.1:
            s["enum"] = [1, {"default": 2}]
        return s

    def case(self):
        rng = self.rng
        s = self.schema(rng.choice([1, 2, 3, 4]))
        if self.names:
            s["definitions"] = {k: self.schema(rng.choice([0, 1, 2])) for k in self.names}
        docs = []
        for u in self.docs:
            x = self.schema(2, False)
            docs.append([u, dict({"allOf": [x]} if "$ref" in x else x, definitions={"w": self.schema(1, False)})])
        d = self.data(s, rng.choice([0, 1, 2, 3, 4]))
        c = {"op": "defaults", "docs": [[B(u), from_py(x)] for u, x in docs], "s": from_py(s), "d": from_py(d)}
        if docs and rng.random() < 0.3:
            u = rng.choice(self.docs)
            if rng.random() < 0.5 or not isinstance(d, dict):
                c["s"] = S(rng.choice([u, u + "#", u + "#/definitions/w"]))
            else:
                c["s"] = NULL
                c["d"] = from_py(dict(d, **{"$schema": u}))
        return c

    def data(self, s, depth):
        """partly what the schema speaks of"""
        rng = self.rng
        r = rng.random()
        if r < 0.15:
            return None
        if r < 0.25 or not depth:
            return rng.choice([x for x in VALUES if not isinstance(x, (list, dict)) or not x] + [{}, []])
        if "properties" in s and isinstance(s["properties"], dict) and r < 0.85:
            d = {}
            for k, x in s["properties"].items():
                if rng.random() < 0.5:
                    d[k] = self.data(x, depth - 1)
            if rng.random() < 0.3:
                d[self.keys()] = self.data({}, depth - 1)
            return d
        if "items" in s and r < 0.9:
            items = s["items"] if isinstance(s["items"], list) else [s["items"]] * 2
            return [self.data(x, depth - 1) for x in items[:rng.randrange(len(items) + 1)]] + [1] * (rng.random() < 0.2)
        if r < 0.7:
            return {self.keys(): self.data({}, depth - 1) for _ in range(rng.choice([0, 1, 2]))}
        if r < 0.85:
            return [self.data({}, depth - 1) for _ in range(rng.choice([0, 1, 2]))]
        return rng.choice(VALUES)


def endless(rng):
    """schemas that refer to themselves"""
    k = rng.choice(["#", "#/definitions/t"])
    node = {"properties": {"n": {"$ref": k}, "v": {"default": rng.choice([0, {}, [1]])}}}
    r = rng.random()
    if r < 0.3:
        node["properties"]["n"] = {"allOf": [{"default": rng.choice([{}, None, {"n": {}}])}, {"$ref": k}]}
    elif r < 0.5:
        node["properties"]["l"] = {"items": rng.choice([{"$ref": k}, [{"$ref": k}, {"$ref": k}, {"default": 1}]])}
    elif r < 0.6:
        node = {"allOf": [{"$ref": k}, node], "anyOf": [{"$ref": k}]}
    elif r < 0.75:
        node["properties"]["m"] = {"properties": {"n": {"$ref": k}, "w": {"default": 3}}}
    s = node if k == "#" else {"$ref": k, "definitions": {"t": node}}
    def grow(depth):
        d = {}
        for key in "nvlm":
            x = rng.random()
            if x < 0.15:
                d[key] = None
            elif x < 0.6 and depth:
                d[key] = [grow(depth - 1) for _ in range(rng.choice([0, 1, 2]))] if key == "l" else 5 if key == "v" else grow(depth - 1)
        return d
    return {"op": "defaults", "docs": [], "s": from_py(s), "d": from_py(rng.choice([None, grow(rng.choice([0, 1, 2, 3, 5]))]))}


def run():
    c = Check("P19", ["ops_schema"])
    c.vectors_from("exhaustive", "MCDefaults", "MCDefaults.cfg", env={"BIG": "0" if c.quick else "1"})
    rng = c.rng("random")
    c.validate("random", "TraceDefaults", [Gen(rng).case() for _ in range(c.n(3000, 80000))])
    rng = c.rng("endless")
    c.validate("endless", "TraceDefaults", [endless(rng) for _ in range(c.n(1500, 15000))])
    return c.finish()
