"""P28: where a schema is violated."""
import itertools
from vf import Check
from vals import *
import p18

NUMBERS = ["minimum", "maximum", "multipleOf", "minLength", "maxLength", "minItems", "maxItems", "minProperties", "maxProperties"]
DATA = [0, 3, -2.5, "", "ab", [], [1, "a"], {}, {"a": 1, "ab": "b"}]

TYPES = {int: ("integer", "number"), float: ("number",), str: ("string",), list: ("array",), dict: ("object",)}


def wrapped(s, d, ways):
    """a schema and data further inside"""
    for w in ways:
        if w == "properties":
            s, d = {"properties": {"k": s}}, {"k": d}
        elif w == "odd":
            s, d = {"properties": {"a/b[0]": s}, "type": "object"}, {"a/b[0]": d, "z": 1}
        elif w == "items":
            s, d = {"items": s}, [d, d]
        else:
            s = {"allOf": [{}, s]}
    return s, d


def malformed():
    one = [{k: v} for k in NUMBERS for v in ("a", True, None, [], {})]
    one += [{"multipleOf": v} for v in (0, -1, -0.5)]
    one += [{"type": v} for v in ("int", "", "Object", ["string", "int", "number"], ["x"], ["array", "any"], 1, {}, True, ["string", {}], [None, "integer"], [[]])]
    one += [{k: v} for k in ("enum", "allOf", "anyOf", "oneOf", "required") for v in ("a", 1, True, {})]
    one += [{"required": [1]}, {"required": [True]}, {"required": [None, 2]}, {"uniqueItems": 1}, {"uniqueItems": "true"}, {"pattern": 1}, {"pattern": "("}, {"pattern": ["a"]}]
    one += [{k: v} for k in ("properties", "patternProperties", "dependencies") for v in ("a", 1, [], True)]
    one += [{"patternProperties": {"a": {}, "(": {}}}, {"dependencies": {"a": 1}}, {"dependencies": {"b": 1, "ab": True}}]
    ways = [()] + [(w,) for w in ("properties", "odd", "items", "allOf")] + [("properties", "items"), ("items", "allOf", "odd")]
    # whether a bad type is noticed when another one fits is open
    fits = lambda s, d: isinstance(s.get("type"), list) and any(t in s["type"] for t in TYPES[type(d)])
    return [(s, d, w) for s in one for d in DATA for w in ways if not fits(s, d)]


def small(rng, quick):
    """all pairs of keywords on small data, in every wrapping"""
    vals = [{"type": "integer"}, {"type": ["string", "null"]}, {"enum": [1, "a"]}, {"multipleOf": 2}, {"minimum": 1}, {"minimum": 1, "exclusiveMinimum": True}, {"maximum": 1},
            {"maximum": 0, "exclusiveMaximum": True}, {"minLength": 1}, {"maxLength": 1}, {"pattern": "^a"}, {"items": {"type": "integer"}}, {"items": [{"minimum": 2}, {"type": "string"}]},
            {"items": [{}], "additionalItems": False}, {"items": [{}], "additionalItems": {"type": "null"}}, {"minItems": 1}, {"maxItems": 1}, {"uniqueItems": True},
            {"properties": {"a": {"type": "string"}, "ab": {"minLength": 2}}}, {"patternProperties": {"^a": {"maximum": 0}, "b": {"type": "null"}}}, {"additionalProperties": False},
            {"properties": {"a": {}}, "additionalProperties": {"type": "null"}}, {"required": ["a", "z"]}, {"required": ["q", "a", "r"]}, {"minProperties": 1}, {"maxProperties": 1},
            {"dependencies": {"a": ["ab", "y"]}}, {"dependencies": {"ab": {"maxProperties": 1}}}, {"allOf": [{"type": "number"}, {"minLength": 3}]},
            {"anyOf": [{"type": "null"}, {"minimum": 2, "maxLength": 0, "minItems": 3, "minProperties": 3}]}, {"oneOf": [{"type": "null"}, {"enum": []}, {"type": "boolean"}]},
            {"oneOf": [{}, {"type": "string"}]}, {"not": {}}, {"not": {"type": "string"}}, {"anyOf": [{"anyOf": [{"type": "null"}]}, {"oneOf": [{"not": {}}]}]},
            {"anyOf": [{"properties": {"a": {"type": "null"}}, "items": {"type": "null"}, "minLength": 9, "minimum": 9}]}]
    datas = DATA + [None, True, [2, 2], ["a", 3, None], {"b": None}]
    out = []
    for a, b in itertools.combinations(range(len(vals)), 2):
        if set(vals[a]) & set(vals[b]):
            continue
        s = dict(vals[a], **vals[b])
        out += [(s, d) for d in datas]
    return [(v, d) for v in vals for d in datas] + (rng.sample(out, 3000) if quick else out)


def run():
    c = Check("P28", ["ops_report"])
    c.model("faults", "MCReport", "MCReport.cfg", env={"MAXKW": "2" if c.quick else "3"})
    rng = c.rng("cases")
    rep = lambda x: dict(x, op="report")
    cs = []
    for s, d in small(rng, c.quick):
        cs.append(rep(p18.case(rng, s, d)))
        if rng.random() < 0.4:
            s, d = wrapped(s, d, [rng.choice(["properties", "odd", "items", "allOf"]) for _ in range(rng.choice([1, 2]))])
            cs.append(rep(p18.case(rng, s, d)))
    c.validate("pairs", "TraceReport", cs)
    bad = []
    for s, d, w in malformed():
        s, d = wrapped(s, d, w)
        bad.append(dict(rep(p18.case(rng, s, d)), bad=True))
    c.validate("malformed", "TraceReport", bad)
    c.validate("random", "TraceReport", [rep(p18.described(rng)) if rng.random() < 0.93 else rep(p18.recursive(rng)) for _ in range(c.n(4000, 40000))])
    return c.finish()
