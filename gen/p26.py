"""P26: settings of emitters."""
import itertools
from vf import Check
from vals import *
import numgen

WORDS = ["word", "some", "text", "house", "x", "ab", "tree", "lane"]
STYLE = ["any", "block", "flow"]
SCALAR = ["any", "plain", "single quoted", "double quoted", "literal", "folded"]
KEYS = {"json": {"pretty": "b", "strict": "b", "indent": "n", "precision": "p"}, "xml": {"pretty": "b", "indent": "n", "precision": "p"},
        "yaml": {"implicit_document_begin": "b", "implicit_document_end": "b", "indent": "y", "width": "w", "precision": "p", "scalar_style": "q", "map_style": "s", "list_style": "s"},
        "bundle": {"precision": "p"}}


def setting(rng, f):
    if rng.random() < 0.05:
        return [rng.choice(["other", "Pretty", "", "inden"]), rng.choice([I(1), S("x"), Bo(True)])]
    k = rng.choice(sorted(KEYS[f]))
    n = lambda *a: rng.choice([I, U])(rng.choice(a))
    t = KEYS[f][k]
    return [k, Bo(rng.random() < 0.6) if t == "b" else n(0, 1, 2, 3, 4, 8, 13, 40, 64, 130) if t == "n" else n(1, 2, 3, 5, 6, 10, 15, 16, 17) if t == "p" else
            n(1, 2, 2, 3, 4, 4, 7, 9, 50) if t == "y" else n(1, 3, 20, 30, 40, 79, 200) if t == "w" else S(rng.choice(SCALAR if t == "q" else STYLE))]


def doc(rng, f, d=3):
    r = rng.random()
    if d == 0 or r < 0.3:
        return rng.choice([S(rng.choice(WORDS)), S(rng.choice(WORDS)), N("I", rng.choice([0, 5, -12, 1000])), Bo(True), NULL]) if f != "words" else S(rng.choice(WORDS))
    n = rng.choice([0, 1, 1, 2, 3])
    if f == "words":
        return M({k: doc(rng, f, d - 1) for k in rng.sample(WORDS, max(1, n))})
    if r < 0.65:
        return L([doc(rng, f, d - 1) for _ in range(n)])
    return M({k: doc(rng, f, d - 1) for k in rng.sample(WORDS, n)})


def merged(f, create, calls):
    m = {}
    for k, v in create + [x for c in calls for x in ([[c["k"], c["v"]]] if c["o"] == "set" else c["l"] if c["o"] == "setall" else [])]:
        m[k] = v
    return [[k, m[k]] for k in sorted(m)]


def uniq(l):
    return [[k, dict(l)[k]] for k in sorted({k for k, _ in l})] if l else []


def case(rng):
    f = rng.choice(["json", "json", "yaml", "yaml", "yaml", "xml", "bundle"])
    create = uniq([setting(rng, f) for _ in range(rng.choice([0, 0, 1, 2, 4]))])
    calls = []
    for _ in range(rng.choice([0, 1, 2, 4, 6])):
        o = rng.choice(["set", "set", "setall", "get", "getall"])
        if o == "set":
            k, v = setting(rng, f)
            calls.append({"o": o, "k": k, "v": v})
        elif o == "setall":
            calls.append({"o": o, "l": uniq([setting(rng, f) for _ in range(rng.choice([0, 1, 2, 3]))])})
        elif o == "get":
            calls.append({"o": o, "k": rng.choice(sorted(KEYS[f]) + ["other"])})
        else:
            calls.append({"o": o})
    last = {k: v["i"] for k, v in merged(f, create, calls) if k in ("width", "indent")}
    if f == "yaml" and (last.get("width", 20) < 20 or not 2 <= last.get("indent", 2) <= 9):
        # what YAML cannot do is only told, and replaced before anything is written
        calls.append({"o": "setall", "l": [["indent", U(rng.choice([2, 4, 9]))], ["width", U(rng.choice([20, 40, 200]))]]})
    calls.append({"o": "getall"})
    kind = rng.choice(["layout", "layout", "num"])
    v = None
    if f == "bundle" or kind == "num":
        kind = "num"
        x = rng.choice([N("F", (rng.randint(-10**6, 10**6), rng.choice([-20, -10, -3, 0]))), N("F", (rng.getrandbits(53), rng.choice([-80, -60, -53, -40, 0, 30]))), N("F", (rng.choice([5, 15, 25, 1, 3, 99999, 999999]), rng.choice([-1, -2, -3, 0]))), N("F", rng.choice([0, 1, 10, 100000, 999999, 10**15]))])
        v = M({"k": x})
    elif f == "json" and rng.random() < 0.25:
        kind, v = "plain", rng.choice([M({"k": N("F", float("inf"))}), L([N("F", float("-inf"))]), M({"k": L([D(b"abc")])}), L([{"t": "F", "k": "nan"}])])
    elif f == "yaml" and rng.random() < 0.5:
        v = doc(rng, "words", 3)
        if v["t"] != "M":
            v = M({"tree": v})
        if rng.random() < 0.4:
            kind, v = "layout", M({"k": S(" ".join(rng.choice(WORDS) for _ in range(60)))})
    else:
        v = doc(rng, f)
        if v["t"] not in "LM":
            v = L([v])
    return {"op": "settings", "f": f, "create": create, "calls": calls, "final": merged(f, create, calls), "kind": kind, "doc": v, "via": rng.randrange(2)}


def matrix():
    """all small settings, given at once, one after the other or over others"""
    docs = [M({"tree": M({"ab": S("word"), "x": M({"some": S("x")})})}), L([L([]), M({"x": L([S("ab"), M({})])})]), M({"x": L([NULL, M({"ab": Bo(True)})]), "text": M({})})]
    b, n = [Bo(False), Bo(True)], lambda *a: [U(x) for x in a]
    sets = {"json": {"pretty": b, "strict": b, "indent": n(0, 1, 2, 4)}, "xml": {"pretty": b, "indent": n(0, 1, 2, 4)},
            "yaml": {"implicit_document_begin": b, "implicit_document_end": b, "map_style": [S(x) for x in STYLE], "list_style": [S(x) for x in STYLE], "scalar_style": [S(x) for x in SCALAR], "indent": n(2, 4)}}
    cs = []
    for f in sorted(sets):
        ks = sorted(sets[f])
        for combo in itertools.product(*[sets[f][k] for k in ks]):
            l = [[k, v] for k, v in zip(ks, combo)]
            for j, d in enumerate(docs):
                h = (len(cs) + j) % 3
                create = l if h == 0 else [[k, sets[f][k][-1]] for k in ks] if h == 1 else []
                calls = [] if h == 0 else [{"o": "setall", "l": l}] if h == 1 else [{"o": "set", "k": k, "v": v} for k, v in l]
                calls = calls + [{"o": "get", "k": k} for k in ks] + [{"o": "getall"}]
                cs.append({"op": "settings", "f": f, "create": create, "calls": calls, "final": merged(f, create, calls), "kind": "layout", "doc": d, "via": len(cs) % 2})
    return cs


def run():
    c = Check("P26", ["ops_settings", "io"])
    c.model("rules", "MCSettings", "MCSettings.cfg")
    c.validate("matrix", "TraceSettings", matrix())
    rng = c.rng("random")
    c.validate("random", "TraceSettings", [case(rng) for _ in range(c.n(6000, 60000))])
    return c.finish()
