"""P13: how input is delivered."""
import itertools
from vf import Check
from vals import *
import p08
import p10
import p11
import p12

WHOLE = ["dstr", "dcstr", "dptr", "dname", "dfile", "mem", "name", "file", "ubfile", "sb", "nstr", "ncstr", "nptr", "nname", "nfile"]
YAML = ["a: 1\nb: [x, 'y', \"z\\n\"]\n", "- a\n- b: c\n  d: |\n    lit\n    eral\n", "--- &x [1, *x]\n", "plain", "'quoted'", "{a: b, c: [1, 2.5, null]}", "# comment\n---\na\n...\n", "\"\\u20ac é €\"",
        "a: &p {q: 1}\nb: *p\n", "? x\n: y\n", "key: >\n  folded\n  text\n", "[a, b", "{a: ", "a: b: c", "\t- x", "%YAML 1.1\n---\nx\n", "- - - deep\n", "\r\na: 1\r\nb: 2\r\n", "é€: \U0001d11e\n"]
MULTI = ["--- 1\n--- 2\n--- 3\n", "a\n---\nb\n...\n---\nc\n", "--- [x]\n...\n--- {y: z}\n", "", "---\n", "--- a\n--- [", "1"]
BUNDLE = ["bundle.version: 0.0\nid: 1\npayload.length: 40\n", "a: 1\nb: x|y|\n# c\n\nz : 5 # t", "a:1\r\nb:2\r\n", "key\n", "é: €\n", "a: " + "x" * 5000 + "\nb: 2\n", "a: 1"]
GUESS = ["<plist><integer>5</integer></plist>", "  \n\t<plist/>", "[1, 2]", "{\"a\": 1}", "\n\n- x\n", "", " ", "\n\t ", "<", "a", " <plist><array/></plist>", "\f\v<plist><string>x</string></plist>", "&"]


def via(k, q=(), b=8):
    return {"k": k, "q": list(q), "b": b}


def json_doc(rng):
    b = p08.cases(rng, 1)[0]["s"]
    return bytes(b)


def xml_doc(rng):
    t = "<plist>" + x(rng, rng.choice([0, 1, 2, 3])) + "</plist>"
    return (rng.choice(["", '<?xml version="1.0" encoding="UTF-8"?>\n', "<?xml version='1.0'?><!DOCTYPE plist PUBLIC \"-//A//B\" \"http://x/y.dtd\">\n", "<!-- é -->"]) + t + rng.choice(["", "\n"])).encode()


def x(rng, d):
    g = lambda: rng.choice(["", "", "\n ", "<!-- c -->"])
    if d == 0 or rng.random() < 0.3:
        return rng.choice(["<string>a&amp;b</string>", "<string>é€\U0001d11e</string>", "<integer>-12</integer>", "<real>2.5</real>", "<true/>", "<false></false>", "<string/>", "<string><![CDATA[<x>]]></string>",
                           "<data>AAEC\n</data>", "<string>" + "w" * rng.choice([10, 300]) + "</string>", "<null/>", "<string>&#233;</string>"])
    if rng.random() < 0.5:
        return "<array>" + "".join(g() + x(rng, d - 1) for _ in range(rng.choice([0, 1, 2, 4]))) + g() + "</array>"
    return "<dict>" + "".join(g() + "<key>%s</key>" % rng.choice(["a", "b", "é", "k y"]) + g() + x(rng, d - 1) for _ in range(rng.choice([0, 1, 2, 3]))) + g() + "</dict>"


def yaml_doc(rng):
    return "".join(rng.choice(YAML) if rng.random() < 0.7 else rng.choice(MULTI) for _ in range(rng.choice([1, 1, 1, 2]))).encode()


def bundle_doc(rng):
    return bytes(p12.lines(rng, 1)[0]["s"]) if rng.random() < 0.7 else rng.choice(BUNDLE).encode()


def mutated(rng, b):
    return p08.mutate(rng, b) if rng.random() < 0.3 else b


def no_nul(b):
    return b.replace(b"\0", b"")


def splits(rng, n, many):
    """Schedules of short reads."""
    out = [via("psb", [1]), via("ps", [1], 1), via("ps", [1], 8192), via("ex", [1]), via("dsb", [1]), via("nsb", [1])]
    for _ in range(many):
        k = rng.choice(["psb", "ps", "ps", "ex", "dsb", "nsb"])
        q = [rng.choice([1, 1, 2, 3, 4, 5, 7, 16, 100, 4095, 4096, 4097]) for _ in range(rng.choice([1, 2, 3, 6]))]
        out.append(via(k, q, rng.choice([1, 2, 3, 5, 8, 16, 100, 4096])))
    cut = rng.randrange(1, n) if n > 1 else 1
    return out + [via("ps", [cut, 1 << 20], 1 << 16), via("ex", [cut, 1 << 20]), via("psb", [cut, 1 << 20])]


def case(rng, f, b, many=6, all_=False):
    b = no_nul(b)
    return {"op": "deliver", "f": f, "s": list(b), "all": all_, "ds": [via(k) for k in WHOLE] + splits(rng, len(b), many)}


DOC = {"json": json_doc, "xml": xml_doc, "yaml": yaml_doc, "bundle": bundle_doc}


def documents(rng, n):
    cs = []
    for _ in range(n):
        f = rng.choice(["json", "json", "xml", "yaml", "bundle", "guess"])
        if f == "guess":
            b = rng.choice(GUESS).encode() if rng.random() < 0.4 else rng.choice(["", " ", "\n\n"]).encode() + DOC[rng.choice(["xml", "json", "yaml"])](rng)
        else:
            b = DOC[f](rng)
        cs.append(case(rng, f, mutated(rng, b)))
    return cs


def every_cut(rng, quick):
    """Every position a small document can be split at, every pair of positions for a few."""
    cs = []
    docs = [("json", '{"a": [1.5e3, "x\\u20ac\\ud834\\udd1e", true, null]}'), ("json", "[-12]"), ("json", "/*c*/[\"é€\"]"), ("json", "[1,"), ("yaml", YAML[0]), ("yaml", YAML[7]), ("yaml", YAML[18]), ("yaml", YAML[6]),
            ("xml", "<?xml version='1.0'?><plist><dict><key>é</key><string>a&amp;b&#x20ac;</string></dict></plist>"), ("xml", "<plist><array><![CDATA[]]><real>1</real></array></plist>"), ("xml", "<plist><integer>1</integer>"),
            ("bundle", BUNDLE[1]), ("bundle", "a: 1\n"), ("guess", "  <plist><true/></plist>"), ("guess", "  [1]"), ("guess", "   ")]
    for f, t in docs:
        b = list(t.encode())
        for k in range(1, len(b)):
            cs.append({"op": "deliver", "f": f, "s": b, "all": False, "ds": [via("dstr")] + [via(i, [k, 1 << 20], c) for i, c in (("ps", 1), ("ps", k), ("ps", len(b)), ("ps", 8192), ("ex", 1), ("psb", 1))]})
        ks = list(range(1, len(b)))
        pairs = [(i, j) for i in ks for j in ks if i + j < len(b)]
        if quick:
            pairs = rng.sample(pairs, min(60, len(pairs)))
        for i, j in pairs:
            cs.append({"op": "deliver", "f": f, "s": b, "all": False, "ds": [via("dstr"), via("ps", [i, j, 1 << 20], 1 + (i * j) % 20), via("ex", [i, j, 1 << 20])]})
        # every truncation
        for k in range(len(b)):
            cs.append({"op": "deliver", "f": f, "s": b[:k], "all": False, "ds": [via(w) for w in WHOLE] + [via("ps", [1], 3), via("ex", [1]), via("dsb", [2])]})
    return cs


def long_documents(rng, n):
    """Tokens at the edges of the buffers of the library."""
    cs = []
    for _ in range(n):
        f = rng.choice(["json", "json", "xml", "yaml", "bundle", "guess"])
        edge = rng.choice([4096, 8192, 8192, 16384]) + rng.randint(-40, 10)
        if f == "bundle":
            b = b"# " + b"c" * edge + b"\n" + bundle_doc(rng)
        elif f == "guess":
            b = b" " * edge + rng.choice([b"[1, 2]", b"<plist><true/></plist>", b"", b"x"])
        elif f == "xml":
            b = b"<plist><array><string>" + b"s" * edge + b"</string>" + x(rng, 2).encode() + b"</array></plist>"
        elif f == "yaml":
            b = b"- \"" + b"s " * (edge // 2) + b"\"\n- [1, 2.5, 'x', \xe2\x82\xac]\n"
        elif rng.random() < 0.5:
            b = b"[" + b" " * edge + b"12345.5e3,\"a\\u20ac\",true]"
        else:
            b = b"[\"" + b"s" * edge + b"\\u20ac\xe2\x82\xac\", 1.5]"
        cs.append({"op": "deliver", "f": f, "s": list(mutated(rng, b)) if rng.random() < 0.1 else list(b), "all": False,
                   "ds": [via(k) for k in WHOLE] + [via("ps", [rng.choice([1, 7, 100, 4096])], rng.choice([1, 64, 8192])), via("ex", [rng.choice([1, 100])]), via("dsb", [rng.choice([100, 4095, 8191])])]})
    return cs


def multi(rng, n):
    cs = []
    for _ in range(n):
        b = "".join(rng.choice(MULTI) if rng.random() < 0.6 else "--- " + rng.choice(["a\n", "[1]\n", "{b: c}\n", "\"x\"\n", "|\n  t\n"]) for _ in range(rng.choice([1, 2, 3]))).encode()
        cs.append(case(rng, "yaml", mutated(rng, b), 4, True))
    return cs


GETS = [{"k": "get", "n": n} for n in (0, 1, 2, 5)]
RELS = [{"k": "rel", "n": n} for n in (1, 2, 9)]


def calls_exhaustive(depth):
    k = 0
    for n in (0, 1, 3, 6):
        s = list(range(97, 97 + n))
        for a in itertools.product(GETS + RELS, repeat=depth):
            if a[0]["k"] == "rel":
                continue
            k += 1
            kinds = [via("mem"), via("sb"), via("psb", [1 + k % 3]), via("ps", [1 + k % 2], 1 + k % 4), via("ps", [2, 1], 2), via("name"), via("ex", [1]), via("ps", [1], 1)]
            yield {"op": "input", "s": s, "a": list(a), "iv": kinds[k % 8]}
            yield {"op": "input", "s": s, "a": list(a), "iv": kinds[(k // 8) % 8]}


def calls(rng, n):
    cs = []
    for _ in range(n):
        m = rng.choice([0, 1, 2, 10, 50, 100, 300, 8190, 8192, 8193, 9000]) if rng.random() < 0.2 else rng.randrange(60)
        s = [rng.randrange(256) for _ in range(m)]
        a = []
        for _ in range(rng.choice([3, 6, 12, 25])):
            big = rng.choice([0, 0, 1, 1, 2, 3, 5, 8, 13, 40, 100, m, m + 1, 2**31 - 1, 2**32 - 1])
            a.append({"k": "get", "n": big} if rng.random() < 0.55 else {"k": "rel", "n": rng.choice([0, 1, 2, 3, 8, 20, 8191, 8192, 100000])})
        a.append({"k": "get", "n": 0})
        cs.append({"op": "input", "s": s, "a": a, "iv": via(rng.choice(["mem", "name", "file", "ubfile", "sb", "psb", "ps", "ps", "ps"]), [rng.choice([1, 2, 3, 5, 64, 8192]) for _ in range(rng.choice([1, 3]))], rng.choice([1, 2, 3, 7, 8, 16, 64, 8192]))})
    return cs


def run():
    c = Check("P13", ["ops_input", "io"])
    c.model("buffer", "MCInput", "MCInput.cfg")
    c.validate("calls-exhaustive", "TraceInput", list(calls_exhaustive(c.n(4, 5))))
    c.validate("calls", "TraceInput", calls(c.rng("calls"), c.n(3000, 40000)))
    c.validate("every-cut", "TraceInput", every_cut(c.rng("cut"), c.quick))
    c.validate("documents", "TraceInput", documents(c.rng("documents"), c.n(1500, 25000)))
    c.validate("long", "TraceInput", long_documents(c.rng("long"), c.n(80, 1500)))
    c.validate("streams-of-documents", "TraceInput", multi(c.rng("multi"), c.n(500, 6000)))
    return c.finish()
