"""P30: the varsh program."""
from vf import Check
from vals import *
from p24 import flattenable, full

KEYS = ["a", "b", "c", "key", "x y", "é", "0"]
SCAL = [NULL, Bo(True), Bo(False), I(0), I(-7), I(5), I(1000), F(0.5), F(-2.25), S(""), S("x"), S("true"), S("12"), S("a: b"), S("é<&>"), S("two words")]
SETS = [("5", I(5)), ("-3", I(-3)), ("word", S("word")), ("0.5", F(0.5)), ("two words", S("two words")), ("", S(""))]
TYPES = {"N": "null", "B": "boolean", "I": "integer", "F": "number", "S": "string", "L": "array", "M": "object"}


def some_path(rng, v):
    """(elements, text): mostly one that exists"""
    es = []
    while v is not None and (not es or rng.random() < 0.7):
        if v["t"] == "M" and v["m"] and rng.random() < 0.96:
            k, v = rng.choice(v["m"])
            es.append({"t": "S", "s": k})
        elif v["t"] == "L" and v["l"] and rng.random() < 0.96:
            j = rng.randrange(len(v["l"]))
            v = v["l"][j]
            es.append({"t": "U", "w": B(str(j))})
        else:
            es.append({"t": "S", "s": B(rng.choice(KEYS))} if rng.random() < 0.5 else {"t": "U", "w": B(str(rng.randrange(5)))})
            v = None
    text = []
    for e in es:
        text += B("/") + e["s"] if e["t"] == "S" else B("[") + e["w"] + B("]")
    if text[0] == 47 and rng.random() < 0.6:
        text = text[1:]
    return es, text


def varied(rng, v):
    """with one member or element more or another"""
    x = value(rng, 1, KEYS, SCAL, 3, 0.5)
    if v["t"] == "M":
        k = B(rng.choice(KEYS))
        return {"t": "M", "m": sorted([e for e in v["m"] if e[0] != k] + [[k, x]], key=lambda e: bytes(e[0]))}
    return L(v["l"] + [x]) if v["t"] == "L" else x


def flat(v, p, pre, out):
    if v["t"] not in "LM" or (p["simple"] and v["t"] == "L" and all(x["t"] not in "LM" for x in v["l"])):
        out.append([pre, v])
    elif v["t"] == "L":
        for j, x in enumerate(v["l"]):
            flat(x, p, pre + p["ip"] + B(str(j)) + p["is"], out)
    else:
        for k, x in v["m"]:
            flat(x, p, (pre + p["pd"] if pre else p["pp"]) + k, out)
    return out


def case(rng):
    o = {"schemas": [], "bad": False}
    argv, files, names = [], [], []
    def opt(name, *val):
        if val and rng.random() < 0.5:
            argv.append(B(name) + B("=") + val[0])
        else:
            argv.append(B(name))
            argv.extend(val)
    n = rng.choice([1, 1, 1, 2, 3])
    doc = value(rng, 3, KEYS, SCAL, 4, 0.8)
    if doc["t"] not in "LM" and rng.random() < 0.7 or rng.random() < 0.3:
        doc = M({k: value(rng, 2, KEYS, SCAL, 3, 0.7) for k in rng.sample(KEYS, rng.randint(1, 4))})
    r = rng.random()
    if r < 0.2:
        p = {"pd": B(rng.choice("/.:")), "pp": [], "ip": B("["), "is": B("]"), "ld": B(","), "simple": rng.random() < 0.5}
        doc = full(rng, 3, ["a", "b", "key", "zz"], SCAL)
        if doc["t"] == "M" and flattenable(doc, p["simple"]):
            o["P"] = p
            if r < 0.1:
                o["flat"] = "flatten"
                opt(rng.choice(["-f", "--flatten-path"]))
            else:
                o["flat"], o["orig"] = "expand", doc
                doc = {"t": "M", "m": sorted(flat(doc, p, [], []), key=lambda x: bytes(x[0]))}
                opt(rng.choice(["-e", "--expand-path"]))
                n = 1
            if p["pd"] != B("/") or rng.random() < 0.3:
                opt("--path-delimiter", p["pd"])
            if not p["simple"]:
                opt("--no-simple-lists", B("true"))
    o["in"] = rng.choice(["guess", "guess", "json", "yaml", "plist"])
    if o["in"] != "guess" or rng.random() < 0.2:
        opt({"guess": rng.choice(["-G", "--guess"]), "json": rng.choice(["-J", "--json-in"]), "yaml": rng.choice(["-Y", "--yaml-in"]), "plist": rng.choice(["-X", "--xml-in"])}[o["in"]])
    fmts = {"guess": ["json", "yaml", "plist"], "json": ["json"], "yaml": ["yaml", "json"], "plist": ["plist"]}[o["in"]]
    for k in range(n):
        f = {"name": B("f%d" % k), "fmt": rng.choice(fmts), "v": doc if k == 0 or "flat" in o or rng.random() < 0.4 else varied(rng, doc) if rng.random() < 0.6 else value(rng, 2, KEYS, SCAL, 3, 0.8)}
        if k or "flat" not in o:
            if rng.random() < 0.06:
                f = {"name": f["name"], "fmt": "raw", "raw": B({"guess": '{"a": [', "yaml": '{"a": [', "json": '{"a": 1', "plist": "<plist><dict>"}[o["in"]])}
            elif rng.random() < 0.04 and o["in"] == "json":
                f["fmt"] = "plist"
            elif rng.random() < 0.04 and o["in"] == "plist":
                f["fmt"] = "json"
        files.append(f)
        names.append(f["name"])
    shaped = o.get("orig", doc) if o.get("flat") != "flatten" else NULL
    if rng.random() < 0.5 and not (o.get("flat") == "flatten"):
        o["path"], text = some_path(rng, shaped)
        opt("--path", text)
    r = rng.random()
    if r < 0.2:
        text, o["set"] = rng.choice(SETS)
        opt("--set", B(text))
    elif r < 0.35:
        o["setfile"] = B("sf")
        if rng.random() < 0.9:
            files.append({"name": B("sf"), "fmt": rng.choice(["json", "yaml", "plist"]), "v": value(rng, 2, KEYS, SCAL, 3, 0.7)})
        opt("--set-file", B("sf"))
    elif r < 0.5:
        o["show"] = "list"
        opt("--list")
    elif r < 0.65:
        o["show"] = "length"
        opt("--length")
    if rng.random() < 0.25:
        for k in range(rng.choice([1, 1, 2])):
            s, m = {}, {}
            if rng.random() < 0.6:
                t = TYPES.get(shaped["t"], "object") if rng.random() < 0.7 else rng.choice(["object", "array", "string"])
                if t not in ("number", "integer"):
                    s["type"], m["type"] = t, S(t)
            if rng.random() < 0.5:
                key = rng.choice(KEYS)
                s["need"], m["required"] = B(key), L([S(key)])
            o["schemas"].append(s)
            files.append({"name": B("s%d.json" % k), "fmt": "json", "v": M(m)})
            opt("--schema", B("s%d.json" % k))
    c = {"op": "varsh", "files": files, "keep": rng.random() < 0.15}
    if c["keep"]:
        argv.extend([B("-o"), B("kept")] if rng.random() < 0.5 else [B("--out=kept")])
    multi = n > 1
    out = "json" if multi else rng.choice(["json", "json", "yaml", "plist"])
    if out != "json" or rng.random() < 0.3:
        opt({"json": rng.choice(["-j", "--json"]), "yaml": rng.choice(["-y", "--yaml"]), "plist": rng.choice(["-x", "--xml"])}[out])
    c["as"] = "lines" if "show" in o else "jsons" if multi else out
    if multi or rng.random() < 0.3:
        opt("--pretty", B("false"))
    elif rng.random() < 0.3:
        opt("--indent", B(str(rng.choice([0, 1, 2, 7]))))
    if n == 1 and rng.random() < 0.5:
        c["input"] = names[0]
        o["inputs"] = names
    else:
        if rng.random() < 0.1:
            names = names[:]
            names.insert(rng.randrange(len(names) + 1), B("none"))
        o["inputs"] = names
        argv.extend(names)
    if rng.random() < 0.05:
        o["bad"] = True
        argv[:0] = rng.choice([[B("-J"), B("-Y")], [B("--list"), B("--length")], [B("--set=1"), B("--list")], [B("-j"), B("-y")], [B("--path-delimiter=//")], [B("-x"), B("-y")], [B("-G"), B("-X")], [B("--indent=-1")]])
    c["o"], c["argv"] = o, argv
    return c


def run():
    c = Check("P30", ["ops_varsh"])
    c.model("program", "MCVarsh", "MCVarsh.cfg", env={"DEPTH": c.n("1", "2")})
    rng = c.rng("varsh")
    c.validate("runs", "TraceVarsh", [case(rng) for _ in range(c.n(6000, 30000))])
    return c.finish()
