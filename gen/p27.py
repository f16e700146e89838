"""P27: parsers run step by step, queried, reset, with handlers pushed and popped on the way."""
import itertools
import json
from vf import Check
from vals import *

STR = ["", "a", "b c", "true", "12", "x" * 40, "é", "-", "null", "#", "k: v", "|"]
KEYS = ["a", "b", "key", "k2", "é", "z"]


def scalar(rng):
    return rng.choice([NULL, Bo(True), Bo(False), I(rng.choice([0, 1, -7, 12, 1000, -2**63])), F(rng.choice([0.5, -2.25, 1024.0])), S(rng.choice(STR))])


def nest(rng, d):
    r = rng.random()
    if d == 0 or r < 0.4:
        return scalar(rng)
    n = rng.choice([0, 1, 2, 3])
    if r < 0.7:
        return L([nest(rng, d - 1) for _ in range(n)])
    # members stay in the order of the text
    return {"t": "M", "m": [[B(k), nest(rng, d - 1)] for k in rng.sample(KEYS, n)]}


def num(v):
    return str(v["i"] if "i" in v else v["w"]) if v["t"] in "IU" else repr(v["q"] / 1024)


def text_json(rng, v):
    ws = lambda: rng.choice(["", "", "", " ", "\n", "\t "])
    t = v["t"]
    if t == "L":
        return "[" + ws() + ("," + ws()).join(text_json(rng, x) + ws() for x in v["l"]) + "]"
    if t == "M":
        return "{" + ws() + ("," + ws()).join(json.dumps(bytes(k).decode()) + ws() + ": " + text_json(rng, x) + ws() for k, x in v["m"]) + "}"
    if t == "S":
        return json.dumps(bytes(v["s"]).decode(), ensure_ascii=rng.random() < 0.5)
    return {"N": "null", "B": "true" if v.get("b") else "false"}.get(t) or num(v)


def block(rng, v, ind):
    """block style; the caller has written the indentation of the first line"""
    pad = " " * ind
    if v["t"] == "L" and v["l"] and rng.random() < 0.8:
        return ("\n" + pad).join("- " + block(rng, x, ind + 2) for x in v["l"])
    if v["t"] == "M" and v["m"] and rng.random() < 0.8:
        out = []
        for k, x in v["m"]:
            b = block(rng, x, ind + 2)
            # containers start on a line of their own
            out.append(bytes(k).decode() + ":" + ((" " + b) if x["t"] not in "LM" or b[0] in "[{" else "\n" + pad + "  " + b))
        return ("\n" + pad).join(out)
    return text_flow(v)


def text_flow(v):
    t = v["t"]
    if t == "L":
        return "[" + ", ".join(text_flow(x) for x in v["l"]) + "]"
    if t == "M":
        return "{" + ", ".join(json.dumps(bytes(k).decode(), ensure_ascii=False) + ": " + text_flow(x) for k, x in v["m"]) + "}"
    if t == "S":
        return json.dumps(bytes(v["s"]).decode(), ensure_ascii=False)
    return {"N": "null", "B": "true" if v.get("b") else "false"}.get(t) or num(v)


def esc(b):
    return bytes(b).decode().replace("&", "&amp;").replace("<", "&lt;")


def text_xml(rng, v):
    ws = lambda: rng.choice(["", "", "\n", " "])
    t = v["t"]
    if t == "L":
        return "<array/>" if not v["l"] and rng.random() < 0.5 else "<array>" + ws() + "".join(text_xml(rng, x) + ws() for x in v["l"]) + "</array>"
    if t == "M":
        return "<dict/>" if not v["m"] and rng.random() < 0.5 else "<dict>" + ws() + "".join("<key>" + esc(k) + "</key>" + ws() + text_xml(rng, x) + ws() for k, x in v["m"]) + "</dict>"
    if t == "S":
        return "<string>" + esc(v["s"]) + "</string>"
    empty = lambda n: rng.choice(["<%s/>", "<%s></%s>"]).replace("%s", n)
    if t == "N":
        return empty("null")
    if t == "B":
        return empty("true" if v["b"] else "false")
    return ("<integer>%s</integer>" if t in "IU" else "<real>%s</real>") % num(v)


def bundle_value(rng):
    one = lambda: rng.choice([I(rng.choice([0, 5, -3, 77])), S(rng.choice(["a", "word", "two words"])), F(0.5)])
    return one() if rng.random() < 0.6 else L([one() for _ in range(rng.choice([1, 2, 3]))])


def bundle_text(v):
    one = lambda x: bytes(x["s"]).decode() if x["t"] == "S" else num(x)
    out = ""
    for k, x in v["m"]:
        out += bytes(k).decode() + ": " + (one(x) if x["t"] != "L" else "".join(one(y) + "|" for y in x["l"])) + "\n"
    return out


def segment(rng, f, bad):
    if f == "bundle":
        docs = [{"t": "M", "m": [[B(k), bundle_value(rng)] for k in rng.sample(KEYS, rng.choice([1, 2, 3]))]}] if rng.random() < 0.9 else []
        return {"docs": docs, "bad": False, "text": B("".join(bundle_text(d) for d in docs))}
    docs = [nest(rng, rng.choice([1, 2, 3])) for _ in range(rng.choice([0, 1, 1, 2, 3]) if f == "yaml" else 1)]
    if f == "json" or bad:
        docs = [d if d["t"] in "LM" else L([d]) for d in docs] or [L([NULL])]
    if f == "json":
        t = rng.choice(["", " ", "\n"]) + text_json(rng, docs[0]) + "\n"
    elif f == "yaml":
        t = ""
        for j, d in enumerate(docs):
            b = text_flow(d) if bad or rng.random() < 0.4 else block(rng, d, 0)
            t += "---" + (" " if b[0] in "[{\"" and rng.random() < 0.5 else "\n") + b + "\n"
    else:
        t = rng.choice(["", "<?xml version=\"1.0\"?>\n"]) + "<plist>" + rng.choice(["", "\n"]) + text_xml(rng, docs[0]) + rng.choice(["", "\n"]) + "</plist>" + rng.choice(["", "\n"])
    t = t.encode()
    if bad:
        # cut where something is still open
        lo = t.rindex(b"---") + 5 if f == "yaml" else t.index(b"<plist>") + 1 if f == "xml" else len(t) - len(t.lstrip()) + 1
        hi = len(t.rstrip()) - 1
        cut = rng.randrange(lo, hi + 1)
        while cut < hi and t[cut] & 0xc0 == 0x80:
            cut += 1
        t = t[:cut]
        if f == "yaml" and t.count(b"---") and not t[t.rindex(b"---"):].strip(b"- \n"):
            return segment(rng, f, False)
    return {"docs": docs, "bad": bad, "text": list(t)}


def case(rng, f):
    cont = f == "json" and rng.random() < 0.3
    segs = [segment(rng, f, not cont and f != "bundle" and rng.random() < 0.2) for _ in range(rng.choice([1, 1, 2, 3]))]
    if f == "json" and not cont:
        # a document ends where it ends, whatever follows
        for g in segs:
            if not g["bad"] and rng.random() < 0.3:
                g["text"] = g["text"] + B(rng.choice(["[3]", "{}", "x", "]", " null"]))
    steps = []
    if rng.random() < 0.5:
        steps.append("look")
    if rng.random() < 0.1:
        steps.append("pop")
    depth = rng.choice([1, 1, 2])
    steps += ["push"] * depth
    if rng.random() < 0.2:
        steps += ["pop", "push"]
    popend = rng.random() < 0.4
    for j, g in enumerate(segs):
        if j:
            steps.append("reset")
            steps += ["look"] * (rng.random() < 0.3) + (["push"] if popend or rng.random() < 0.2 else [])
        if cont or rng.random() < 0.7:
            steps += ["all"]
            n = len(g["docs"]) if popend else 1
            for _ in range(n):
                steps += ["push", "all"]
            steps += ["run"] * rng.choice([0, 1, 2])
        else:
            for _ in range(rng.choice([0, 1, 2, 3])):
                steps += ["run"] + (["push"] if popend or rng.random() < 0.2 else [])
    n = 6 + 5 * sum(len(g["docs"]) for g in segs)
    hooks, more = [], 0
    for k in sorted(rng.sample(range(1, n + 1), rng.choice([0, 0, 1, 2, 4, 6]))):
        # input that goes on has to be read to the end of each document
        h = rng.choice(["push", "pop", "push", "pop", "throw"]) if not cont else rng.choice(["push", "pop"]) if more else "push"
        more += (h == "push") - (h == "pop")
        hooks.append([k, h])
    return {"op": "session", "f": f, "segs": segs, "steps": steps, "hooks": hooks, "popend": popend, "cont": cont,
            "q": [rng.choice([1, 2, 3, 7, 64, 5000]) for _ in range(rng.choice([1, 2, 3]))]}


def cases(rng, n):
    return [case(rng, rng.choice(["json", "yaml", "xml", "bundle"])) for _ in range(n)]


TEXTS = {"json": [("[1]", [L([I(1)])], False), ("{\"a\": null}", [M({"a": NULL})], False), ("[1", [L([I(1)])], True)],
         "yaml": [("- 1\n", [L([I(1)])], False), ("--- a\n--- [b]\n", [S("a"), L([S("b")])], False), ("[1", [L([I(1)])], True), ("", [], False)],
         "xml": [("<plist><array><true/></array></plist>", [L([Bo(True)])], False), ("<plist><dict/></plist>", [M({})], False), ("<plist><array>", [L([])], True)],
         "bundle": [("a: 1\n", [M({"a": I(1)})], False), ("a: 1|x|\nb: y", [M({"a": L([I(1), S("x")]), "b": S("y")})], False), ("", [], False)]}


def exhaustive(depth, hooked):
    """all sequences of calls up to a length, and all reactions to each event"""
    cs = []
    for f in sorted(TEXTS):
        good = [t for t in TEXTS[f] if not t[2] and t[0]][0]
        for t in TEXTS[f]:
            seg = lambda x: {"docs": x[1], "bad": x[2], "text": B(x[0])}
            base = {"op": "session", "f": f, "cont": False, "q": [1]}
            for popend in (False, True):
                for steps in itertools.product(["run", "push", "pop", "reset"], repeat=depth):
                    cs.append(dict(base, segs=[seg(t)] + [seg(good)] * steps.count("reset"), steps=["look", "push"] + list(steps) + ["all"], hooks=[], popend=popend))
                n = sum(12 for d in t[1]) or 2
                for k in range(1, n + 1):
                    for h in ("push", "pop", "throw"):
                        for k2 in ([0] + list(range(k + 1, n + 1)) if hooked else [0, k + 1, k + 2]):
                            for h2 in ("push", "pop", "throw") if k2 else ("",):
                                cs.append(dict(base, segs=[seg(t), seg(good)], steps=["push", "push", "all", "push", "all", "run", "reset", "push", "all", "run"],
                                               hooks=[[k, h]] + ([[k2, h2]] if k2 else []), popend=popend))
    return cs


def run():
    c = Check("P27", ["ops_session", "io"])
    c.model("machine", "MCSession", "MCSession.cfg")
    c.validate("exhaustive", "TraceSession", exhaustive(c.n(4, 6), not c.quick))
    c.validate("random", "TraceSession", cases(c.rng("random"), c.n(6000, 60000)))
    return c.finish()
