"""P15: streams of YAML documents, anchors and aliases."""
from vf import Check
from vals import *
import p12

NAMES = ["a", "b", "ab", "A1", "a-b_c", "x9"]
KINDS = ["mem", "name", "file", "sb", "psb", "ps", "ex"]


def sc(v, a=""):
    return {"k": "s", "v": v, "a": B(a)}


def node(rng, d, names, used):
    """A node, with the names anchored so far in used; most aliases refer to one of them."""
    if rng.random() < 0.3 and d < 4:
        n = rng.choice(used) if used and rng.random() < 0.97 else rng.choice(names)
        return {"k": "*", "n": B(n)}
    a = rng.choice(names) if rng.random() < 0.35 else ""
    r = rng.random()
    if d == 0 or r < 0.45:
        x = sc(rng.choice([S("x"), S("text"), S("two words"), I(1), I(-7), I(123), NULL, Bo(True), S(""), {"t": "E"}]), a)
    else:
        e = []
        for _ in range(rng.choice([0, 1, 2, 3, 4])):
            if r < 0.75:
                e.append(node(rng, d - 1, names, used))
            else:
                k = key(rng, names, used, e)
                e.append([k, node(rng, d - 1, names, used)])
        x = {"k": "l" if r < 0.75 else "m", "e": e, "a": B(a)}
    if a:
        used.append(a)
    return x


def key(rng, names, used, e):
    if used and rng.random() < 0.15:
        return {"k": "*", "n": B(rng.choice(used))}
    taken = [bytes(k["v"]["s"]).decode() for k, _ in e if k["k"] == "s" and k["v"]["t"] == "S"]
    free = [w for w in ["k", "l", "key", "z", "o p", "w1", "w2", "w3"] if w not in taken]
    a = rng.choice(names) if rng.random() < 0.2 else ""
    if a:
        used.append(a)
    return sc(S(rng.choice(free)) if rng.random() < 0.9 else I(rng.randrange(1000)), a)


def text(v, rng):
    t = v["t"]
    if t == "N":
        return rng.choice(["~", "null"])
    if t == "B":
        return "true" if v["b"] else "false"
    if t == "I":
        return str(v["i"])
    s = bytes(v["s"]).decode()
    return rng.choice(["'%s'", '"%s"'] if not s else ["%s", "%s", "'%s'", '"%s"']) % s


def anch(n):
    return "&%s " % bytes(n["a"]).decode() if n["a"] else ""


def flow(n, rng):
    if n["k"] == "s" and n["v"]["t"] == "E":
        n["v"] = NULL
    if n["k"] == "*":
        return "*" + bytes(n["n"]).decode()
    if n["k"] == "s":
        return anch(n) + text(n["v"], rng)
    if n["k"] == "l":
        return anch(n) + "[" + ", ".join(flow(x, rng) for x in n["e"]) + "]"
    return anch(n) + "{" + ", ".join(flow(k, rng) + rng.choice([" : ", " : "]) + flow(x, rng) for k, x in n["e"]) + "}"


def block(n, rng, ind):
    """Lines after the introducing '- ', 'k:' or '---': (text on that line, following lines)."""
    if n["k"] in "s*" or not n["e"] or rng.random() < 0.25:
        if n["k"] == "s" and n["v"]["t"] == "E":
            return anch(n).strip(), []
        return flow(n, rng), []
    out = []
    for x in n["e"]:
        if n["k"] == "l":
            h, r = block(x, rng, ind + 2)
            out.append(" " * ind + "- " + h if h else " " * ind + "-")
        else:
            h, r = block(x[1], rng, ind + 2)
            out.append(" " * ind + flow(x[0], rng) + " :" + (" " + h if h else ""))
        out += r
        if rng.random() < 0.05:
            out.append(rng.choice(["", "# comment", "   # other"]))
    return anch(n).strip(), out


def stream(rng, docs):
    s = ""
    ended = True
    for i, d in enumerate(docs):
        if rng.random() < 0.1:
            s += "# between\n"
        h, r = block(d, rng, rng.choice([0, 0, 1, 2]))
        bare = ended and i == 0 and rng.random() < 0.3 and (h or r) and not (r and h)
        if bare:
            s += "\n".join(([h] if h else []) + r) + "\n"
        else:
            s += "---" + (" " + h if h else "") + rng.choice(["", " # c"] if not h else [""]) + "\n" + "".join(x + "\n" for x in r)
        ended = rng.random() < 0.3
        if ended:
            s += "...\n"
    if not docs:
        s = rng.choice(["", "\n", "# only\n", "  \n\n", "# a\n# b"])
    return s


def script(rng, n):
    ops = [{"f": "new", "i": 0, "j": 0}]
    slots = [0]
    if rng.random() < 0.5:
        for _ in range(n + 1):
            ops += [{"f": "get", "i": 0, "j": 0}, {"f": "next", "i": 0, "j": 0}]
        return ops + [{"f": "end", "i": 0, "j": 0}]
    for _ in range(rng.choice([5, 10, 20, 30])):
        f = rng.choice(["next", "next", "next", "get", "get", "post", "copy", "eq", "end", "new"])
        o = {"f": f, "i": rng.choice(slots), "j": rng.choice(slots)}
        if f == "new" and rng.random() < 0.7:
            continue
        if f in ("copy", "new"):
            x = rng.randrange(4)
            o["j" if f == "copy" else "i"] = x
            if x not in slots:
                slots.append(x)
        ops.append(o)
    return ops


def cases(rng, n):
    cs = []
    for _ in range(n):
        names = rng.sample(NAMES, rng.choice([1, 2, 3]))
        k = rng.choice([0, 1, 1, 1, 2, 3, 4, 6])
        used, docs = [], []
        for _ in range(k):
            if rng.random() < 0.9:
                used = []
            docs.append(node(rng, rng.choice([0, 1, 2, 3]), names, used))
        cs.append({"op": "ydocs", "docs": docs, "s": B(stream(rng, docs)), "ops": script(rng, k), "in": p12.inp(rng, KINDS)})
    return cs


def run():
    c = Check("P15", ["ops_docs", "io"])
    c.vectors_from("exhaustive", "MCDocs", "MCDocs.cfg", env={"SIZE": "small" if c.quick else "big"})
    c.validate("random", "TraceDocs", cases(c.rng("random"), c.n(6000, 60000)))
    return c.finish()
