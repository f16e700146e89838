"""P14: output to every kind of sink."""
from vf import Check
from vals import *
import p09
import p10
import p12

FMTS = ["json", "yaml", "xml", "bundle"]


def doc(rng, f):
    if f == "bundle":
        v = p12.bmap(rng)
        for _ in range(20):
            if all(x["t"] != "D" for _, x in v["m"]):
                break
            v = p12.bmap(rng)
    else:
        v = M({rng.choice("abc"): p10.nested(rng, rng.choice([0, 1, 2])) for _ in range(rng.choice([0, 1, 2, 3]))})
        v = clean(v)
    return v


def clean(v):
    """Texts every format can carry."""
    ok = lambda b: bytes(c for c in b if c >= 32 or c in (9, 10)) or b"e"
    if v["t"] == "S":
        return S(ok(v["s"]))
    if v["t"] == "L":
        return L([clean(x) for x in v["l"]])
    if v["t"] == "M":
        return M({ok(k): clean(x) for k, x in v["m"]})
    return v


def case(rng, f, v, **kw):
    c = {"op": "out", "f": f, "v": v, "api": rng.choice(["em", "ser", "pl", "pl0"]), "pretty": rng.random() < 0.3, "q": []}
    c.update(kw)
    # the functions named after a format take no other settings than pretty
    if c["k"] in ("sb", "mem", "name", "file", "full", "fullname", "nodir") and "indent" not in c and (f in ("json", "xml") or not c["pretty"]) and rng.random() < 0.4:
        c["api"] = rng.choice(["nm", "nb"]) if f == "bundle" else "nm"
        if c["k"] == "sb" and rng.random() < 0.2 and not {"cap", "short", "mode"} & set(c):
            c["k"] = "str"
    return c


def schedule(rng):
    return [rng.choice([1, 1, 2, 3, 5, 17, 64, 127, 128, 500, 512, 4000]) for _ in range(rng.choice([1, 2, 3]))]


def random_cases(rng, n):
    cs = []
    for _ in range(n):
        f = rng.choice(FMTS)
        v = doc(rng, f)
        size = rng.choice([0, 0, 0, 100, 127, 128, 129, 500, 520, 3990, 4100]) if rng.random() < 0.7 else rng.choice([0, 0, 16000, 17000])
        k = rng.choice(["user", "user", "user", "sb", "mem", "memx", "name", "file", "full", "fullname"]) if rng.random() < 0.98 else "nodir"
        kw = {"k": k}
        if size:
            v["m"] = [kv for kv in v["m"] if kv[0] != [122]]
            kw.update({"text": size} if rng.random() < 0.5 else {"items": size // 5})
        if rng.random() < 0.2:
            kw.update({"pretty": True, "indent": rng.choice([0, 1, 4, 40, 127, 128, 129, 511, 512, 600])})
            if f != "bundle" and not size and rng.random() < 0.5:
                v["m"] = [kv for kv in v["m"] if kv[0] != [122]]
                kw["deep"] = rng.choice([1, 5, 40])
        if k == "user":
            kw["q"] = schedule(rng)
        if k == "mem" and rng.random() < 0.5:
            kw["q"] = [rng.choice([0, 1, 5, 4294967295])]
        if k in ("user", "sb"):
            r = rng.random()
            if r < 0.7:
                kw.update({"short": rng.choice([1, 1, 2, 3, 10, 50, 100, 500])} if rng.random() < 0.5 else {"cap": rng.choice([0, 1, 2, 10, 50, 100, 127, 511, 512, 513, 4000, 20000])})
                kw["mode"] = rng.choice(["throw", "zero", "logic", "int", "once"]) if k == "user" else "cap"
            elif r < 0.8:
                kw["mode"] = "flush"
        if k in ("mem", "memx") and rng.random() < 0.7:
            kw.update({"short": rng.choice([1, 1, 2, 3, 10, 50, 100, 500])} if rng.random() < 0.5 else {"cap": rng.choice([0, 1, 2, 10, 50, 100, 127, 511, 512, 513, 4000, 20000])})
        if k in ("file", "full") and rng.random() < 0.5:
            kw["mode"] = "unbuffered"
        cs.append(case(rng, f, v, **kw))
    return cs


def every_point(rng, quick):
    """Failure after every byte of small documents, every portion size, every block size."""
    cs = []
    small = {"json": M({"a": L([N("I", 1), S("two"), NULL, Bo(True)]), "b": N("F", 2.5)}), "yaml": M({"a": L([N("I", 1), S("two")])}), "xml": M({"a": N("I", 1)}),
             "bundle": M({"a": L([N("I", 1), S("two")]), "k": S("v")})}
    for f in FMTS:
        for api in ("em", "ser", "pl", "pl0", "nm") + (("nb",) if f == "bundle" else ()):
            for n in range(0, 190 if api[:2] == "pl" else 130, 2 if quick and api[:2] == "pl" else 1):
                for k, mode in (("user", "throw"), ("user", "zero"), ("user", "logic"), ("sb", "cap"), ("mem", ""), ("memx", "")):
                    if k in ("user", "memx") and api in ("ser", "nm", "nb"):
                        continue
                    cs.append({"op": "out", "f": f, "v": small[f], "api": api, "pretty": False, "k": k, "mode": mode, "q": [1 + n % 7] if k == "user" else [], "cap": n, "bytes": True})
            if api in ("nm", "nb"):
                for pretty in (False, True):
                    if not pretty or f in ("json", "xml"):
                        cs.append({"op": "out", "f": f, "v": small[f], "api": api, "pretty": pretty, "k": "str", "q": [], "bytes": True})
                continue
            for q in range(1, 40):
                cs.append({"op": "out", "f": f, "v": small[f], "api": "em" if api == "ser" else api, "pretty": True, "k": "user", "q": [q]})
    return cs


def run():
    c = Check("P14", ["ops_output", "io"])
    c.model("way-to-the-sink", "MCOutput", "MCOutput.cfg")
    c.validate("every-point", "TraceOutput", every_point(c.rng("point"), c.quick))
    c.validate("random", "TraceOutput", random_cases(c.rng("random"), c.n(8000, 80000)))
    return c.finish()
