"""Random option declarations and command lines."""
from vals import *

PATHS = [["a"], ["b"], ["c"], ["d"], ["m", "x"], ["m", "y"], ["l", 0], ["l", 1], ["l", 2], ["n", 0, "z"], ["n", 0, "w"], ["n", 2, "z"], ["deep", "p", "q"],
         ["deep", "r"], ["k/1"], ["s[2]"], ["mm", 1, 0]]
SHORTS = "abcdnvxyh17"
LONGS = ["all", "alpha", "alphabet", "be", "beta", "count", "c", "he", "help", "help-me", "no", "num", "number", "x-1", "v"]
ENVS = ["VF_ONE", "VF_TWO", "VF_THREE"]
WORDS = ["", "a", "ab", "abc", "abcd", "aab", "b", "ba", "x1", "yes", "no", "A", "a b", "=", "a=b", "-", "null", "5", "0x10"]
PATTERNS = ["^a", "b$", "^[a-c]*$", "^(ab|ba)?$", "a+b", "^.{1,3}$", "[0-9]"]
BOOLS = ["yes", "no", "n", "N", "NO", "nope", "false", "FALSE", "f", "fal", "falsey", "0", "00", "01", "1", "true", "t", "", " ", " no ", "0.0", "off", "nn", "  f", "0 "]
INTS = ["0", "1", "5", "-1", "-3", "+7", "12", "007", "100", "-0"]
BADINTS = ["", "abc", "1.75", "5x", "x5", "1e3", "0x10", "--", "+", "5 ", "1,2"]
BIGINTS = ["9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "-9223372036854775808", "-9223372036854775809",
           "99999999999999999999999", "-99999999999999999999999"]
FLOATS = ["0", "1", "-1", "0.5", "2.25", "-0.75", "1e2", "1.5e1", ".5", "5.", "+3.125", "100", "-0.0", "12.50", "25e-2", "1E1"]
BADFLOATS = ["", "abc", "1.5x", "1e", "--1", "1..2", ".", "e5", "0.5 "]
GUESSES = ["true", "False", "TRUE", "tRue", "5", "-3", "0x1F", "0o17", "1.5", "2e1", "abc", "", " 7 ", " abc ", "~x", "1.2.3", "0x", "0o9", "+4", "yes", ".5e1", "null", "-.5"]


def dy(rng, small):
    x = rng.choice([0, 1, 2, 3, 5, 10, -1, -2, 0.5, 1.5, -0.25, 100, 7])
    if isinstance(x, float) or rng.random() < 0.2:
        return N("F", x) if not small else F(float(x))
    if rng.random() < 0.3 and x >= 0:
        return N("U", x) if not small else U(x)
    return N("I", x) if not small else I(x)


class Decl:
    def __init__(self, rng, small=False):
        self.rng, self.small = rng, small
        self.whole = rng.random() < 0.12    # only integers, so that they may be large

    def num(self, x):
        """a number that may be written with any type"""
        if self.small:
            return F(float(x)) if isinstance(x, float) or self.rng.random() < 0.15 else I(x)
        if isinstance(x, float):
            return N("F", x)
        return N(self.rng.choice("IIUF") if x >= 0 else self.rng.choice("IIF"), x)

    def exact(self, x):
        if isinstance(x, bool):
            return Bo(x)
        if isinstance(x, str):
            return S(x)
        if isinstance(x, float):
            return F(x) if self.small else N("F", x)
        return I(x) if self.small else N("I", x)

    def option(self, kind, path, short, long):
        rng = self.rng
        o = {"k": kind, "path": [S(p) if isinstance(p, str) else {"t": "U", "i": p} for p in path]}
        if kind != "arg":
            o["short"], o["long"] = short, B(long)
        r = rng.random()
        if kind == "opt":
            action = "store" if r < 0.42 else "append" if r < 0.64 else "count" if r < 0.76 else "store_const" if r < 0.86 else "store_true" if r < 0.93 else "store_false"
        elif kind == "arg":
            action = "store" if r < 0.5 else "append"
        else:
            action = None
        if action and not (action == "store" and rng.random() < 0.5):
            o["action"] = action
        action = action or "store_true"
        if kind == "opt" and rng.random() < 0.2:
            o["late"] = True
        if action in ("store", "append"):
            self.limits(o, action)
            if action == "append":
                lo = rng.choice([0, 0, 1, 2])
                if kind == "arg" or rng.random() < 0.5:
                    if rng.random() < 0.2:
                        o["minargs"] = o["maxargs"] = lo
                        o["numargs"] = True
                    else:
                        if rng.random() < 0.8:
                            o["minargs"] = lo
                        if rng.random() < 0.8:
                            o["maxargs"] = rng.choice([0, lo, lo + 1, lo + 2, 4])
            elif kind == "arg":
                if rng.random() < 0.4:
                    o["minargs"] = rng.choice([0, 0, 1])
        elif action == "store_const":
            o["const"] = rng.choice([self.exact(x) for x in ["k", 7, 2.5, False, True, 0, ""]] + [L([S("k")]), M({"k": L([])})])
            if rng.random() < 0.4:
                o["def"] = rng.choice([self.exact(x) for x in ["z", 8, 2.5, True, 7]])
        elif action == "count":
            if rng.random() < 0.3:
                o["def"] = self.exact(rng.choice([0, 1, 5]))
        elif rng.random() < 0.4:
            o["def"] = Bo(rng.random() < 0.5)
        if kind != "arg" and rng.random() < 0.15:
            o["req"] = rng.random() < 0.8
        if kind == "arg" and rng.random() < 0.1:
            o["req"] = rng.random() < 0.5
        if rng.random() < 0.25:
            o["env"] = B(rng.choice(ENVS))
        return o

    def limits(self, o, action):
        rng = self.rng
        ty = rng.choice(["guess", "guess", "int", "int", "uint", "float", "string", "string", "bool"])
        if self.whole:
            ty = rng.choice(["int", "uint"])
        if ty != "guess" or rng.random() < 0.3:
            o["type"] = ty
        good = {"guess": ["word", 5, 1.5, True, -3], "int": [0, 1, 5, -3, 12], "uint": [0, 1, 5, 12], "float": [0.5, 1.0, -0.75, 2.25, 100.0],
                "string": ["abc", "ab", "", "x1"], "bool": [True, False]}[ty]
        eff = ty
        if ty in ("int", "uint", "float", "guess") and rng.random() < (0.45 if ty != "guess" else 0.25):
            if rng.random() < 0.7:
                lo = rng.choice([0, 1, -3, 0.5, -1] if ty != "uint" else [0, 1, 3, -2, 0.5])
                o["min"] = self.num(lo)
                good = [x for x in good if not isinstance(x, (str, bool)) and x >= lo]
            if "min" not in o or rng.random() < 0.5:
                hi = rng.choice([5, 12, 1, 1.5, 100, 7])
                o["max"] = self.num(hi)
                good = [x for x in good if not isinstance(x, (str, bool)) and x <= hi]
            if ty == "guess":
                eff = "float"
        elif ty in ("string", "guess") and rng.random() < (0.5 if ty == "string" else 0.2):
            good = [x for x in ["abc", "ab", "a", "ba", "x1"]]
            if rng.random() < 0.5:
                o["minlen"] = rng.choice([0, 1, 2, 3])
                good = [x for x in good if len(x) >= o["minlen"]]
            if rng.random() < 0.5:
                o["maxlen"] = rng.choice([1, 2, 3, 4])
                good = [x for x in good if len(x) <= o["maxlen"]]
            if rng.random() < 0.5 or not ("minlen" in o or "maxlen" in o):
                import re
                p = rng.choice(PATTERNS)
                o["pattern"] = B(p)
                good = [x for x in good if re.search(p, x)]
            if ty == "guess":
                eff = "string"
        if rng.random() < 0.2:
            pool = {"guess": ["a", "b", 5, 1.5, True, False, "5", -3], "int": [0, 1, 5, -1, 12], "uint": [0, 1, 5, 12], "float": [0.5, 1, 1.0, 2.25, -1],
                    "string": ["abc", "ab", "a", "", "5"], "bool": [True, False]}[eff]
            e = rng.sample(pool, rng.choice([1, 2, 3]) if len(pool) > 2 else 1)
            uniq = []
            for x in e:
                if not any(x == y and isinstance(x, bool) == isinstance(y, bool) for y in uniq):
                    uniq.append(x)
            o["enum"] = [self.exact(x) for x in uniq]
            if rng.random() < 0.3:
                o["setenum"] = True
            good = [x for x in good if any(x == y and isinstance(x, bool) == isinstance(y, bool) for y in uniq)]
        if eff == "float":
            good = [float(x) for x in good if not isinstance(x, (str, bool))]
        if good and rng.random() < 0.35:
            o["def"] = self.exact(rng.choice(good))
        elif eff == "guess" and action == "store" and "enum" not in o and rng.random() < 0.15:
            o["def"] = rng.choice([L([]), L([S("p"), L([S("q")])]), M({"in": S("p")}), M({"in": L([Bo(True)])})])
        return eff

    def decl(self):
        rng = self.rng
        n = rng.choice([1, 2, 2, 3, 3, 4, 5])
        paths = rng.sample(PATHS, n)
        longs = rng.sample(LONGS, n)
        if rng.random() < 0.7:
            longs = [x for x in rng.sample(LONGS, len(LONGS)) if x not in ("help", "help-me")][:n]
        resolve = rng.random() < 0.1
        shorts = [ord(rng.choice(SHORTS)) for _ in range(n)] if resolve else [ord(x) for x in rng.sample(SHORTS, n)]
        opts = []
        for j in range(n):
            r = rng.random()
            kind = "opt" if r < 0.65 else "flag" if r < 0.77 else "arg"
            short, long = shorts[j], longs[j]
            r = rng.random()
            if r < 0.25:
                short = 0
            elif r < 0.45 and not resolve:
                long = ""
            opts.append(self.option(kind, paths[j], short, long))
        groups = []
        for g in range(rng.choice([0, 0, 0, 1, 1, 2])):
            mem = rng.sample(range(1, n + 1), rng.choice([1, 2, 2, 3]) if n >= 3 else n)
            groups.append({"name": B("g%d" % g), "excl": rng.random() < 0.8, "req": rng.random() < 0.35, "mem": mem})
            if rng.random() < 0.3:
                groups[-1]["direct"] = True
        d = {"opts": opts, "groups": groups, "help": rng.random() < 0.8}
        if resolve:
            d["resolve"] = True
        return d

    # ------------------------------------------------------------ command lines

    def text(self, o):
        t = self.any_text(o)
        return "1" if self.small and t == "-0.0" else t

    def any_text(self, o):
        rng = self.rng
        r = rng.random()
        if "enum" in o and r < 0.6:
            e = rng.choice(o["enum"])
            if e["t"] == "S":
                return bytes(e["s"]).decode()
            if e["t"] == "B":
                return rng.choice(["true", "True"] if e["b"] else ["false", "FALSE"])
        ty = o.get("type", "guess")
        if ty == "guess":
            if "min" in o or "max" in o:
                ty = "float"
            elif "pattern" in o or "minlen" in o or "maxlen" in o:
                ty = "string"
        bad = rng.random() < 0.06
        if ty == "bool":
            return rng.choice(BOOLS)
        if ty in ("int", "uint"):
            if self.whole and rng.random() < 0.3 and not self.small:
                return rng.choice(BIGINTS)
            return rng.choice(BADINTS if bad else INTS if ty == "int" or rng.random() < 0.1 else ["0", "1", "5", "12", "100", "007"])
        if ty == "float":
            return rng.choice(BADFLOATS if bad else FLOATS)
        if ty == "string":
            return rng.choice(WORDS)
        return rng.choice(GUESSES)

    def run(self, d):
        rng = self.rng
        toks, opts = [], d["opts"]
        args = [o for o in opts if o["k"] == "arg"]
        events = []
        for o in opts:
            if o["k"] == "arg":
                continue
            act = o.get("action", "store_true" if o["k"] == "flag" else "store")
            p = 0.5
            for g in d["groups"]:
                if g["excl"] and opts.index(o) + 1 in g["mem"]:
                    p = 0.3
            k = 0
            if rng.random() < (0.85 if o.get("req") else p):
                k = rng.choice([1, 1, 1, 2, 3]) if act in ("append", "count") else rng.choice([1, 1, 1, 1, 2])
            if act == "append" and rng.random() < 0.5:
                k = max(k, o.get("minargs", 0))
            events += [(o, act)] * k
        rng.shuffle(events)
        cluster = ""
        def flush():
            nonlocal cluster
            if cluster:
                toks.append("-" + cluster)
                cluster = ""
        for o, act in events:
            long = bytes(o["long"]).decode()
            texted = act in ("store", "append")
            use_short = o["short"] and (not long or rng.random() < 0.5)
            if use_short:
                if not texted:
                    cluster += chr(o["short"])
                    if rng.random() < 0.5:
                        flush()
                else:
                    t = self.text(o)
                    cluster += chr(o["short"])
                    if t and rng.random() < 0.5:
                        cluster += t
                        flush()
                    else:
                        flush()
                        toks.append(t)
                continue
            flush()
            name = long
            if rng.random() < 0.15 and len(long) > 1:
                name = long[:rng.randrange(1, len(long))]
            if texted:
                t = self.text(o)
                if rng.random() < 0.5:
                    toks.append("--" + name + "=" + t)
                else:
                    toks.append("--" + name)
                    toks.append(t)
            else:
                toks.append("--" + name + ("=x" if rng.random() < 0.03 else ""))
        flush()
        ops = []
        for o in args:
            lo, hi = o.get("minargs", 1), o.get("maxargs", 1)
            k = rng.choice([lo, lo, hi or lo + 2, max(lo, 1)])
            if rng.random() < 0.08:
                k = max(0, k + rng.choice([-1, 1]))
            ops += [self.text(o) for _ in range(k)]
        if rng.random() < 0.05:
            ops.append(rng.choice([w for w in WORDS if w != "0x10"]))
        if rng.random() < 0.7:
            safe = [t for t in ops if not t.startswith("-")]
            rest = [] if len(safe) == len(ops) else ops
            if not rest:
                # operands anywhere, but not between an option and its argument
                toks = toks + ops if rng.random() < 0.5 else ops + toks
            else:
                toks = toks + ["--"] + ops
        else:
            toks = toks + ["--"] + ops
        r = rng.random()
        if r < 0.03:
            toks.insert(rng.randrange(len(toks) + 1), rng.choice(["-Z", "--unknown", "--unknown=1", "-", "--", "--al", "--h", "-h", "--help", "--=1", "-vZ"]))
        elif r < 0.05 and toks:
            toks.pop(rng.randrange(len(toks)))
        env = []
        for name in ENVS:
            users = [o for o in opts if bytes(o.get("env", [])).decode() == name]
            if users and rng.random() < 0.5:
                o = rng.choice(users)
                act = o.get("action", "store_true" if o["k"] == "flag" else "store")
                t = self.text(o) if act in ("store", "append") else rng.choice(["0", "1", "2", "5"]) if act == "count" and rng.random() < 0.85 else rng.choice(BOOLS)
                env.append([B(name), B(t)])
        rr = {"argv": [B(t) for t in toks], "env": env}
        if rng.random() < 0.2:
            rr["errno"] = True
        if rng.random() < 0.3:
            rr["mark"] = True
        return rr
