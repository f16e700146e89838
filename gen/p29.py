"""P29: configuration files count as the options they hold; help and printed configuration tell what is declared."""
import json
from vf import Check
from vals import *
from argdecl import *

READS = {"json": ["config", "config_json", "config_yaml"], "yaml": ["config", "config_yaml"], "plist": ["config", "config_plist"]}
# actions that must fail on a file of the form
LOADS = ("config", "config_json", "config_yaml", "config_plist")
FAILS = {"json": ["config_plist"], "yaml": ["config_json", "config_plist"], "plist": ["config_json"]}


def value(x):
    """the specification's value of a Python value"""
    if x is None:
        return {"t": "N"}
    if isinstance(x, bool):
        return Bo(x)
    if isinstance(x, int):
        return N("I", x)
    if isinstance(x, float):
        return N("F", x)
    if isinstance(x, str):
        return S(x)
    if isinstance(x, list):
        return L([value(y) for y in x])
    return M({k: value(y) for k, y in x.items()})


def yaml(x, ind=0):
    """block style, texts quoted"""
    pad = "  " * ind
    if isinstance(x, dict) and x:
        return "".join(pad + json.dumps(k) + ":" + (("\n" + yaml(y, ind + 1)) if isinstance(y, (dict, list)) and y else " " + flow(y) + "\n") for k, y in x.items())
    if isinstance(x, list) and x:
        return "".join(pad + "-" + (("\n" + yaml(y, ind + 1)) if isinstance(y, (dict, list)) and y else " " + flow(y) + "\n") for y in x)
    return pad + flow(x) + "\n"


def flow(x):
    return json.dumps(x)


def plist(x):
    if x is None:
        return "<null/>"
    if isinstance(x, bool):
        return "<true/>" if x else "<false/>"
    if isinstance(x, int):
        return "<integer>%d</integer>" % x
    if isinstance(x, float):
        return "<real>%r</real>" % x
    if isinstance(x, str):
        return "<string>%s</string>" % x
    if isinstance(x, list):
        return "<array>" + "".join(plist(y) for y in x) + "</array>"
    return "<dict>" + "".join("<key>%s</key>%s" % (k, plist(y)) for k, y in x.items()) + "</dict>"


def write(form, x, rng):
    if form == "json":
        return json.dumps(x, indent=rng.choice([None, 2]))
    if form == "yaml":
        return yaml(x)
    return '<?xml version="1.0"?>\n<plist version="1.0">' + plist(x) + "</plist>\n"


def action(o):
    return o.get("action", "store_true" if o["k"] == "flag" else "store")


def kind(o):
    ty = o.get("type", "guess")
    if ty == "guess":
        if "min" in o or "max" in o:
            return "float"
        if "pattern" in o or "minlen" in o or "maxlen" in o:
            return "string"
    return ty


def scalar(rng, o, pyenum):
    if "enum" in o and pyenum and rng.random() < 0.8:
        return rng.choice(pyenum)
    ty = kind(o)
    return rng.choice({"int": [0, 1, 5, -3, 12, 7], "uint": [0, 1, 5, 12], "float": [0.5, 2.25, -0.75, 5, 1.5, 0, 100], "string": ["abc", "ab", "a", "ba", "x1", "abcd"],
                       "bool": [True, False], "guess": ["word", 5, 1.5, True, -3, "5", "true"]}[ty])


def held(rng, o, pyenum, later):
    """a value a file may hold for an option"""
    act = action(o)
    if act == "store":
        if kind(o) == "guess" and "enum" not in o and rng.random() < 0.15:
            return rng.choice([[], [1, "x"], [[True]], [{"in": 1}]])
        return scalar(rng, o, pyenum)
    if act == "append":
        if rng.random() < 0.3:
            return scalar(rng, o, pyenum)
        return [scalar(rng, o, pyenum) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, max(1, o.get("minargs", 1))]))]
    if act == "store_const":
        return True
    if act in ("store_true", "store_false"):
        return rng.random() < 0.5
    if act == "count":
        return rng.choice([0, 1, 2, 5])
    if act in LOADS:
        return rng.choice(later) if later else None
    return None


def place(doc, path, x):
    """put x at the path; False where the place is taken"""
    at = doc
    for j, p in enumerate(path):
        last = j == len(path) - 1
        if isinstance(p, str):
            if not isinstance(at, dict):
                return False
            if last:
                at[p] = x
                return True
            if p not in at:
                at[p] = {} if isinstance(path[j + 1], str) else []
            at = at[p]
        else:
            if not isinstance(at, list):
                return False
            while len(at) <= p:
                at.append(None)
            if last:
                at[p] = x
                return True
            if at[p] is None:
                at[p] = {} if isinstance(path[j + 1], str) else []
            at = at[p]
    return False


NOISE = [("zz", 1), ("zz", "x"), ("zz", {"a": 1, "m": {"x": 2}}), ("zz", [1, [2], {"a": 3}]), ("aa", None), ("zy", []), ("zy", {}), ("zy", True)]


class Gen(Decl):
    def declare(self, showing):
        """a declaration with files; showing: only what the help spells alike everywhere"""
        rng = self.rng
        self.fails = {} if showing else FAILS    # the XML parser adds messages of its own
        d = self.decl()
        opts = d["opts"]
        while sum(len(o.get("long", [])) > 0 for o in opts) == 0 and rng.random() < 0.5:
            d = self.decl()
            opts = d["opts"]
        self.enums = {}
        for j, o in enumerate(opts):
            o["text"] = B("about %s%d it" % (chr(97 + j), j))
            if rng.random() < 0.2:
                o["title"] = B(rng.choice(["NAME", "Some Thing", "x"]))
            if rng.random() < 0.2:
                o["adv"] = rng.random() < 0.8
            if "enum" in o:
                pool = {"int": [0, 1, 5, -1, 12], "uint": [0, 1, 5, 12], "float": [1, 5, -1], "string": ["abc", "ab", "a", "5"], "bool": [True, False],
                        "guess": ["a", "b", 5, True, "5", -3]}[kind(o)]
                e = rng.sample(pool, min(len(pool), rng.choice([1, 2, 3])))
                self.enums[j] = e
                o["enum"] = [value(x) for x in e]
                o.pop("def", None)
            if "def" in o and o["def"]["t"] == "F":
                if kind(o) in ("float", "guess") and action(o) in ("store", "append"):
                    o.pop("def")
                else:
                    o["def"] = value(3)
            if o["k"] == "arg" and action(o) == "append":
                lo, hi = o.get("minargs", 1), o.get("maxargs", 1)
                if hi and hi < lo:
                    o["minargs"] = o["maxargs"] = lo
        if rng.random() < (0.95 if not showing else 0.4):
            if rng.random() < 0.5 and not any(bytes(o.get("long", [])).decode() in ("config", "print-config") for o in opts):
                d["config"] = True
            n = rng.choice([0, 1, 2]) if "config" in d else rng.choice([1, 2, 2])
            used = {bytes(o.get("long", [])).decode() for o in opts}
            letters = {o.get("short", 0) for o in opts}
            for k in range(n):
                name = rng.choice([x for x in ["load", "conf", "from", "json-file", "yaml-file", "dump"] if x not in used])
                short = rng.choice([0, 0, ord("L"), ord("C")])
                if short in letters:
                    short = 0
                used.add(name)
                letters.add(short)
                o = {"k": "opt", "path": [S("load%d" % k)], "short": short, "long": B(name), "action": rng.choice(["config", "config", "config_json", "config_yaml", "config_plist", "config_print", "config_print"]),
                     "text": B("about %s%d it" % (chr(107 + k), k))}
                if showing and rng.random() < 0.3:
                    o["action"] = rng.choice(["help", "adv_help"])
                opts.append(o)
        d["help"] = d["help"] or (showing and rng.random() < 0.8)
        if d["help"] and rng.random() < 0.3:
            d["addhelp"] = True
        name = rng.choice(["prog", "a", "my-tool", "x.y"])
        lead = rng.choice(["", "/usr/bin/", "./", "a/b/c/"])
        base = rng.random() < 0.7
        d["path"], d["base"], d["prog"] = B(lead + name), base, B(name if base else lead + name)
        d["desc"] = B(rng.choice(["", "Does things.", "One line\nand another"]))
        d["epilog"] = B(rng.choice(["", "The end.", "See\n  elsewhere"]))
        if d["groups"] and rng.random() < 0.3:
            names = ["zz", "a-first", "g"]
            for g, n in zip(d["groups"], rng.sample(names, len(d["groups"]))):
                g["name"] = B(n)
        for k, g in enumerate(d["groups"]):
            r = rng.random()
            g["title"] = B("Group <%d>" % k if r < 0.6 else "")
            g["text"] = B("explained [%d]" % k if r > 0.45 and r < 0.85 else "")
            if rng.random() < 0.3:
                g["late"] = True
            if rng.random() < 0.3 and (g["title"] or g["text"]):
                g["adv"] = rng.random() < 0.8
        self.files(d)
        return d

    def files(self, d):
        rng = self.rng
        names = rng.sample(["f1", "f2.json", "x.yaml", "some file", "p.plist"], rng.choice([1, 2, 2, 3]))
        d["files"], self.forms = [], {}
        forms = [rng.choice(["json", "json", "yaml", "plist"]) for _ in names]
        self.forms = dict(zip(names, forms))
        for j, n in enumerate(names):
            doc = {}
            for _ in range(rng.choice([0, 1, 1, 2, 3, 4])):
                q = rng.randrange(len(d["opts"]))
                o = d["opts"][q]
                later = [x for x in names[j + 1:] if action(o) in READS[self.forms[x]] + self.fails.get(self.forms[x], [])]
                x = held(rng, o, self.enums.get(q), later + (["missing"] if rng.random() < 0.1 else []))
                r = rng.random()
                if r < 0.05:
                    x = None
                elif r < 0.1:
                    x = {"zz": 1, "yy": {"zz": 2}}
                place(doc, [bytes(p["s"]).decode() if p["t"] == "S" else p["i"] for p in o["path"]], x)
            if rng.random() < 0.3:
                k, x = rng.choice(NOISE)
                doc.setdefault(k, x)
            if rng.random() < 0.04:
                doc = rng.choice([[1, 2], [], [{"a": 1}], ["x"]])
            if isinstance(doc, dict):
                doc = dict(sorted(doc.items()))
            if self.forms[n] == "yaml" and not doc:
                doc = {"zz": 1}    # an empty one is JSON, too
            content = write(self.forms[n], doc, rng)
            d["files"].append([B(n), value(doc), READS[self.forms[n]], B(content)])

    def text(self, o):
        if action(o) in LOADS:
            ns = [n for n, f in self.forms.items() if action(o) in READS[f]]
            if self.rng.random() < 0.08:
                ns = [n for n, f in self.forms.items() if action(o) in self.fails.get(f, [])] + ["missing"]
            return self.rng.choice(ns or ["missing"])
        return super().text(o)

    def line(self, d, showing):
        """a command line that also loads, prints and asks for help"""
        rng = self.rng
        opts = d["opts"]
        loads = [o for o in opts if action(o) in LOADS]
        skip = [o for o in opts if action(o) in ("config_print", "help", "adv_help") and rng.random() < 0.6]
        keep = dict(d, opts=[o for o in opts if o not in loads and o not in skip])
        keep["groups"] = []
        r = super().run(keep)
        toks = [bytes(t).decode() for t in r["argv"]]
        extra = []
        for o in loads:
            for _ in range(rng.choice([0, 1, 1, 2])):
                extra.append((o, self.text(o)))
        if "config" in d:
            o = {"k": "opt", "short": 0, "long": B("config"), "action": "config"}
            for _ in range(rng.choice([0, 1, 1, 2])):
                extra.append((o, self.text(o)))
        words = []
        for o, t in extra:
            long = bytes(o["long"]).decode()
            if o["short"] and rng.random() < 0.5:
                words.append(["-" + chr(o["short"]) + t] if rng.random() < 0.5 else ["-" + chr(o["short"]), t])
            else:
                words.append(["--" + long + "=" + t] if rng.random() < 0.5 else ["--" + long, t])
        rng.shuffle(words)
        front = [w for w in words if rng.random() < 0.5]
        back = [w for w in words if w not in front]
        if "config" in d and rng.random() < 0.3:
            (front if rng.random() < 0.5 else back).append(["--print-config"])
        if rng.random() < (0.9 if showing else 0.05):
            q = rng.choice(["--help", "-h", "--adv-help", "--adv-help", "--help"])
            (front if rng.random() < 0.7 else back).append([q])
            if rng.random() < 0.1:
                front.append(["--help"])
        at = toks.index("--") if "--" in toks else None
        flat = lambda ws: [x for w in ws for x in w]
        if at is None:
            # not behind an option that takes the next word
            toks = flat(front) + toks + (flat(back) if rng.random() < 0.7 else [])
        else:
            toks = flat(front) + toks[:at] + flat(back) + toks[at:]
        r["argv"] = [B(t) for t in toks]
        return r


def case(rng, showing=False):
    g = Gen(rng)
    d = g.declare(showing)
    runs = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        r = g.line(d, showing and rng.random() < 0.8)
        if showing and rng.random() < 0.3:
            r["show"] = rng.choice(["adv", "plain"])
        runs.append(r)
    return {"op": "configs", "decl": d, "runs": runs}


def run():
    c = Check("P29", ["ops_args"])
    c.model("reload", "MCConfig", "MCConfig.cfg", env={"BIG": "0" if c.quick else "1"})
    rng = c.rng("files")
    c.validate("files", "TraceConfig", [case(rng) for _ in range(c.n(3600, 25000))])
    rng = c.rng("help")
    c.validate("help", "TraceConfig", [case(rng, True) for _ in range(c.n(3000, 20000))])
    return c.finish()
