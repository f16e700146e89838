"""P10: YAML round trip and plain scalars."""
from vf import Check
from vals import *
import numgen
import p09

WORDS = ["", " ", "a", "word", "123", "-1", "+5", "0x1F", "0o17", "1.5", "1e5", ".5", "5.", "null", "Null", "~", "true", "TRUE", "false", "yes", "no", "on", ".inf", "-.inf", ".nan", "1_000",
         "12:30", "2001-01-01", "- a", "a: b", "#c", "a #b", "'q'", "\"dq\"", "[", "{a", "]", ",", "&x", "*x", "!t", "!!str", "|", ">", "%d", "@", "`", "?", "? x", "-", "--", "---", "...", "--- x",
         "é", "€", "𝄞", "\t", "\n", "a\n", "\na", "a\n\nb", " lead", "trail ", "two  spaces", "a\r\nb", "\x01", "\x7f", "\u0085", " ", "﻿", "=", "<<", ":", "a:", ":a", "a\\b", "\\n",
         "99999999999999999999", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "0", "-0", "00", "08", "1.", "e5", "", "x\ty"]


def string(rng):
    r = rng.random()
    if r < 0.5:
        return list(rng.choice(WORDS).encode())
    if r < 0.8:
        return list("".join(rng.choice(WORDS) for _ in range(rng.choice([2, 3]))).encode())
    return list(rng.choice([" ", " ", "\n", "  ", ""]).join(rng.choice(WORDS) for _ in range(rng.choice([5, 20, 60]))).encode())


def scalar(rng):
    return {"t": "S", "s": string(rng)} if rng.random() < 0.6 else p09.scalar(rng)


def nested(rng, depth):
    if depth == 0 or rng.random() < 0.25:
        return scalar(rng)
    n = rng.choice([0, 1, 1, 2, 3, 5])
    if rng.random() < 0.5:
        return L([nested(rng, depth - 1) for _ in range(n)])
    return M({bytes(string(rng)): nested(rng, depth - 1) for _ in range(n)})


def params(rng):
    p = {}
    for k in ("map_style", "list_style"):
        if rng.random() < 0.7:
            p[k] = B(rng.choice(["any", "block", "flow"]))
    if rng.random() < 0.5:
        p["scalar_style"] = B(rng.choice(["any", "plain", "single quoted", "double quoted", "literal", "folded"]))
    for k in ("begin", "end"):
        if rng.random() < 0.5:
            p[k] = rng.random() < 0.5
    if rng.random() < 0.5:
        p["indent"] = rng.choice([0, 1, 2, 3, 4, 8, 9, 10, 20])
    if rng.random() < 0.5:
        p["width"] = rng.choice([0, 1, 2, 5, 10, 20, 40, 80, 1000])
    return p


def plain(rng):
    r = rng.random()
    if r < 0.3:
        s = str(numgen.integer(rng, -2**65, 2**65))
        s = rng.choice(["", "", "+" if s[0] != "-" else "", "0" if s[0] != "-" else ""]) + s
    elif r < 0.6:
        s = rng.choice(["", "-", "+"]) + str(rng.randrange(10 ** rng.choice([1, 2, 5, 18, 25])))
        if rng.random() < 0.7:
            s += "." + "".join(rng.choice("0123456789") for _ in range(rng.choice([0, 1, 3, 17, 25])))
        if rng.random() < 0.6:
            s += rng.choice("eE") + rng.choice(["", "-", "+"]) + str(rng.choice([0, 1, 5, 10, 22, 23, 100, 300]))
    elif r < 0.8:
        n = rng.choice([rng.randrange(1000), 2**31, 2**32 - 1, 2**63 - 1, 2**63, 2**64 - 1, 2**64, 2**70])
        s = rng.choice([hex, oct])(n)
        if rng.random() < 0.3:
            s = s[:2] + s[2:].upper()
    else:
        s = rng.choice(["null", "True", "FALSE", ".inf", "-.INF", "+.Inf", ".nan", ".NaN", "~", "yes", "abc", "é", "nul", "truee"])
    if rng.random() < 0.2:
        j = rng.randrange(len(s) + 1)
        s = s[:j] + rng.choice(["", "a", "0", ".", "e", "-", "_", "x", "+"]) + s[j + rng.choice([0, 1]):]
    return s


def cases(rng, n):
    cs = []
    for _ in range(n):
        if rng.random() < 0.5:
            cs.append({"op": "yrt", "v": nested(rng, rng.choice([0, 1, 2, 3])), "p": params(rng)})
        else:
            s = plain(rng)
            if s and s not in ("-", "---", "--", "..."):
                cs.append({"op": "yplain", "s": B(s), "ctx": rng.randrange(8)})
    return cs


def broken(rng, n):
    """texts whose lines have to be broken, in every style"""
    cs = []
    for _ in range(n):
        s = "".join(rng.choice(["a", " ", "\n", "bbbbbbbb", " ccc ", "\t", ": ", "#", "é", "'", "\u2028"][: rng.choice([5, 6, 11])]) for _ in range(rng.choice([2, 4, 6, 9])))
        p = {"scalar_style": B(rng.choice(["any", "plain", "single quoted", "double quoted", "literal", "folded", "folded"])), "width": rng.choice([5, 8, 10, 20]), "map_style": B(rng.choice(["block", "flow"]))}
        if rng.random() < 0.5:
            p["indent"] = rng.choice([2, 3, 5])
        v = {"t": "S", "s": B(s)}
        cs.append({"op": "yrt", "v": rng.choice([v, L([v, v]), M({"k": v}), M({s.encode(): L([v])}), M({"k": M({"l": v, "m": v})})]), "p": p})
    return cs


def run():
    c = Check("P10", ["ops_yaml"])
    for p, d in (("plain", c.n(4, 5)), ("word", 3), ("rt", c.n(2, 3))):
        c.vectors_from("exhaustive-" + p, "MCYaml", "MCYaml.cfg", env={"PROFILE": p, "DEPTH": str(d)})
    c.validate("random", "TraceYaml", cases(c.rng("random"), c.n(6000, 60000)))
    c.validate("broken", "TraceYaml", broken(c.rng("broken"), c.n(3000, 30000)))
    return c.finish()
