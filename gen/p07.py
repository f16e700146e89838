"""P07: conversion and arithmetic."""
from fractions import Fraction
from vf import Check
from vals import *
import numgen


def exact(v):
    m = 0
    for x in reversed(v["m"]):
        m = m * 32768 + x
    return Fraction(v["g"] * m) * Fraction(2) ** v["e"]


def overflows(f, a, b):
    """Signed overflow of the 64-bit result, which the library leaves undefined."""
    if a["t"] != "I" or b["t"] != "I" or f not in ("add", "sub", "mul"):
        return False
    x, y = exact(a), exact(b)
    z = x + y if f == "add" else x - y if f == "sub" else x * y
    return not -2**63 <= z < 2**63


def arith_cases(rng, n, other=0.07):
    cs = []
    while len(cs) < n:
        f = rng.choice(["add", "sub", "mul", "div", "rem"])
        a = numgen.num(rng) if rng.random() >= other else numgen.nested(rng, 1)
        r = rng.random()
        b = numgen.near(rng, a) if r < 0.25 and a["t"] in "IUF" else numgen.num(rng) if r < 0.97 - other else numgen.nested(rng, 1)
        if f in ("div", "rem") and rng.random() < 0.15:
            b = N(rng.choice("IU"), 0)
        if f in ("div", "rem") and rng.random() < 0.1:
            b = N("I", -1)
        if overflows(f, a, b):
            continue
        cs.append({"op": "arith", "f": f, "a": a, "b": b, "via": rng.randrange(6)})
    return cs


def unary_cases(rng, n):
    cs = []
    while len(cs) < n:
        f = rng.choice(["incr", "decr", "neg", "pos"])
        a = numgen.num(rng) if rng.random() < 0.9 else numgen.nested(rng, 1)
        if a["t"] == "I":
            x = exact(a)
            if (f == "incr" and x == 2**63 - 1) or (f in ("decr", "neg") and x == -2**63):
                continue
        cs.append({"op": "unary", "f": f, "a": a, "via": rng.randrange(4)})
    return cs


KINDS = ["int", "uns", "i64", "u64", "i32", "u32", "i16", "u16", "i8", "u8", "chr"]


def text(rng):
    r = rng.random()
    if r < 0.35:
        return rng.choice(["", "", "-", "+"]) + "0" * rng.choice([0, 0, 1]) + str(abs(numgen.integer(rng, -2**70, 2**70)))
    if r < 0.75:
        s = rng.choice(["", "-", "+", ""]) + "".join(rng.choice("0123456789") for _ in range(rng.choice([0, 1, 1, 3, 20, 25])))
        if rng.random() < 0.7:
            s += "." + "".join(rng.choice("0123456789") for _ in range(rng.choice([0, 1, 3, 19, 25])))
        if rng.random() < 0.6:
            s += rng.choice("eE") + rng.choice(["", "+", "-"]) + str(rng.choice([0, 1, 2, 5, 15, 23, 100, 280]))
        return s
    return rng.choice(["", "abc", "x1", "true", "$5", "/", ":", "e5", "_1"])


def conv_cases(rng, n):
    cs = []
    for _ in range(n):
        f = rng.choice(KINDS + ["ldbl", "dbl", "flt", "bool", "str", "cplx"])
        if rng.random() < 0.5:
            a = numgen.num(rng)
        else:
            a = S(text(rng))
            f = rng.choice(KINDS + ["int", "uns", "int", "uns"]) if rng.random() < 0.6 else rng.choice(["ldbl", "ldbl", "str"])
            if f in KINDS and rng.random() < 0.4:
                a = S(str(numgen.integer(rng, -2**64, 2**64)))
        cs.append({"op": "conv", "f": f, "a": a, "via": rng.randrange(12), "b": numgen.num(rng), "form": rng.randrange(10)})
    return cs


def into_cases(rng, n):
    cs = []
    for _ in range(n):
        path = rng.random() < 0.6
        cs.append({"op": "into", "d": N("I", numgen.integer(rng, -2**63, 2**63 - 1)), "path": path, "def": rng.random() < 0.5, "p": rng.choice(["x", "k[1]", "k[7]", "x/y", "k[0]/z", "j/z", "k/x"] if path else ["x", "", "J", "k/[0]"])})
    return cs


def run():
    c = Check("P07", ["ops_num"])
    c.vectors_from("exhaustive", "MCNum", "MCNum.cfg", env={"PROFILE": "arith"}, ok=numgen.vec_ok)
    c.validate("arith", "TraceNum", arith_cases(c.rng("arith"), c.n(6000, 100000)))
    c.validate("unary", "TraceNum", unary_cases(c.rng("unary"), c.n(1500, 20000)))
    c.validate("conv", "TraceNum", conv_cases(c.rng("conv"), c.n(5000, 80000)))
    c.validate("into", "TraceNum", into_cases(c.rng("into"), c.n(300, 3000)))
    return c.finish()
