#!/usr/bin/env python3
"""plant.py FILE.py [--check]: confirm planted bugs in a scratch copy of /repo and keep them in /verif/seeded.

FILE.py defines BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new), ...], demo="C++ main body", pre="C++ globals")].
"""
import json
import os
import re
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "/tmp/plant/repo"
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
DEMO_SH = '''#!/bin/bash
# Builds the demonstration against the library in ./_build and runs it in a scratch directory.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
g++ -std=gnu++11 -g -w -I"$repo/include" -I"$repo/_build/include" -I"$repo/src" "$here/demo.cc" "$repo/_build/src/libVariant.a" -lyaml -lxml2 -lcurl -o "$tmp/demo" || exit 3
cd "$tmp"
timeout 60 ./demo
'''
PRE = '''#include <Variant/Variant.h>
#include <Variant/Blob.h>
#include <Variant/Path.h>
#include <Variant/Payload.h>
#include <Variant/Extensions.h>
#include <Variant/Schema.h>
#include <Variant/SchemaLoader.h>
#include <Variant/ArgParse.h>
#include <Variant/Parser.h>
#include <Variant/ParserInput.h>
#include <Variant/Emitter.h>
#include <Variant/EmitterOutput.h>
#include <algorithm>
#include <iostream>
#include <fstream>
#include <sstream>
#include <cstdlib>
#include <cstring>
#include <cstdio>
#include <unistd.h>
#include <sys/wait.h>
using namespace libvariant;
using namespace std;
#define CHECK(x) do { if (!(x)) { cerr << "FAILED: " #x << endl; return 1; } } while (0)
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def script(name):
    os.makedirs("/tmp/plant", exist_ok=True)
    t = open("/opt/vp/" + name).read().replace("/opt/vp/build.sh", "/tmp/plant/build.sh").replace("/repo", WT)
    open("/tmp/plant/" + name, "w").write(t)
    return "/tmp/plant/" + name


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    bugs = ns["BUGS"]
    only = [a for a in sys.argv[2:] if not a.startswith("--")]
    build, test = script("build.sh"), script("test.sh")
    if not os.path.exists(WT):
        sh(["git", "clone", "-q", "/repo", WT])
    sh(["git", "-C", WT, "fetch", "-q", "origin"])
    sh(["git", "-C", WT, "reset", "-q", "--hard", "origin/HEAD"])
    for b in bugs:
        if only and b["id"] not in only:
            continue
        sh(["git", "-C", WT, "checkout", "-q", "--", "."])
        r = sh(["bash", build])
        if r.returncode:
            print(b["id"], "BASE BUILD FAILED", r.stdout[-800:])
            continue
        d = "/tmp/plant/demo-" + b["id"]
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + "/demo.sh", "w").write(DEMO_SH)
        open(d + "/demo.cc", "w").write(PRE + b.get("pre", "") + "int main() {\n" + b["demo"].strip("\n") + "\n\treturn 0;\n}\n")
        r = sh(["bash", d + "/demo.sh"], cwd=WT)
        if r.returncode:
            print(b["id"], "demo fails on the unchanged tree", r.returncode, r.stdout[-1500:])
            continue
        ok = True
        for f, old, new in b["edits"]:
            p = os.path.join(WT, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(b["id"], "edit matches %d times in %s: %s" % (s.count(old), f, old))
                ok = False
                break
            open(p, "w").write(s.replace(old, new))
        if not ok:
            continue
        r = sh(["bash", test, "/tmp/plant/out.json"])
        passed = set(json.load(open("/tmp/plant/out.json"))["passed"])
        if not STABLE <= passed:
            print(b["id"], "tests notice:", sorted(STABLE - passed)[:5], r.stdout[-600:] if not passed else "")
            continue
        r = sh(["bash", d + "/demo.sh"], cwd=WT)
        if r.returncode == 0 or r.returncode == 3:
            print(b["id"], "demo does not notice", r.returncode, r.stdout[-500:])
            continue
        dst = os.path.join(VERIF, "seeded", b["id"])
        os.makedirs(dst, exist_ok=True)
        shutil.copy(d + "/demo.sh", dst)
        shutil.copy(d + "/demo.cc", dst)
        open(dst + "/patch.diff", "w").write(sh(["git", "-C", WT, "diff"]).stdout)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(dst + "/meta.json", "w"), indent=1)
        msg = "planted (demo: %s)" % r.stdout.strip()[-100:]
        if "--check" in sys.argv:
            e = dict(os.environ, VERIF_REPO=WT)
            r = sh([sys.executable, os.path.join(VERIF, "check.py"), b["property"]], env=e)
            msg += "; check exit %d %s" % (r.returncode, "CAUGHT" if r.returncode == 1 and "VIOLATION property=" + b["property"] in r.stdout else "MISSED" if r.returncode == 0 else r.stdout[-800:])
        print(b["id"], msg, flush=True)
    sh(["git", "-C", WT, "checkout", "-q", "--", "."])


main()
