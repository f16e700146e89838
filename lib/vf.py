"""Orchestration shared by all checks: build, drive the real code, let TLC judge, report, evidence."""
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build" if REPO == "/repo" else ".build-" + hashlib.sha1(REPO.encode()).hexdigest()[:8])
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=vptr"]
NCPU = os.cpu_count() or 4


class ModelError(Exception):
    """The machinery itself failed (build, TLC error, driver error): neither pass nor violation."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


# ---------------------------------------------------------------- build

def build(ops):
    """Build the library from /repo's working tree and a driver with the given op files."""
    os.makedirs(BUILD, exist_ok=True)
    lib = os.path.join(BUILD, "lib")
    env = dict(os.environ, CC="/usr/bin/gcc", CXX="/usr/bin/g++")
    flags = "-O1 -g1 -w " + " ".join(SAN)
    stamp = os.path.join(lib, "build.ninja")
    if not os.path.exists(stamp):
        r = sh(["cmake", "-S", REPO, "-B", lib, "-G", "Ninja", "-Wno-dev", "-DCMAKE_BUILD_TYPE=None",
                "-DCMAKE_CXX_FLAGS=" + flags, "-DCMAKE_C_FLAGS=" + flags, "-DCMAKE_POLICY_VERSION_MINIMUM=3.5",
                "-DLIBVARIANT_BUILD_TESTS=OFF", "-DLIBVARIANT_BUILD_EXAMPLES=OFF", "-DLIBVARIANT_ENABLE_YAML=ON",
                "-DLIBVARIANT_ENABLE_XML=ON", "-DLIBVARIANT_ENABLE_CURL=ON", "-DLIBVARIANT_ENABLE_MSGPACK=OFF"],
               env=env)
        if r.returncode:
            raise ModelError("cmake failed:\n" + r.stdout[-3000:])

    inc = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(lib, "include"), "-I" + os.path.join(REPO, "src")]

    def compile_tu(name):
        src = os.path.join(VERIF, "harness", name + ".cc")
        obj = os.path.join(BUILD, name + ".o")
        dep = obj + ".d"
        newest = 0.0
        if os.path.exists(obj) and os.path.exists(dep):
            try:
                deps = open(dep).read().replace("\\\n", " ").split(":", 1)[1].split()
                newest = max(os.path.getmtime(d) for d in deps)
                if newest < os.path.getmtime(obj):
                    return obj
            except (OSError, IndexError):
                pass
        r = sh(["/usr/bin/g++", "-std=gnu++17", "-O0", "-g1", "-w", "-MD", "-MF", dep] + SAN + inc +
               ["-c", src, "-o", obj], env=env)
        if r.returncode:
            raise ModelError("compiling %s failed:\n%s" % (name, r.stdout[-3000:]))
        return obj

    with ThreadPoolExecutor(NCPU) as ex:
        libf = ex.submit(sh, ["ninja", "-C", lib, "src/libVariant.a"], env=env)
        objs = list(ex.map(compile_tu, ["common"] + list(ops)))
        r = libf.result()
    if r.returncode:
        raise ModelError("building the library failed:\n" + r.stdout[-3000:])
    drv = os.path.join(BUILD, "driver-" + "-".join(ops))
    a = os.path.join(lib, "src", "libVariant.a")
    if not os.path.exists(drv) or max(os.path.getmtime(x) for x in objs + [a]) >= os.path.getmtime(drv):
        r = sh(["/usr/bin/g++"] + SAN + objs + [a, "-lyaml", "-lxml2", "-lcurl", "-o", drv], env=env)
        if r.returncode:
            raise ModelError("linking failed:\n" + r.stdout[-3000:])
    return drv


# ---------------------------------------------------------------- driver

def drive(drv, cases, work, cpu=10, shards=NCPU):
    """Run cases on the real code; returns the list of recorded outcomes (same order)."""
    if not cases:
        return []
    shards = max(1, min(shards, len(cases) // 20 or 1))
    idx = [list(range(k, len(cases), shards)) for k in range(shards)]
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:"
               "max_allocation_size_mb=2048:quarantine_size_mb=16:symbolize=0:detect_stack_use_after_return=0:handle_abort=0", UBSAN_OPTIONS="halt_on_error=1",
               LC_ALL="C", TZ="UTC")
    for k in list(env):
        if k.startswith("VDRV_"):
            del env[k]
    procs = []
    for k in range(shards):
        cf, of = os.path.join(work, "cases%d" % k), os.path.join(work, "out%d" % k)
        sd = os.path.join(work, "scratch%d" % k)
        os.makedirs(sd, exist_ok=True)
        with open(cf, "w") as f:
            for j in idx[k]:
                f.write(json.dumps(cases[j], separators=(",", ":")) + "\n")
        procs.append((subprocess.Popen([drv, cf, of, sd, str(cpu)], env=env, cwd=sd), of, sd))
    res = [None] * len(cases)
    for k, (p, of, sd) in enumerate(procs):
        if p.wait() != 0:
            raise ModelError("driver failed with %d" % p.returncode)
        lines = open(of, errors="replace").read().split("\n")[:-1]
        if len(lines) != len(idx[k]):
            raise ModelError("driver wrote %d results for %d cases" % (len(lines), len(idx[k])))
        for j, l in zip(idx[k], lines):
            if l.startswith("!"):
                raise ModelError("driver error: %s on %s" % (l, json.dumps(cases[j])[:500]))
            res[j] = json.loads(l)
        shutil.rmtree(sd, ignore_errors=True)
    return res


# ---------------------------------------------------------------- TLC

class TlcRun:
    def __init__(self, out):
        self.out = out
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        self.ok = "Model checking completed. No error has been found." in out
        m = re.search(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(m.group(1)) if m else 0


def tlc(module, cfg, work, env=None, extra=(), workers=NCPU, heap="6g", timeout=7200):
    meta = os.path.join(work, "tlc-" + module + "-%d" % random.randrange(10**9))
    cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-cp", JARS, "tlc2.TLC",
           "-metadir", meta, "-noGenerateSpecTE", "-workers", str(workers), "-config", cfg] + list(extra) + [module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = sh(cmd, cwd=SPEC, env=e, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ModelError("TLC timed out on " + module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    run = TlcRun(r.stdout)
    if not run.ok and workers > 1 and "StatePoolWriter" in run.out:   # a known race in TLC's state queue
        return tlc(module, cfg, work, env, extra, 1, heap, timeout)
    return run


def tlc_error(out):
    k = out.find("Error:")
    return out[k:k + 2500] if k >= 0 else out[-3000:]


def judge(module, events, work, cfg="Trace.cfg", heap="6g", env=None):
    """Let TLC judge recorded events. Returns (TlcRun, {index: expected text})."""
    if not events:
        return None, {}
    tf = os.path.join(work, "trace-%s.ndjson" % module)
    with open(tf, "w") as f:
        for e in events:
            f.write(json.dumps(e, separators=(",", ":")) + "\n")
    ev = {"TRACE": tf}
    ev.update(env or {})
    t = tlc(module, cfg, work, env=ev, heap=heap)
    if not t.ok:
        raise ModelError("TLC failed on %s:\n%s" % (module, tlc_error(t.out)))
    bad = {}
    for m in re.finditer(r'^"?MISMATCH (\d+)(?: (.*?))?"?$', t.out, re.M):
        bad[int(m.group(1)) - 1] = (m.group(2) or "")[:4000]
    return t, bad


# ---------------------------------------------------------------- known findings

def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


def canon(c):
    return json.dumps(c, sort_keys=True, separators=(",", ":"))


# ---------------------------------------------------------------- check

class Check:
    def __init__(self, pid, ops):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.work = os.path.join(VERIF, ".work", "%s-%d" % (pid, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = self.transitions = self.traces = 0
        self.vectors = 0
        self.violations = []
        self.samples = []
        self.notes = {}
        self.known = [f for f in known_findings()["findings"] if f["property"] == pid]
        self.known_hit = {}
        self.ops = ops
        self.drv = build(ops)
        log("%s: built in %.1fs" % (pid, time.time() - self.t0))

    @property
    def quick(self):
        return self.tier == "quick"

    def rng(self, name):
        return random.Random("%s/%s/%d" % (self.pid, name, self.seed))

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    # --- code -> spec
    def validate(self, name, module, cases, cpu=10, heap="6g", max_batch=20000, mc_env=None, cfg="Trace.cfg"):
        """Drive the cases, let TLC judge the recorded events against `module`."""
        for f in self.known:
            if f.get("module") == module and canon(f["case"]) not in {canon(c) for c in cases[:50]}:
                cases = [f["case"]] + cases
        t = time.time()
        total = 0
        for b in range(0, len(cases), max_batch):
            part = cases[b:b + max_batch]
            res = drive(self.drv, part, self.work, cpu)
            part, res = drop_skipped(part, res)
            t1 = time.time()
            ev = [{"c": c, "r": r} for c, r in zip(part, res)]
            run, bad = judge(module, ev, self.work, cfg=cfg, heap=heap, env=mc_env)
            self.states += run.distinct
            self.transitions += run.generated
            self.traces += len(ev)
            total += len(ev)
            if not self.samples or len(self.samples) < 6:
                self.samples += [{"suite": name, "case": ev[k]["c"], "recorded": ev[k]["r"]}
                                 for k in (0, len(ev) // 2) if k < len(ev)][:2]
            self._handle(name, module, part, res, bad, cpu, mc_env, cfg)
            log("%s/%s: %d cases driven %.1fs, judged %.1fs, %d mismatches" %
                (self.pid, name, len(part), t1 - t, time.time() - t1, len(bad)))
            t = time.time()
        self.notes[name] = self.notes.get(name, 0) + total

    def _is_known(self, module, case):
        c = canon(case)
        for f in self.known:
            if f.get("module") == module and canon(f["case"]) == c:
                return f
        return None

    def _handle(self, name, module, cases, res, bad, cpu, mc_env=None, cfg="Trace.cfg"):
        todo = []
        for k in sorted(bad):
            f = self._is_known(module, cases[k])
            if f:
                self.known_hit[f["id"]] = f
            else:
                todo.append(k)
        if not todo or len(self.violations) >= 5:
            return
        # confirm: run again on their own
        pick = todo[:4]
        sub = [cases[k] for k in pick]
        res2 = drive(self.drv, sub, self.work, cpu, shards=1)
        _, bad2 = judge(module, [{"c": c, "r": r} for c, r in zip(sub, res2)], self.work, cfg=cfg, env=mc_env)
        for j in sorted(bad2):
            self.violation(name, module, sub[j], res2[j], bad2[j])
        if not bad2:
            log("%s/%s: %d rejections did not repeat; not reported" % (self.pid, name, len(pick)))
            raise ModelError("rejections did not repeat on " + json.dumps(sub[0])[:800])

    # --- spec -> code
    def vectors_from(self, name, module, cfg, env=None, heap="6g", cpu=10, extra=(), ok=None):
        """TLC explores a bounded instance, checks its invariants and prints one test vector per
        transition ("VEC {json}"): the calls are replayed on the real code and the recorded outcome must equal
        the one the specification computed."""
        t = time.time()
        run = tlc(module, cfg, self.work, env=env, heap=heap, extra=extra)
        if not run.ok:
            raise ModelError("TLC failed on %s:\n%s" % (module, tlc_error(run.out)))
        self.states += run.distinct
        self.transitions += run.generated
        vecs = []
        for l in run.out.split("\n"):
            if l.startswith('"VEC '):
                vecs.append(json.loads(json.loads(l)[4:]))
        if not vecs:
            raise ModelError("no vectors from " + module)
        cases = [v["c"] for v in vecs]
        vec_ok = ok or globals()["vec_ok"]
        t1 = time.time()
        res = drive(self.drv, cases, self.work, cpu)
        bad = [k for k in range(len(vecs)) if res[k] != SKIP and not vec_ok(vecs[k]["e"], res[k])]
        self.vectors += len(vecs)
        self.traces += len(vecs)
        if len(self.samples) < 8:
            self.samples.append({"suite": name, "case": cases[len(cases) // 2], "expected": vecs[len(cases) // 2]["e"]})
        todo = []
        for k in bad:
            f = self._is_known(module, cases[k])
            if f:
                self.known_hit[f["id"]] = f
            else:
                todo.append(k)
        for k in todo[:4]:
            r2 = drive(self.drv, [cases[k]], self.work, cpu, shards=1)[0]
            if not vec_ok(vecs[k]["e"], r2):
                self.violation(name, module, cases[k], r2, json.dumps(vecs[k]["e"]))
            else:
                raise ModelError("mismatch did not repeat on " + json.dumps(cases[k])[:800])
        log("%s/%s: TLC %.1fs (%d states), %d vectors replayed %.1fs, %d mismatches" %
            (self.pid, name, t1 - t, run.distinct, len(vecs), time.time() - t1, len(bad)))
        self.notes[name] = self.notes.get(name, 0) + len(vecs)
        return vecs

    def model(self, name, module, cfg, env=None, heap="6g", extra=()):
        """Check a bounded instance of the specification itself (invariants on the model)."""
        t = time.time()
        run = tlc(module, cfg, self.work, env=env, heap=heap, extra=extra)
        if not run.ok:
            raise ModelError("TLC failed on %s:\n%s" % (module, tlc_error(run.out)))
        self.states += run.distinct
        self.transitions += run.generated
        self.notes[name] = run.distinct
        log("%s/%s: model %d states %.1fs" % (self.pid, name, run.distinct, time.time() - t))
        return run

    # --- results
    def violation(self, name, module, case, res, expected):
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        h = hashlib.sha1((self.pid + canon(case)).encode()).hexdigest()[:12]
        path = os.path.join(d, "%s-%s.json" % (self.pid, h))
        with open(path, "w") as f:
            json.dump({"property": self.pid, "suite": name, "module": module, "ops": self.ops, "case": case,
                       "recorded": res, "specification": expected}, f, indent=1)
        self.violations.append(path)
        print("VIOLATION property=%s replay=%s" % (self.pid, path), flush=True)
        log("  case %s\n  recorded %s\n  specification %s" % (json.dumps(case)[:1500], json.dumps(res)[:1500], expected[:1500]))

    def finish(self, assumptions=()):
        for f in self.known:
            if f["id"] in self.known_hit:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, f["what"]), flush=True)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces, "samples": self.samples[:8],
                           "vectors_replayed": self.vectors, "per_suite": self.notes},
              "wall_s": round(time.time() - self.t0, 1), "violations": len(self.violations),
              "assumptions": list(assumptions)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        log("%s: %s in %.1fs" % (self.pid, "VIOLATED" if self.violations else "held", time.time() - self.t0))
        return 1 if self.violations else 0


def vec_ok(expected, got):
    """Every field the specification fixes must be recorded with that value."""
    return isinstance(got, dict) and all(k in got and got[k] == expected[k] for k in expected)


SKIP = {"o": "skip"}


def drop_skipped(cases, res):
    if SKIP not in res:
        return cases, res
    k = [j for j in range(len(res)) if res[j] != SKIP]
    return [cases[j] for j in k], [res[j] for j in k]
