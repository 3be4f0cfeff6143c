"""Drives the Subs of one property with Hypothesis, writes evidence and replays."""
import argparse
import hashlib
import importlib
import json
import os
import signal
import subprocess
import sys
import time
import traceback
import zlib

from . import core

MAX_SHRINK_S = 25.0
CASE_S = 120  # a case takes far less than a second; one which takes this long hangs
QUICK_FACTOR = 2
HUNG = []
JOURNAL = None  # where the running case is written, in case it kills the process


def known_findings(here, pid):
    path = os.path.join(here, "known_findings.json")
    with open(path) as f:
        d = json.load(f)
    return {
        x["id"]: x["what"] for x in d["known"] if x["property"] == pid
    }


def sub_seed(seed, shard, pid, name):
    return zlib.crc32(("%s:%s:%s:%s" % (seed, shard, pid, name)).encode())


def late(*_):
    HUNG.append(1)
    raise core.Violation("no result within %d s" % CASE_S)


class SubRun:
    def __init__(self, sub, ctx, budget_s):
        self.sub = sub
        self.ctx = ctx
        self.budget_s = budget_s
        self.t0 = time.monotonic()
        self.evaluations = 0
        self.nontrivial = set()
        self.skipped = 0
        self.samples = []
        self.failure = None
        self.fail_t = None

    def one(self, case):
        now = time.monotonic()
        if self.failure is None and now - self.t0 > self.budget_s:
            self.skipped += 1
            return
        if HUNG or self.fail_t is not None and now - self.fail_t > MAX_SHRINK_S:
            return  # stop shrinking; self.failure is what gets reported
        text = json.dumps(case, sort_keys=True)
        # the body gets what a replay would get
        case = json.loads(text)
        self.evaluations += 1
        if JOURNAL:
            with open(JOURNAL, "w") as f:
                json.dump({"sub": self.sub.name, "case": text, "jit": True}, f)
        signal.signal(signal.SIGALRM, late)
        signal.alarm(CASE_S)
        try:
            interesting = self.sub.body(case, self.ctx)
        except core.Violation as e:
            self.note(text, str(e))
            raise
        except (KeyboardInterrupt, SystemExit, MemoryError):
            raise
        except Exception as e:
            if type(e).__module__.startswith("hypothesis"):
                raise
            # e.g. the oracle cannot even compare what the code returned
            tb = traceback.extract_tb(e.__traceback__)[-1]
            msg = "%s: %s (%s:%s)" % (
                type(e).__name__,
                str(e)[:300],
                os.path.basename(tb.filename),
                tb.lineno,
            )
            self.note(text, msg)
            raise core.Violation(msg) from e
        finally:
            signal.alarm(0)
        if interesting:
            h = hashlib.blake2b(text.encode(), digest_size=8).hexdigest()
            if h not in self.nontrivial:
                self.nontrivial.add(h)
                if len(self.samples) < 3 or (
                    len(self.samples) < 5 and len(self.nontrivial) % 37 == 0
                ):
                    self.samples.append(
                        case if len(text) < 1500 else text[:1500] + "..."
                    )

    def note(self, text, msg):
        if self.fail_t is None:
            self.fail_t = time.monotonic()
        self.failure = (text, msg)

    def run(self, n, seed):
        import hypothesis
        from hypothesis import HealthCheck, Phase, given, settings

        for ex in self.sub.examples:
            try:
                self.one(ex)
            except core.Violation:
                return

        @hypothesis.seed(seed)
        @settings(
            max_examples=n,
            database=None,
            deadline=None,
            derandomize=False,
            report_multiple_bugs=False,
            suppress_health_check=list(HealthCheck),
            phases=(Phase.generate, Phase.target, Phase.shrink),
            print_blob=False,
            verbosity=hypothesis.Verbosity.quiet,
        )
        @given(self.sub.strategy)
        def prop(case):
            self.one(case)

        with core.quiet():
            try:
                prop()
            except BaseException:
                if self.failure is None:
                    raise


def replay(mod, pid, path, ctx):
    with open(path) as f:
        d = json.load(f)
    sub = {s.name: s for s in mod.SUBS}[d["sub"]]
    r = SubRun(sub, ctx, 1e9)
    try:
        r.one(d["case"])
    except core.Violation:
        pass
    if r.failure:
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  %s: %s" % (sub.name, r.failure[1]))
        return 1
    print("replay of %s: the property held" % path)
    return 0


def work(mod, pid, tier, seed, shard, known, only):
    """Run all Subs; returns a JSON-able result"""
    out = {"subs": [], "failures": [], "findings": {}, "labels": {}}
    subs = [s for s in mod.SUBS if only is None or s.name == only]
    budget = getattr(mod, "BUDGET_S", 240 if tier == "quick" else 600)
    for s in subs:
        ctx = core.Ctx(known)
        r = SubRun(s, ctx, budget / max(1, len(subs)) * 2)
        n = s.quick * QUICK_FACTOR if tier == "quick" else s.thorough
        r.run(n, sub_seed(seed, shard, pid, s.name))
        out["subs"].append(
            {
                "name": s.name,
                "rule": s.rule,
                "evaluations": r.evaluations,
                "nontrivial": sorted(r.nontrivial),
                "skipped": r.skipped,
                "samples": r.samples,
                "wall_s": round(time.monotonic() - r.t0, 2),
                "labels": ctx.labels,
            }
        )
        for k, v in ctx.seen_findings.items():
            out["findings"][k] = out["findings"].get(k, 0) + v
        if r.failure:
            out["failures"].append(
                {"sub": s.name, "case": r.failure[0], "message": r.failure[1]}
            )
        if HUNG:
            break
    return out


def merge(results):
    total = {"subs": [], "failures": [], "findings": {}}
    by = {}
    for res in results:
        for s in res["subs"]:
            t = by.get(s["name"])
            if t is None:
                t = by[s["name"]] = dict(s)
                t["nontrivial"] = set(s["nontrivial"])
                total["subs"].append(t)
            else:
                t["evaluations"] += s["evaluations"]
                t["nontrivial"] |= set(s["nontrivial"])
                t["skipped"] += s["skipped"]
                t["wall_s"] = max(t["wall_s"], s["wall_s"])
                for k, v in s["labels"].items():
                    t["labels"][k] = t["labels"].get(k, 0) + v
        total["failures"] += res["failures"]
        for k, v in res["findings"].items():
            total["findings"][k] = total["findings"].get(k, 0) + v
    return total


def main(argv, here, repo):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--shard", type=int, default=0)
    ap.add_argument("--shards", type=int)
    ap.add_argument("--partial", help="(internal) write the partial result here")
    a = ap.parse_args(argv)
    pid = a.property
    tier = "thorough" if a.tier == "thorough" else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED") or "1")
    except ValueError:
        seed = 1
    t0 = time.monotonic()
    if a.replay and not a.partial:
        with open(a.replay) as f:
            jit = json.load(f).get("jit", False)
        if jit and os.environ.get("NUMBA_DISABLE_JIT") == "1":
            env = dict(os.environ, NUMBA_DISABLE_JIT="0")
            os.execve(sys.executable, [sys.executable, "-P", os.path.abspath(sys.argv[0])] + argv, env)
    try:
        with core.quiet():
            mod = importlib.import_module("checks." + pid.lower())
        known = known_findings(here, pid)
        import pycomlink

        if not os.path.abspath(pycomlink.__file__).startswith(
            os.path.abspath(repo) + os.sep
        ):
            raise RuntimeError("pycomlink is imported from " + pycomlink.__file__)
        if a.replay:
            return replay(mod, pid, a.replay, core.Ctx(known))
        shards = a.shards or (
            getattr(mod, "SHARDS_THOROUGH", 6)
            if tier == "thorough"
            else getattr(mod, "SHARDS_QUICK", 4)
        )
        if a.partial:
            if os.environ.get("NUMBA_DISABLE_JIT") == "0":
                global JOURNAL
                JOURNAL = a.partial + ".case"
            res = work(mod, pid, tier, seed, a.shard, known, a.only)
            with open(a.partial, "w") as f:
                json.dump(res, f)
            return 0
        if shards == 1:
            results = [work(mod, pid, tier, seed, a.shard, known, a.only)]
        else:
            results = run_shards(pid, tier, shards, a.only, getattr(mod, "JIT", False))
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        print("ERROR: the check of %s could not run" % pid)
        return 2
    return report(here, mod, pid, tier, seed, merge(results), known, shards, t0)


def run_shards(pid, tier, shards, only, jit):
    """jit: odd shards run with numba's compiler, the others without"""
    import tempfile

    me = os.path.abspath(sys.argv[0])
    with tempfile.TemporaryDirectory(prefix="verif-shards-") as d:
        procs = []
        for i in range(shards):
            out = os.path.join(d, "%d.json" % i)
            cmd = [sys.executable, "-P", me, pid, "--tier", tier]
            cmd += ["--shard", str(i), "--partial", out]
            if only:
                cmd += ["--only", only]
            env = dict(os.environ)
            if jit and i % 2:
                env["NUMBA_DISABLE_JIT"] = "0"
            procs.append((i, out, subprocess.Popen(cmd, env=env)))
        results = []
        broken = []
        for i, out, p in procs:
            last = None
            while True:
                try:
                    rc = p.wait(10)
                    break
                except subprocess.TimeoutExpired:
                    # compiled code cannot be interrupted by `late`
                    c = out + ".case"
                    if os.path.exists(c) and time.time() - os.path.getmtime(c) > CASE_S + 30:
                        with open(c) as f:
                            last = json.load(f)
                        last["message"] = "no result within %d s" % CASE_S
                        p.kill()
            if last:
                results.append({"subs": [], "failures": [last], "findings": {}})
                continue
            if rc in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGBUS, -signal.SIGFPE):
                # compiled code crashed the interpreter on valid input
                with open(out + ".case") as f:
                    last = json.load(f)
                last["message"] = "the interpreter crashed with signal %d" % -rc
                results.append({"subs": [], "failures": [last], "findings": {}})
                continue
            if rc != 0:
                broken.append(rc)
                continue
            with open(out) as f:
                res = json.load(f)
            for fl in res["failures"]:
                fl["jit"] = bool(jit and i % 2)
            results.append(res)
    if broken and not any(r["failures"] for r in results):
        raise RuntimeError("shards exited with %s" % broken)
    return results


def report(here, mod, pid, tier, seed, res, known, shards, t0):
    rdir = os.path.join(here, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    lines = []
    for i, fl in enumerate(res["failures"]):
        path = os.path.join(rdir, "%s-%s-%d.json" % (pid, fl["sub"], i))
        with open(path, "w") as f:
            json.dump(
                {
                    "property": pid,
                    "sub": fl["sub"],
                    "message": fl["message"],
                    "jit": fl.get("jit", False),
                    "case": json.loads(fl["case"]),
                },
                f,
                indent=1,
            )
        lines.append("VIOLATION property=%s replay=%s" % (pid, path))
        lines.append("  %s: %s" % (fl["sub"], fl["message"][:500]))
    samples = []
    for s in res["subs"]:
        for c in s["samples"][:2]:
            samples.append({"check": s["name"], "case": c})
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": sum(s["evaluations"] for s in res["subs"]),
            "distinct_nontrivial": sum(len(s["nontrivial"]) for s in res["subs"]),
            "rule": "Hypothesis-generated cases, run against an explicit oracle; "
            + "non-trivial, per sub-check: "
            + " | ".join("%s: %s" % (s["name"], s["rule"]) for s in res["subs"]),
            "samples": samples,
            "shards": shards,
            "known_findings_met": res["findings"],
            "sub_checks": [
                {
                    "name": s["name"],
                    "evaluations": s["evaluations"],
                    "distinct_nontrivial": len(s["nontrivial"]),
                    "not_run_out_of_time": s["skipped"],
                    "classes": s["labels"],
                    "wall_s": s["wall_s"],
                }
                for s in res["subs"]
            ],
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": len(res["failures"]),
    }
    with open(os.path.join(here, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for fid, what in known.items():
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    for ln in lines:
        print(ln)
    if not lines:
        print(
            "%s held: %d cases, %d non-trivial, %.1f s"
            % (
                pid,
                ev["coverage"]["evaluations"],
                ev["coverage"]["distinct_nontrivial"],
                ev["wall_s"],
            )
        )
    return 1 if lines else 0
