"""Small property-based testing runner on top of Hypothesis.

A check module (checks/<id>.py) defines
    PROPERTY, RULE, ASSUMPTIONS, TARGETS (what to build), TESTS = [Test(...)], optionally PROBES
    (known findings: fixed inputs for listed findings).
Every generated case is a JSON value; a test is a function check(case, ctx) that raises Violation.
A failing case is shrunk by Hypothesis, written to a replay file, and replayed in fresh processes,
without Hypothesis, before a violation is reported.
"""
import errno
import hashlib
import importlib
import json
import os
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
sys.path.insert(0, HERE)

import yaml  # noqa: E402

import fgbuild  # noqa: E402

NWORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
HANG_S = float(os.environ.get("VERIF_HANG_S", "45"))
SHRINK_S = float(os.environ.get("VERIF_SHRINK_S", "40"))


class Violation(Exception):
    pass


class Abort(BaseException):
    """Stops a Hypothesis run (time budget, shrink budget)."""


class Test:
    def __init__(self, name, strategy, check, quick, thorough, nontrivial=None, isolate=False,
                 flaky=False):
        self.name, self.strategy, self.check = name, strategy, check
        self.quick, self.thorough = quick, thorough
        self.nontrivial = nontrivial or (lambda case: True)
        self.isolate = isolate      # run each case in a forked child
        self.flaky = flaky          # nondeterministic: one replay out of three confirms


class Ctx:
    """What a test sees: built artefacts, a scratch directory, labels."""
    def __init__(self, artefacts, scratch):
        self.artefacts = artefacts
        self.scratch = scratch
        self.labels = {}
        self.cache = {}
        self.nontrivial = None

    def label(self, name, n=1):
        self.labels[name] = self.labels.get(name, 0) + int(n)

    def lib(self, name):
        import ctypes
        if name not in self.cache:
            self.cache[name] = ctypes.CDLL(self.artefacts[name])
        return self.cache[name]

    def fresh_dir(self):
        d = os.path.join(self.scratch, "case")
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        return d


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg.format(*args) if args else msg)


def case_key(test, case):
    return hashlib.sha1((test + json.dumps(case, sort_keys=True)).encode()).hexdigest()[:16]


def judge(test, case, ctx):
    """Runs the check. The oracles read what the program writes: output they cannot read (a file
    missing, a field which is no number) is a violation, not a fault of the harness."""
    try:
        test.check(case, ctx)
    except (ValueError, KeyError, IndexError, TypeError, OSError, ZeroDivisionError,
            yaml.YAMLError, UnicodeError) as e:
        if isinstance(e, OSError) and e.errno in (errno.ENOSPC, errno.ENOMEM, errno.EAGAIN,
                                                  errno.EMFILE):
            raise
        raise Violation("the output could not be understood: "
                        + traceback.format_exc()[-1500:]) from e


def run_isolated(test, case, ctx):
    """Runs the check in a forked child: a crash or an uncaught abort is a violation."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        code, msg = 0, {}
        try:
            judge(test, case, ctx)
            msg = {"labels": ctx.labels, "nontrivial": ctx.nontrivial}
        except Violation as e:
            code, msg = 1, {"violation": str(e)}
        except BaseException:
            code, msg = 2, {"error": traceback.format_exc()[-3000:]}
        try:
            os.write(w, json.dumps(msg).encode()[:60000])
        finally:
            os._exit(code)
    os.close(w)
    data = b""
    t_end = time.time() + HANG_S
    while True:
        if not select.select([r], [], [], max(0.0, t_end - time.time()))[0]:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
            raise Violation(f"the code under test did not terminate within {HANG_S} s")
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        raise Violation(f"the code under test crashed: signal {os.WTERMSIG(st)}")
    msg = json.loads(data or b"{}")
    code = os.WEXITSTATUS(st)
    if code == 0:
        ctx.labels = msg.get("labels", ctx.labels)
        ctx.nontrivial = msg.get("nontrivial")
        return
    if code == 1:
        raise Violation(msg["violation"])
    raise RuntimeError("harness error: " + msg.get("error", "?"))


def worker(mod, artefacts, k, seed, tier, out, isolate, tests):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    deadline = time.time() + (float(os.environ.get("VERIF_QUICK_CAP", "240")) if tier == "quick"
                              else float(os.environ.get("VERIF_THOROUGH_CAP", "600")))
    cpus = sorted(os.sched_getaffinity(0))
    os.sched_setaffinity(0, {cpus[(k + i) % len(cpus)] for i in range(2)})
    os.environ["OMP_NUM_THREADS"] = "2"
    scratch = tempfile.mkdtemp(prefix=f"verif-{mod.PROPERTY}-")
    ctx = Ctx(artefacts, scratch)
    res = {"tests": {}, "failure": None, "error": None}
    current = out + ".current"
    try:
        todo = [t for t in mod.TESTS if not tests or t.name in tests]
        for j, test in enumerate(todo):
            # each test gets its share of the time left
            limit = time.time() + (deadline - time.time()) / (len(todo) - j)
            total = test.quick if tier == "quick" else test.thorough
            total = max(1, int(total * float(os.environ.get("VERIF_SCALE", "1"))))
            n = total // NWORKERS + (1 if k < total % NWORKERS else 0)
            if n == 0:
                continue
            ctx.labels = {}
            st = {"evaluations": 0, "nontrivial": [], "samples": [], "labels": {}, "capped": False}
            seen = set()
            state = {"fail": None, "t_fail": None, "best": None}

            def run_one(case, test=test, st=st, seen=seen, state=state, limit=limit):
                now = time.time()
                if state["fail"] is None and now > limit:
                    st["capped"] = True
                    raise Abort()
                if state["fail"] is not None and now - state["t_fail"] > SHRINK_S:
                    raise Abort()
                with open(current, "w") as f:
                    json.dump({"test": test.name, "case": case}, f)
                ctx.nontrivial = None
                try:
                    if isolate or test.isolate:
                        run_isolated(test, case, ctx)
                    else:
                        judge(test, case, ctx)
                except Violation as e:
                    if state["fail"] is None:
                        state["t_fail"] = now
                        st["evaluations"] += 1
                    size = len(json.dumps(case))
                    if state["best"] is None or size <= state["best"]:
                        state["best"] = size
                        state["fail"] = {"test": test.name, "case": case, "message": str(e)}
                    raise
                if state["fail"] is None:
                    st["evaluations"] += 1
                    nt = ctx.nontrivial if ctx.nontrivial is not None else test.nontrivial(case)
                    if nt:
                        key = case_key(test.name, case)
                        if key not in seen:
                            seen.add(key)
                            st["nontrivial"].append(key)
                            if len(st["samples"]) < 2:
                                st["samples"].append(case)

            # Hypothesis spends five cases out of six on variants of the last one in which a part
            # is copied over another. In long choice sequences that shifts what follows, which is
            # then replaced by the simplest values: most cases were alike. Plain random
            # generation covers far more.
            engine = importlib.import_module("hypothesis.internal.conjecture.engine")
            if hasattr(engine.ConjectureRunner, "generate_mutations_from"):
                engine.ConjectureRunner.generate_mutations_from = lambda self, data: None
            prop = given(test.strategy)(lambda case: run_one(case))
            prop = hypothesis.seed(seed * 1009 + k)(prop)
            prop = settings(max_examples=n, deadline=None, database=None, print_blob=False,
                            report_multiple_bugs=False, derandomize=False,
                            suppress_health_check=list(HealthCheck),
                            phases=(Phase.generate, Phase.shrink))(prop)
            try:
                prop()
            except Abort:
                pass
            except Violation:
                pass
            except hypothesis.errors.Flaky:
                pass
            except BaseException as e:
                if state["fail"] is None:
                    raise
            st["labels"] = dict(ctx.labels)
            res["tests"][test.name] = st
            if state["fail"]:
                res["failure"] = state["fail"]
                break
    except BaseException:
        res["error"] = traceback.format_exc()[-6000:]
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    with open(out, "w") as f:
        json.dump(res, f)


def replay(mod, artefacts, path):
    """exit status 0: the case passes, 1: it fails, 2: harness error"""
    with open(path) as f:
        rec = json.load(f)
    test = next(t for t in mod.TESTS if t.name == rec["test"])
    scratch = tempfile.mkdtemp(prefix=f"verif-{mod.PROPERTY}-")
    ctx = Ctx(artefacts, scratch)
    try:
        run_isolated(test, rec["case"], ctx)
    except Violation as e:
        print("replay: FAILS:", e)
        return 1
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    print("replay: passes")
    return 0


def load(prop):
    sys.path.insert(0, os.path.join(VERIF, "checks"))
    return importlib.import_module(prop.lower())


def known_findings(prop):
    out = []
    path = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line and not line.startswith("#"):
                e = json.loads(line)
                if e["property"] == prop and e["status"] == "known":
                    out.append(e)
    return out


def sub(args, **kw):
    return [sys.executable, os.path.abspath(__file__), *args]


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=None, choices=["quick", "thorough"])
    ap.add_argument("--worker", type=int)
    ap.add_argument("--out")
    ap.add_argument("--artefacts")
    ap.add_argument("--isolate", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--test", action="append")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = a.tier or os.environ.get("VERIF_TIER", "quick")
    mod = load(a.prop)

    if a.worker is not None:
        worker(mod, json.load(open(a.artefacts)), a.worker, seed, tier, a.out, a.isolate, a.test)
        return 0
    if a.artefacts:
        return replay(mod, json.load(open(a.artefacts)), a.replay)

    t0 = time.time()
    artefacts, notes = {}, []
    try:
        for opts, targets in mod.TARGETS:
            built = fgbuild.Builder(opts).build(targets)
            artefacts.update(built)
    except fgbuild.BuildError as e:
        print(str(e), file=sys.stderr)
        print(f"{a.prop}: build failed: no verdict", file=sys.stderr)
        return 2
    build_s = time.time() - t0
    run_dir = tempfile.mkdtemp(prefix=f"verif-run-{a.prop}-")
    try:
        return drive(mod, a, artefacts, run_dir, seed, tier, t0, build_s, notes)
    finally:
        shutil.rmtree(run_dir, ignore_errors=True)


def drive(mod, a, artefacts, run_dir, seed, tier, t0, build_s, notes):
    prop = mod.PROPERTY
    art = os.path.join(run_dir, "artefacts.json")
    with open(art, "w") as f:
        json.dump(artefacts, f)
    if a.replay:
        return subprocess.call(sub([prop, "--replay", os.path.abspath(a.replay), "--artefacts", art]))

    # The listed findings: replayed on their recorded input, one line each.
    for e in known_findings(prop):
        rec = os.path.join(run_dir, "known.json")
        with open(rec, "w") as f:
            json.dump({"test": e["test"], "case": e["case"]}, f)
        rc = subprocess.call(sub([prop, "--replay", rec, "--artefacts", art]),
                             stdout=subprocess.DEVNULL)
        if rc == 1:
            print(f"KNOWN-FINDING: property={prop} {e['what']}")
        else:
            notes.append(f"known finding {e['id']} did not reproduce")

    def spawn(k, isolate):
        out = os.path.join(run_dir, f"w{k}.json")
        cmd = sub([prop, "--tier", tier, "--worker", str(k), "--out", out, "--artefacts", art])
        if isolate:
            cmd.append("--isolate")
        for t in a.test or []:
            cmd += ["--test", t]
        log = open(out + ".log", "w")
        return k, out, subprocess.Popen(cmd, stdout=log, stderr=log, start_new_session=True)

    def reap(procs):
        results = []
        for k, out, p in procs:
            rc = None
            while rc is None:
                try:
                    rc = p.wait(timeout=2)
                except subprocess.TimeoutExpired:
                    try:
                        age = time.time() - os.path.getmtime(out + ".current")
                    except OSError:
                        age = 0
                    if age > HANG_S + 30:   # stuck in one case
                        try:
                            os.killpg(p.pid, signal.SIGKILL)
                        except OSError:
                            p.kill()
            if os.path.exists(out):
                results.append((k, json.load(open(out)), None))
            else:
                cur = None
                try:
                    cur = json.load(open(out + ".current"))
                except Exception:
                    pass
                results.append((k, None, {"rc": rc, "current": cur,
                                          "log": open(out + ".log").read()[-3000:]}))
        return results

    results = reap([spawn(k, False) for k in range(NWORKERS)])
    failures, errors = [], []
    good = []
    for k, res, crash in results:
        if res is not None:
            good.append(res)
            if res["error"]:
                errors.append(res["error"])
            if res["failure"]:
                failures.append(res["failure"])
    crashed = [(k, c) for k, res, c in results if res is None]
    if crashed and not failures:
        # The code under test took the worker down with it: run those workers again with every
        # case in its own process, so that the failure can be shrunk.
        again = reap([spawn(k, True) for k, _ in crashed])
        for (k, res, crash), (_, first) in zip(again, crashed):
            if res is not None:
                good.append(res)
                if res["error"]:
                    errors.append(res["error"])
                if res["failure"]:
                    failures.append(res["failure"])
            if not failures and first["current"] is not None:
                failures.append({"test": first["current"]["test"], "case": first["current"]["case"],
                                 "message": f"process died, status {first['rc']}: {first['log']}"})
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": mod.RULE, "samples": [],
           "tests": {}, "build_s": round(build_s, 1)}
    keys = set()
    for res in good:
        for name, st in res["tests"].items():
            t = cov["tests"].setdefault(name, {"evaluations": 0, "labels": {}, "nontrivial": set()})
            t["evaluations"] += st["evaluations"]
            t["nontrivial"] |= set(st["nontrivial"])
            for l, n in st["labels"].items():
                t["labels"][l] = t["labels"].get(l, 0) + n
            if st["capped"]:
                t["capped"] = True
            cov["evaluations"] += st["evaluations"]
            keys |= set(st["nontrivial"])
            have = sum(1 for s in cov["samples"] if s["test"] == name)
            if have < 1 and st["samples"]:
                txt = json.dumps(st["samples"][-1])
                cov["samples"].append({"test": name,
                                       "case": st["samples"][-1] if len(txt) < 3000 else txt[:3000]})
    for t in cov["tests"].values():
        t["distinct_nontrivial"] = len(t.pop("nontrivial"))
    cov["distinct_nontrivial"] = len(keys)

    status, violations, path = 0, 0, None
    failures.sort(key=lambda f: len(json.dumps(f["case"])))
    for failure in failures:
        rdir = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{prop}-{failure['test']}.json")
        with open(path, "w") as f:
            json.dump(dict(failure, property=prop, seed=seed, tier=tier), f, indent=1)
        test = next(t for t in mod.TESTS if t.name == failure["test"])
        rcs = [subprocess.call(sub([prop, "--replay", path, "--artefacts", art]),
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
               for _ in range(3)]
        fails = rcs.count(1)
        if fails == 3 or (test.flaky and fails >= 1):
            violations, status = 1, 1
            print(f"{prop} {failure['test']}: {failure['message'][:2000]}")
            print(f"replay: {sys.executable} {os.path.abspath(__file__)} {prop} --replay {path}")
            break
        else:
            notes.append(f"a failure of {failure['test']} did not reproduce ({rcs}): not reported")
            errors.append(f"unreproducible failure: {failure['message'][:500]} {rcs}")
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": mod.ASSUMPTIONS, "wall_s": round(time.time() - t0, 2),
          "violations": violations}
    if notes:
        ev["notes"] = notes
    if errors:
        ev["harness_errors"] = errors[:3]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    if status:
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors:
        for e in errors[:3]:
            print(e, file=sys.stderr)
        if cov["evaluations"] == 0 or not good or all(r["error"] for r in good):
            print(f"{prop}: harness error: no verdict", file=sys.stderr)
            return 2
        if any(not e.startswith("unreproducible") for e in errors):
            print(f"{prop}: harness error: no verdict", file=sys.stderr)
            return 2
    print(f"{prop}: held on {cov['evaluations']} cases ({cov['distinct_nontrivial']} distinct "
          f"non-trivial), {ev['wall_s']} s")
    return 0


if __name__ == "__main__":
    import pbt      # the check modules import this file under this name
    sys.exit(pbt.main())
