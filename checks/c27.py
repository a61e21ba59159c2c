"""C27: an interrupted run leaves complete, restartable output."""
import os
import re
import signal
import subprocess
import time

import numpy as np
from hypothesis import strategies as st

import e2e
import fgbuild
import ref
import sim
from pbt import Test, require

PROPERTY = "C27"
RULE = "a case is non-trivial when the signal arrived during the integration and the run was not complete"
ASSUMPTIONS = ["signals are delivered at the evaluations of the applied field, which happen before each step, after it and at "
               "each output, by a preloaded library; a second test sends them after random delays",
               "the accepted and rejected steps are those of the verbose log"]
SIGAT = {"repo": [], "shims": ["sigat"], "libs": ["-ldl"]}
TARGETS = [(None, {"exe": fgbuild.EXE, "sigat": SIGAT})]


@st.composite
def interruptions(draw):
    c = draw(sim.problem(max_cells=3, nonmag=True, steps=(1, 4), kinds=("const", "time", "func", "space")))
    c["at"] = draw(st.integers(1, 40))
    c["sig"] = draw(st.sampled_from([int(signal.SIGTERM), int(signal.SIGINT)]))
    c["every"] = draw(st.sampled_from([1, 2, 100, False, 0]))
    c["du"] = draw(st.integers(1, 8))          # limit on the change, in units of the first change / 4
    c["coarse"] = draw(st.integers(1, 20))
    c["outdir"] = draw(st.sampled_from([".", "out"]))
    return c


STEP = re.compile(r"^evol step = (\d+), step = (\d+), t = (\S+), dt = (\S+)$", re.M)


def history(out, dumax):
    """accepted steps of a verbose log: list of (t, dt); None if the verdict on a step is not clear"""
    marks = list(STEP.finditer(out))
    acc = []
    for i, m in enumerate(marks):
        block = out[m.end():marks[i + 1].start() if i + 1 < len(marks) else len(out)]
        d = re.search(r"-> dumax = (\S+),", block)
        if not d:
            continue
        d = float(d.group(1))
        if abs(d / dumax - 1) < 1e-4:
            return None
        if d < dumax:
            acc.append((float(m.group(3)), float(m.group(4))))
    return acc


def settings_of(case, p, du):
    d = p.settings()
    d["outputs"].update({"mag_config_every": case["every"], "directory": case["outdir"], "evol_time_step": p.dt,
                         "final_time": p.t0 + p.dt * case["steps"]})
    d["finite_element_solver"] = {"tolerance": 1e-9, "max(iter)": 3000}
    d["time_integration"] = {"max(du)": du, "min(dt)": p.dt * 1e-4, "max(dt)": p.dtmax}
    return d


def check_interrupt(case, ctx):
    p = sim.Problem(case)
    exe = ctx.artefacts["exe"]
    cwd = ctx.fresh_dir()
    N = len(p.mesh.p)
    m = p.model
    mag = m.magnode
    u0 = np.nan_to_num(p.u0)
    v = m.step(u0, np.zeros((N, 3)), m.potential(u0), np.zeros(N), p.dt, p.taur, p.H(p.t0))
    first = p.dt * np.linalg.norm(v, axis=1).max()
    du = max(first * case["du"] / 4, 1e-9)
    d = settings_of(case, p, du)
    p.write(cwd, d)
    log = os.path.join(cwd, "calls")
    pre = {"LD_PRELOAD": ctx.artefacts["sigat"], "SIGAT_LOG": log}
    full = e2e.run(exe, ["-v", "--seed", "7", "s.yml"], cwd, env=pre)
    if full.rc != 0:
        ctx.nontrivial = False
        return
    out = os.path.join(cwd, case["outdir"])
    evol = os.path.join(out, "run.evol")
    cols, all_rows = e2e.read_evol(evol)
    total = int(open(log).read())
    for f in os.listdir(out):
        if f.endswith(".sol"):
            os.unlink(os.path.join(out, f))
    n = (case["at"] * 7) % (total + 2) + 1
    r = e2e.run(exe, ["-v", "--seed", "7", "s.yml"], cwd,
                env=dict(pre, SIGAT_N=str(n), SIGAT_SIG=str(case["sig"])))
    done = int(open(log).read())
    cols2, some = e2e.read_evol(evol)
    text = open(evol).read()
    require(text.endswith("\n"), "the last row of the evolution file is not complete: {!r}", text[-200:])
    require(cols2 == cols and all(len(x) == len(cols) for x in some), "incomplete rows in the evolution file: {}", some)
    # the first run was not interrupted and had the same seed
    for a, b in zip(some, all_rows):
        for c, x, y in zip(cols, a, b):
            if c != "max_angle" and c[:2] != "<d" and x != y:
                require(sim.close(float(x), float(y), 1e-5, 1e-5 if c[0] == "<" else 1e-22),
                        "{} is {} in the interrupted run, {} in the other", c, x, y)
    at_exit = os.path.join(out, "run_at_exit.sol")
    if n > total:
        require(r.rc == 0 and len(some) == len(all_rows), "run without a signal: {!r}", r)
        ctx.nontrivial = False
        return
    require(done - n <= 3, "the signal came at call {} of the field, and {} more followed: more than one step", n, done - n)
    if r.rc == 0:
        require(len(some) == len(all_rows), "signal ignored before the end: {} rows out of {}: {!r}", len(some),
                len(all_rows), r)
        ctx.nontrivial = False
        return
    require(r.rc == -case["sig"], "status {} after signal {}: {!r}", r.rc, case["sig"], r)
    require(re.search("Received SIG" + ("TERM" if case["sig"] == 15 else "INT"), r.out), "no message about the signal: {!r}", r)
    if not case["every"]:
        require(not [f for f in os.listdir(out) if f.endswith(".sol")], "configuration saved though disabled")
        ctx.label("not saved")
        return
    acc = history(r.out, du)
    if acc is None:
        ctx.nontrivial = False
        return
    require(os.path.exists(at_exit), "no configuration saved at exit: {}", os.listdir(out))
    t, scols, rows = e2e.read_sol(at_exit)
    require(open(at_exit).read().endswith("\n") and len(rows) == N and (rows[:, 0] == np.arange(N)).all(),
            "incomplete configuration: {}", rows)
    # the scheme, along the accepted steps
    u, v, tt = u0, np.zeros((N, 3)), p.t0
    phiv = np.zeros(N)
    for ts, dt in acc:
        v = m.step(u, v, m.potential(u), phiv, dt, p.taur, p.H(tt))
        u = m.advance(u, v, dt)
        phiv = m.potential(v)
        tt = tt + dt
    require(abs(t - tt) <= 1e-5 * (abs(tt) + p.dt), "configuration saved with the time {}, after the steps {}", t, acc)
    err = np.abs(rows[mag, 1:4] - u[mag]).max()
    require(err < 1e-4 * max(du * len(acc), 1e-3), "the state saved at exit is not that of the last accepted step (t = {}, {} steps): "
            "it differs by {} (limit on the change of a step: {})", tt, len(acc), err, du)
    phi = m.potential(u)
    require(np.abs(rows[mag, 4] - phi[mag]).max() <= 1e-4 * (np.abs(phi[mag]).max() + 1e-3 * 8e5 * p.L), "the potential saved at exit is not that of "
            "the last accepted step: {}, {} expected", rows[mag, 4], phi[mag])
    d2 = dict(d, initial_magnetization=os.path.join(case["outdir"], "run_at_exit.sol"))
    d2["outputs"] = dict(d["outputs"], file_basename="again", final_time=t, mag_config_every=1)
    d2.pop("initial_time", None)
    e2e.write_yaml(d2, os.path.join(cwd, "s.yml"))
    r = e2e.run(exe, ["s.yml"], cwd)
    sim.must_run(r, "restarting from the configuration saved at exit")
    t3, _, rows3 = e2e.read_sol(os.path.join(out, "again_iter0.sol"))
    require(np.array_equal(rows3[mag, 1:4], rows[mag, 1:4]) and sim.close(t3, t, 1e-6, 0), "restarted from something else")
    ctx.label("saved")
    ctx.label("after a rejected step", len(acc) < len(STEP.findall(r.out)) or n > 3)


@st.composite
def delays(draw):
    c = draw(sim.problem(max_cells=2, nonmag=True, steps=(1, 1), kinds=("const", "time", "space")))
    c["sig"] = draw(st.sampled_from([int(signal.SIGTERM), int(signal.SIGINT)]))
    c["every"] = draw(st.sampled_from([1, 100, False]))
    c["wait"] = draw(st.integers(0, 150))
    c["again"] = draw(st.booleans())
    return c


def default_signals():
    # a background job of a shell would inherit an ignored SIGINT
    for x in (signal.SIGINT, signal.SIGTERM):
        signal.signal(x, signal.SIG_DFL)
    signal.pthread_sigmask(signal.SIG_UNBLOCK, [signal.SIGINT, signal.SIGTERM])


def check_delay(case, ctx):
    p = sim.Problem(case)
    exe = ctx.artefacts["exe"]
    cwd = ctx.fresh_dir()
    N = len(p.mesh.p)
    d = p.settings()
    d["outputs"].update({"mag_config_every": case["every"], "final_time": p.t0 + p.dt * 20000})
    d["finite_element_solver"] = {"tolerance": 1e-6, "max(iter)": 3000}
    d["time_integration"]["max(du)"] = 0.1
    d["time_integration"]["min(dt)"] = p.dt * 1e-5
    p.write(cwd, d)
    env = {"PATH": "/usr/bin:/bin", "HOME": cwd, "XDG_CONFIG_HOME": os.path.join(cwd, "cfg"), "OMP_NUM_THREADS": "1"}
    pr = subprocess.Popen([exe, "s.yml"], cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                          stderr=subprocess.PIPE, start_new_session=True, preexec_fn=default_signals)
    time.sleep(case["wait"] / 1000)
    pr.send_signal(case["sig"])
    if case["again"]:
        time.sleep(0.0005)
        try:
            pr.send_signal(case["sig"])
        except ProcessLookupError:
            pass
    try:
        out, err = pr.communicate(timeout=60)
    except subprocess.TimeoutExpired:
        os.killpg(pr.pid, signal.SIGKILL)
        pr.communicate()
        require(False, "the run goes on 60 s after signal {}", case["sig"])
    out = out.decode(errors="replace")
    evol = os.path.join(cwd, "run.evol")
    seen = "Received SIG" in out
    if pr.returncode == 1:
        ctx.nontrivial = False      # the integration failed before
        return
    if pr.returncode == 0:
        require(False, "signal ignored: the run of 20000 steps came to its end")
    require(pr.returncode == -case["sig"], "status {} after signal {}: {} {}", pr.returncode, case["sig"], out[-500:], err[-500:])
    ctx.nontrivial = seen
    if not os.path.exists(evol):
        return                      # before the integration
    text = open(evol).read()
    cols, rows = e2e.read_evol(evol)
    if not seen:
        # two signals: the second one may arrive after the default action has been restored
        require(case["again"] or not rows, "killed without a message after {} rows", len(rows))
        return
    require(text.endswith("\n") and all(len(x) == len(cols) for x in rows), "incomplete rows: {!r}", text[-200:])
    times = [dict(zip(cols, map(float, x)))["t"] for x in rows]
    require(all(sim.close(t, p.t0 + i * p.dt, 1e-9, p.dt) for i, t in enumerate(times)), "times of the rows: {}", times)
    if not case["every"]:
        return
    t, _, sol = e2e.read_sol(os.path.join(cwd, "run_at_exit.sol"))
    require(len(sol) == N, "{} nodes saved instead of {}", len(sol), N)
    if times:
        require(times[-1] - 1e-6 * abs(times[-1]) <= t <= times[-1] + p.dt * (1 + 1e-6) + 1e-6 * abs(times[-1]),
                "configuration saved at exit for t = {}, last row at {}", t, times[-1])


TESTS = [Test("interrupt", interruptions(), check_interrupt, 320, 12000),
         Test("delay", delays(), check_delay, 240, 8000, flaky=True)]
