"""C11: a saved configuration can be restored, and restarting continues the run."""
import os

import numpy as np
from hypothesis import strategies as st

import e2e
import fgbuild
import ref
import sim
from pbt import Test, require

PROPERTY = "C11"
RULE = ("a case is non-trivial when the restored state is not uniform; for damaged files, when the file is not the "
        "one which was saved")
ASSUMPTIONS = ["a restored run starts at rest: the velocity, which the second order terms of the scheme use, is not saved",
               "a value cut short at the very end of the file cannot be told from a shorter one, if the potential: it is not judged",
               "the columns of the spin accumulation are appended by the test itself"]
TARGETS = [(None, {"exe": fgbuild.EXE})]


@st.composite
def restarts(draw):
    c = draw(sim.problem(max_cells=4, nonmag=True, steps=(0, 2)))
    c["more"] = draw(st.integers(0, 2))
    c["spin"] = draw(st.integers(0, 3)) == 0
    c["crlf"] = draw(st.integers(0, 9)) == 0
    c["meta"] = draw(st.sampled_from([{}, {}, {"time": "noon"}, {"note": "two\nlines"}, {"time": "1e-3"}, {"a": "## time: 5"}]))
    c["t0given"] = draw(st.integers(0, 3)) == 0
    c["perm2"] = draw(st.booleans())
    return c


def lines_of(path):
    with open(path) as f:
        return f.read().split("\n")


def saved(path, N):
    t, cols, rows = e2e.read_sol(path)
    require(cols[:5] == ["idx", "mx", "my", "mz", "phi"], "unexpected columns {}", cols)
    require(len(rows) == N and (rows[:, 0] == np.arange(N)).all(), "node indices of the saved configuration: {}", rows[:, 0])
    return t, rows


def check_restart(case, ctx):
    p = sim.Problem(case)
    exe = ctx.artefacts["exe"]
    cwd = ctx.fresh_dir()
    N = len(p.mesh.p)
    out = {"outputs": {"metadata": case["meta"]}}
    r, table, acc = p.run_steps(exe, cwd, **out)
    k = case["steps"]
    src = os.path.join(cwd, f"run_iter{k}.sol")
    t, rows = saved(src, N)
    mag = p.model.magnode
    text = lines_of(src)
    if case["spin"]:
        text = [x + "\tsx\tsy\tsz" if x.startswith("## columns") else x + "\t1.5e+20\tnan\t-2e-3" if x and x[0] != "#" else x
                for x in text]
    with open(os.path.join(cwd, "in.sol"), "w", newline="") as f:
        f.write(("\r\n" if case["crlf"] else "\n").join(text))
    t_start = t
    d = p.settings(initial_magnetization="in.sol", **out)
    d["outputs"]["file_basename"] = "again"
    d.pop("initial_time", None)
    if case["t0given"]:
        t_start = p.dt * 7
        d["initial_time"] = t_start
    d["outputs"]["final_time"] = t_start + p.dt * case["more"]
    with open(os.path.join(cwd, "out.txt"), "w"):
        pass
    sim.meshgen.write_msh(p.mesh, os.path.join(cwd, "m.msh"), "22a" if case["perm2"] else case["fmt"])
    for tol in (1e-12, 1e-9, 1e-6):
        d["finite_element_solver"] = {"tolerance": tol, "max(iter)": 3000}
        e2e.write_yaml(d, os.path.join(cwd, "s.yml"))
        r = e2e.run(exe, ["--seed", "11", "s.yml"], cwd)
        if r.rc == 0:
            cols, raw = e2e.read_evol(os.path.join(cwd, "again.evol"))
            new = sim.rows(cols, raw)
            if all(sim.close(x["dt"], p.dt, 1e-6, 0) for x in new[1:]):
                break
    sim.must_run(r, "restart")
    t2, rows2 = saved(os.path.join(cwd, "again_iter0.sol"), N)
    require(sim.close(t2, t_start, 2e-6, 0), "time {} restored as {}", t_start, t2)
    a, b = rows[:, 1:4], rows2[:, 1:4]
    require(np.array_equal(a[mag], b[mag]), "magnetization read back differs from what was saved: {} != {}", a[mag], b[mag])
    require(np.isnan(b[~mag]).all(), "non-magnetic nodes restored as {}", b[~mag])
    scale = np.abs(rows[:, 4]).max() + 1e-7 * 8e5 * p.L
    require(np.allclose(rows2[mag, 4], rows[mag, 4], rtol=0, atol=2e-6 * scale + 1e-9 * 8e5 * p.L),
            "potential of the restored state {}, {} before", rows2[:, 4], rows[:, 4])
    for c in sim.M_COLS + ["max_angle"]:
        require(sim.close(new[0][c], table[-1][c], 1e-6 if c != "max_angle" else 2e-3, 1 if c != "max_angle" else 0.1),
                "{} of the restored state {}, {} before", c, new[0][c], table[-1][c])
    # going on: the scheme, started at rest from the saved state
    if case["more"]:
        m = p.model
        u = np.nan_to_num(rows[:, 1:4])
        v = np.zeros((N, 3))
        phiv = np.zeros(N)
        tt = t_start if case["t0given"] else t
        H0 = p.H
        for i in range(case["more"]):
            v = m.step(u, v, m.potential(u), phiv, p.dt, p.taur, H0(tt))
            u = m.advance(u, v, p.dt)
            phiv = m.potential(v)
            tt += p.dt
            ts, rs = saved(os.path.join(cwd, f"again_iter{i + 1}.sol"), N)
            err = np.abs(rs[mag, 1:4] - u[mag]).max()
            require(err < max(3e-6, 20 * acc), "step {} after restarting: magnetization differs by {} from the scheme "
                    "started there: {} != {}", i + 1, err, rs[mag, 1:4], u[mag])
            require(sim.close(ts, tt, 1e-5, 0), "time {} instead of {}", ts, tt)
    ctx.nontrivial = case["m0"][0][1:] != [0, 0, 0] or case["m0"][1][1:] != [0, 0, 0]
    ctx.label("non-magnetic region", not mag.all())
    ctx.label("spin columns", case["spin"])
    ctx.label("continued", case["more"] > 0)


SPREAD = st.binary(min_size=3, max_size=3).map(lambda b: int.from_bytes(b, "big"))
DAMAGE = ["cut", "cut", "cut-line", "no-time", "bad-time", "drop-row", "dup-row", "swap-rows", "extra-row", "bad-index", "word", "drop-value",
          "empty", "binary", "other-mesh", "nan", "is-evol", "shift-index", "zero", "blank"]
WORDS = ["x", "1.0x", "", "--1", "1e", "0,5", "NaNa", "1.0.0"]


@st.composite
def damages(draw):
    c = draw(sim.problem(max_cells=3, nonmag=True, steps=(0, 0)))
    c["damage"] = draw(st.sampled_from(DAMAGE))
    c["a"] = draw(SPREAD)
    c["b"] = draw(SPREAD)
    return c


def damage(case, text, mag):
    """(new text, must it be rejected: True, or None when either is fine)"""
    kind, a, b = case["damage"], case["a"], case["b"]
    lines = text.split("\n")[:-1]
    h = next(i for i, x in enumerate(lines) if x and x[0] != "#")
    rows = lines[h:]
    n = len(rows)
    i = h + a % n
    join = lambda x: "\n".join(x) + "\n"
    if kind == "cut":
        k = a % (len(text) - 1)
        new = text[:k]
        last = text.rstrip("\n").rfind("\t")        # the last value is a potential, which is not used
        return new, (True if k <= last + 1 else None)
    if kind == "cut-line":
        k = a % len(lines)
        return "\n".join(lines[:k]) + ("\n" if b % 2 else ""), True
    if kind == "no-time":
        return join([x for x in lines if not x.startswith("## time:")]), True
    if kind == "bad-time":
        return join(["## time: " + ["", "now", "e-9", "--1"][b % 4] if x.startswith("## time:") else x for x in lines]), True
    if kind == "drop-row":
        return join(lines[:i] + lines[i + 1:]), True
    if kind == "dup-row":
        return join(lines[:i] + [lines[i]] + lines[i:]), True
    if kind == "swap-rows":
        j = h + b % n
        if i == j:
            return None, None
        lines[i], lines[j] = lines[j], lines[i]
        return join(lines), True
    if kind == "extra-row":
        return join(lines + ["%d\t1.0\t0.0\t0.0\t0.0" % (n + k) for k in range(1 + b % 3)]), True
    if kind == "bad-index":
        f = lines[i].split("\t")
        f[0] = ["-1", "x", str(n + 5), "", "1e3", str(int(f[0]) + 1), "-" + f[0], f[0] + ".5"][b % 8]
        if f[0] == "-0":
            return None, None
        lines[i] = "\t".join(f)
        return join(lines), True
    if kind == "word":
        f = lines[i].split("\t")
        f[1 + b % 4] = WORDS[(b // 4) % len(WORDS)]
        lines[i] = "\t".join(f)
        return join(lines), True
    if kind == "drop-value":
        f = lines[i].split("\t")
        f.pop(b % len(f))
        if float(f[0]) == i - h and len(f) > 4:
            return None, None       # the spin columns are optional
        lines[i] = "\t".join(f)
        return join(lines), True
    if kind == "empty":
        return ["", "\n", "# nothing\n", "## time: 0\n"][b % 4], True
    if kind == "binary":
        return "\x00\x01\x02" * 20, True
    if kind in ("nan", "zero"):
        m = [k for k in range(n) if mag[k]]
        k = m[a % len(m)]
        f = lines[h + k].split("\t")
        if kind == "zero":
            f[1:4] = ["0", "0.0", "0e0"]
        else:
            f[1 + b % 3] = ["nan", "inf", "-nan"][(b // 3) % 3]
        lines[h + k] = "\t".join(f)
        return join(lines), True
    if kind == "shift-index":
        for k in range(n):
            f = lines[h + k].split("\t")
            lines[h + k] = "\t".join([str(k + 1), *f[1:]])
        return join(lines), True
    if kind == "blank":
        # blank lines at the end are harmless
        return text + "\n" * (1 + b % 3), False
    return None, None


def check_damage(case, ctx):
    p = sim.Problem(case)
    exe = ctx.artefacts["exe"]
    cwd = ctx.fresh_dir()
    r = p.run(exe, cwd)
    sim.must_run(r)
    src = os.path.join(cwd, "run_iter0.sol")
    text = open(src).read()
    kind = case["damage"]
    if kind == "other-mesh":
        other = dict(case, mesh=dict(case["mesh"], n=[case["mesh"]["n"][0] + 1, *case["mesh"]["n"][1:]]))
        q = sim.Problem(other)
        sim.meshgen.write_msh(q.mesh, os.path.join(cwd, "m.msh"), case["fmt"])
        new, bad = text, True
        if case["b"] % 2:
            # the converse: file of the larger mesh
            q.regs, q.surf = q.regs, q.surf
            sim.meshgen.write_msh(q.mesh, os.path.join(cwd, "m.msh"), case["fmt"])
            e2e.write_yaml(q.settings(), os.path.join(cwd, "s.yml"))
            r = e2e.run(exe, ["s.yml"], cwd)
            sim.must_run(r)
            new = open(src).read()
            sim.meshgen.write_msh(p.mesh, os.path.join(cwd, "m.msh"), case["fmt"])
    elif kind == "is-evol":
        new, bad = open(os.path.join(cwd, "run.evol")).read(), True
    else:
        new, bad = damage(case, text, p.model.magnode)
    if new is None:
        ctx.nontrivial = False
        return
    with open(os.path.join(cwd, "in.sol"), "w") as f:
        f.write(new)
    e2e.write_yaml(p.settings(initial_magnetization="in.sol"), os.path.join(cwd, "s.yml"))
    r = e2e.run(exe, ["s.yml"], cwd)
    require(r.rc in (0, 1), "configuration file damaged ({}): {!r}", kind, r)
    if bad:
        require(r.rc == 1, "a damaged configuration file was used ({}): {!r}", kind, r)
    if bad is False:
        require(r.rc == 0, "a valid configuration file was rejected ({}): {!r}", kind, r)
    if r.rc == 1:
        require(r.err.strip(), "configuration file rejected without a message ({}): {!r}", kind, r)
    ctx.label("damage:" + kind)
    ctx.nontrivial = True


TESTS = [Test("restart", restarts(), check_restart, 320, 12000),
         Test("damage", damages(), check_damage, 640, 24000)]
