"""Generated micromagnetic problems: strategies, settings files, reference models, runs."""
import math
import os
import re

import numpy as np
from hypothesis import strategies as st

import e2e
import meshgen
import ref
from pbt import require

ENERGY_COLS = ["E_ex", "E_aniso", "E_demag", "E_zeeman", "E_tot"]
M_COLS = ["<Mx>", "<My>", "<Mz>"]
V_COLS = ["<dMx/dt>", "<dMy/dt>", "<dMz/dt>"]
ALL_COLS = ["iter", "t", "dt", "max_dm", "max_angle", *M_COLS, *V_COLS, *ENERGY_COLS,
            "Hx", "Hy", "Hz"]

AXIS = st.tuples(*[st.integers(-3, 3)] * 3).filter(lambda a: any(a)).map(list)


def rotation(a, b, c):
    """orthonormal frame from three integers"""
    q = np.array([4.0, a, b, c])
    w, x, y, z = q / np.linalg.norm(q)
    return np.array([[1-2*(y*y+z*z), 2*(x*y-z*w), 2*(x*z+y*w)],
                     [2*(x*y+z*w), 1-2*(x*x+z*z), 2*(y*z-x*w)],
                     [2*(x*z-y*w), 2*(y*z+x*w), 1-2*(x*x+y*y)]])


@st.composite
def region(draw, magnetic=None, cubic=True):
    r = {}
    if magnetic is None:
        magnetic = True
    if not magnetic:
        r["Ms"] = 0
    else:
        ms = draw(st.sampled_from([None, 8e5, 4e5, 1.2e6, "Js1.0", "Js0.3"]))
        if isinstance(ms, str):
            r["Js"] = float(ms[2:])
        elif ms is not None:
            r["Ms"] = ms
    if draw(st.booleans()):
        r["Ae"] = draw(st.sampled_from([1.5e-11, 3e-12, 0]))
    if draw(st.booleans()):
        r["alpha_LLG"] = draw(st.sampled_from([0.02, 0.1, 1.0]))
    if draw(st.booleans()):
        r["K"] = draw(st.sampled_from([5e4, -8e4, 1e6]))
        if draw(st.booleans()):
            r["uk"] = draw(AXIS)
    if cubic and draw(st.booleans()):
        r["K3"] = draw(st.sampled_from([4e4, -2e4, 3e5]))
        if draw(st.booleans()):
            R = rotation(*[draw(st.integers(-3, 3)) for _ in range(3)])
            if draw(st.booleans()):
                R = -R                                          # a left-handed set of axes is as good
            for k, row in zip(("ex", "ey", "ez"), R):
                r[k] = [float(x) for x in row * draw(st.sampled_from([1, 1, 2.5]))]
    return r


@st.composite
def surface(draw, ks=True, suppress=True):
    s = {}
    if suppress and draw(st.integers(0, 2)) == 0:
        s["suppress_charges"] = draw(st.booleans())
    # anisotropy of a surface whose charges are suppressed: not specified, not generated
    if ks and not s.get("suppress_charges") and draw(st.booleans()):
        s["Ks"] = draw(st.sampled_from([1e-4, -3e-4, 2e-3]))
        if draw(st.booleans()):
            s["uk"] = draw(AXIS)
    return s


@st.composite
def texture(draw):
    """m(r) given by two angles, affine in the coordinates: 8 integers"""
    uniform = draw(st.integers(0, 5)) == 0
    th = [draw(st.integers(-8, 8))] + [0 if uniform else draw(st.integers(-4, 4)) for _ in range(3)]
    ph = [draw(st.integers(-8, 8))] + [0 if uniform else draw(st.integers(-4, 4)) for _ in range(3)]
    return [th, ph]


def texture_expr(tx, L):
    def ang(c):
        return "(%r + (%r*x + %r*y + %r*z)/%r)" % (c[0] * 0.4, c[1] * 0.5, c[2] * 0.5, c[3] * 0.5, L)
    th, ph = ang(tx[0]), ang(tx[1])
    return [f"sin({th})*cos({ph})", f"sin({th})*sin({ph})", f"cos({th})"]


def texture_eval(tx, p, L):
    def ang(c):
        return c[0] * 0.4 + (c[1] * 0.5 * p[:, 0] + c[2] * 0.5 * p[:, 1] + c[3] * 0.5 * p[:, 2]) / L
    th, ph = ang(tx[0]), ang(tx[1])
    u = np.array([np.sin(th) * np.cos(ph), np.sin(th) * np.sin(ph), np.cos(th)]).T
    return u / np.linalg.norm(u, axis=1)[:, None]


@st.composite
def field(draw, kinds=("none", "const", "time", "func", "space")):
    k = draw(st.sampled_from(kinds))
    f = {"k": k}
    if k != "none":
        f["b"] = [draw(st.integers(-20, 20)) for _ in range(3)]
    if k in ("time", "func", "space"):
        f["w"] = draw(st.integers(1, 9))
    if k == "space":
        f["g"] = [draw(st.integers(-5, 5)) for _ in range(3)]
    return f


def field_yaml(f, dt, L):
    """applied field (T)"""
    if f["k"] == "none":
        return None
    b = [x / 20 for x in f["b"]]
    if f["k"] == "const":
        return b
    w = f["w"] * 0.3 / dt
    if f["k"] == "time":
        return ["%r*cos(%r*t)" % (b[0], w), "%r*sin(%r*t)" % (b[1], w), "%r*(1+%r*t)" % (b[2], w)]
    if f["k"] == "func":
        return ("function (t) { return [%r*cos(%r*t), %r*sin(%r*t), %r*(1+%r*t)]; }"
                % (b[0], w, b[1], w, b[2], w))
    g = [x / 10 for x in f["g"]]
    return {"space": "function (x, y, z) { return [%r + %r*x/%r, %r + %r*y/%r, %r + %r*z*x/%r/%r]; }"
            % (b[0], g[0], L, b[1], g[1], L, b[2], g[2], L, L),
            "time": "function (t) { return 1 + 0.5*sin(%r*t); }" % w}


def field_eval(f, dt, L, t):
    """function point -> H (A/m)"""
    if f["k"] == "none":
        return lambda x: np.zeros(3)
    b = np.array(f["b"]) / 20
    if f["k"] == "const":
        h = b / ref.MU0
        return lambda x: h
    w = f["w"] * 0.3 / dt
    if f["k"] in ("time", "func"):
        h = np.array([b[0] * math.cos(w * t), b[1] * math.sin(w * t), b[2] * (1 + w * t)]) / ref.MU0
        return lambda x: h
    g = np.array(f["g"]) / 10
    a = (1 + 0.5 * math.sin(w * t)) / ref.MU0
    return lambda x: a * np.array([b[0] + g[0] * x[0] / L, b[1] + g[1] * x[1] / L,
                                   b[2] + g[2] * x[2] * x[0] / L / L])


@st.composite
def problem(draw, max_cells=4, max_n=3, regions=2, nonmag=False, ks=True, suppress=True, cubic=True,
            kinds=("none", "const", "time", "func", "space"), sides=("x0", "x1", "z1", "if"),
            steps=(0, 3)):
    c = {"mesh": draw(meshgen.mesh_case(max_n=max_n, max_cells=max_cells, regions=regions,
                                        sides=sides, flip=True, axis=True))}
    used = sorted(set(c["mesh"].get("reg") or [0]))
    c["regs"] = {}
    for j, r in enumerate(used):
        mag = True
        if nonmag and j and draw(st.integers(0, 2)) == 0:
            mag = False
        c["regs"][f"vol{r}"] = draw(region(magnetic=mag, cubic=cubic))
    c["surf"] = {}
    for s in sorted(set((c["mesh"].get("sides") or {}).values())):
        # surface anisotropy is only specified on the free surface of a magnetic region
        c["surf"][s] = draw(surface(ks and s != "sI", suppress))
    c["m0"] = draw(texture())
    c["B"] = draw(field(kinds))
    c["steps"] = draw(st.integers(*steps))
    c["dt"] = draw(st.sampled_from([1e-13, 1e-14, 5e-13, 1e-12]))
    c["maxdt"] = draw(st.integers(3, 50))
    if draw(st.integers(0, 3)) == 0:
        c["t0"] = draw(st.integers(-20, 50))
    c["fmt"] = draw(st.sampled_from(["22a", "22b", "41a"]))
    return c


def ms_of(r):
    return r["Js"] / ref.MU0 if "Js" in r else r.get("Ms", 795774.7)


class Problem:
    """Everything derived from a case: mesh, settings, reference model, start state."""
    def __init__(self, c):
        self.c = c
        self.mesh = meshgen.build(c["mesh"])
        names = set(self.mesh.treg)
        self.regs = {k: v for k, v in c["regs"].items() if k in names}
        snames = set(self.mesh.sreg)
        self.surf = {k: v for k, v in c["surf"].items() if k in snames}
        self.L = float(np.ptp(self.mesh.p, axis=0).max())
        regs = {k: dict({kk: vv for kk, vv in v.items() if kk != "Js"}, Ms=ms_of(v))
                for k, v in self.regs.items()}
        self.dt = float(c["dt"] * self.slow_down(regs))
        self.t0 = self.dt * c.get("t0", 0)
        self.dtmax = self.dt * c["maxdt"]
        self.dtmin = self.dt * 2 / c["maxdt"]
        self.taur = 100 * self.dtmax
        self.model = ref.Model(self.mesh, regs, self.surf)
        self.u0 = texture_eval(c["m0"], self.mesh.p, self.L)
        self.u0[~self.model.magnode] = np.nan

    def H(self, t):
        return field_eval(self.c["B"], self.dt, self.L, t)

    def settings(self, **over):
        c = self.c
        d = {"outputs": {"file_basename": "run", "evol_time_step": self.dt,
                         "final_time": self.t0 + self.dt * c["steps"], "mag_config_every": 1,
                         "evol_columns": ALL_COLS},
             "mesh": {"filename": "m.msh", "length_unit": self.mesh.scale,
                      "volume_regions": self.regs, "surface_regions": self.surf},
             "initial_magnetization": texture_expr(c["m0"], self.L),
             "demagnetizing_field_solver": {"nb_threads": 1},
             "finite_element_solver": {"tolerance": 1e-12, "max(iter)": 3000},
             "time_integration": {"max(du)": 1e12, "min(dt)": self.dtmin, "max(dt)": self.dtmax}}
        if "t0" in c:
            d["initial_time"] = self.t0
        B = field_yaml(c["B"], self.dt, self.L)
        if B is not None:
            d["Bext"] = B
        for k, v in over.items():
            d[k] = dict(d[k], **v) if isinstance(v, dict) and k in d and k != "Bext" else v
        return d

    def write(self, cwd, settings=None, node_order=None):
        meshgen.write_msh(self.mesh, os.path.join(cwd, "m.msh"), self.c.get("fmt", "22a"),
                          node_order=node_order)
        e2e.write_yaml(settings if settings is not None else self.settings(),
                       os.path.join(cwd, "s.yml"))

    def run(self, exe, cwd, settings=None, args=("--seed", "7"), env=None):
        self.write(cwd, settings)
        r = e2e.run(exe, [*args, "s.yml"], cwd, env=env)
        return r

    def run_steps(self, exe, cwd, **over):
        """Runs until every visible step is one time step of the requested size. The iterative
        solver may stagnate above a very small tolerance, in which case the step is halved: a
        looser tolerance is tried then. Returns (result, evolution rows, accuracy to expect)."""
        r = table = None
        for tol in (1e-12, 1e-9, 1e-6):
            over["finite_element_solver"] = {"tolerance": tol, "max(iter)": 3000}
            r = self.run(exe, cwd, self.settings(**over))
            if r.rc == 0:
                cols, raw = e2e.read_evol(os.path.join(cwd, "run.evol"))
                require(len(raw) == self.c["steps"] + 1, "{} evolution rows instead of {}",
                        len(raw), self.c["steps"] + 1)
                table = rows(cols, raw)
                if all(close(x["dt"], self.dt, 1e-6, 0) for x in table[1:]):
                    self.fe_tol = tol
                    return r, table, max(1e-7, tol * 1e4)
        must_run(r)
        require(False, "steps of {} instead of {}, with a converging solver and no limit on the "
                "change of the magnetization", [x["dt"] for x in table], self.dt)

    def other_columns(self, exe, cwd, cols, table, tol, **over):
        """The same run with other columns: a value does not depend on what else is asked for."""
        s = self.settings(**over, finite_element_solver={"tolerance": self.fe_tol, "max(iter)": 3000})
        s["outputs"] = dict(s["outputs"], evol_columns=cols)
        r = self.run(exe, cwd, s)
        must_run(r)
        got, raw = e2e.read_evol(os.path.join(cwd, "run.evol"))
        require(list(got) == list(cols), "columns {} instead of {}", got, cols)
        f = re.search(r"^ *failed +(\S+)", r.out, re.M)
        for k, (a, line) in enumerate(zip(table, raw)):
            if k and f and float(f[1]) > 0:
                break           # the solver failed this time: other steps were made
            vs = max(abs(a[q]) for q in V_COLS) + a["max_dm"] / self.dt + 1e-30
            es = sum(abs(a[q]) for q in ENERGY_COLS) + 1e-300
            for q, x in zip(cols, line):
                x = float(x)
                if q == "max_angle":
                    ok = abs(math.cos(x) - math.cos(a[q])) <= 10 * tol
                else:
                    scale = vs if q in V_COLS else es if q in ENERGY_COLS else \
                        1 if q in M_COLS or q == "max_dm" else 0
                    ok = abs(x - a[q]) <= 10 * tol * scale + 1e-12 * abs(a[q]) or x != x and a[q] != a[q]
                require(ok, "row {}: {} is {}, but {} among the columns {}", k, q, a[q], x, cols)

    def reference(self, steps=None):
        """list of states (u, v, phi, phiv, t) after 0, 1, ... steps"""
        m = self.model
        N = len(self.mesh.p)
        u, v = np.nan_to_num(self.u0), np.zeros((N, 3))
        t = self.t0
        out = []
        phiv = np.zeros(N)
        for k in range((self.c["steps"] if steps is None else steps) + 1):
            if k:
                p = out[-1]
                v = m.step(p["u"], p["v"], p["phi"], p["phiv"], self.dt, self.taur, self.H(t))
                u = m.advance(p["u"], v, self.dt)
                t = self.t0 + k * self.dt
                phiv = m.potential(v)
            out.append(dict(u=u, v=v, phi=m.potential(u), phiv=phiv, t=t))
        return out

    def slow_down(self, regs):
        """Factor on the time step. The linear solver of the code (BiCGSTAB, diagonal
        preconditioner of the permuted system) only works when the exchange coupling over one step
        is not large compared to the precession term: this is a documented trait of the scheme,
        handled at run time by a smaller step, so the generated step stays below that limit."""
        g = ref.Geo(self.mesh.p, self.mesh.tets)
        worst = 0.0
        for t, r in enumerate(self.mesh.treg):
            if regs[r]["Ms"] > 0:
                worst = max(worst, regs[r].get("Ae", 1e-11) / regs[r]["Ms"]
                            * np.einsum("id,id->i", g.grad[t], g.grad[t]).max())
        coupling = ref.THETA * self.c["dt"] * ref.GAMMA0 * 2 / ref.MU0 * worst
        return min(1.0, 0.3 / coupling) if coupling else 1.0


def close(a, b, rel, scale):
    return abs(a - b) <= rel * max(abs(b), scale)


def rows(cols, table):
    return [dict(zip(cols, map(float, r))) for r in table]


def must_run(r, what="the run"):
    require(r.rc == 0, "{} failed on a valid problem: {!r}", what, r)
