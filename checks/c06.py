"""C06: the applied field is the one of the settings, at every time and place."""
import math
import os

import numpy as np
from hypothesis import strategies as st

import c16
import e2e
import fgbuild
import ref
import sim
from pbt import Test, require

PROPERTY = "C06"
RULE = ("a case is non-trivial when the field is not zero and, for the forms test, at least two "
        "descriptions of a field that varies in time are compared")
ASSUMPTIONS = ["ScalFMM is replaced by an exact direct sum with the same interface",
               "the applied field columns are only defined for fields that do not depend on space"]
TARGETS = [(None, {"exe": fgbuild.EXE})]

TERMS = ["const", "lin", "sin", "cos", "exp", "pulse", "sqrt", "tanh"]


def term_js(k, T):
    x = f"(t/{T!r})"
    return {"const": "1", "lin": x, "sin": f"sin(0.7*{x})", "cos": f"cos(2*{x}+0.3)",
            "exp": f"exp(-0.2*{x})", "pulse": f"({x} < 1.5 ? 1 : 0)", "sqrt": f"sqrt(abs({x}))",
            "tanh": f"tanh(0.5*{x})"}[k]


def term(k, t, T):
    x = t / T
    return {"const": 1, "lin": x, "sin": math.sin(0.7 * x), "cos": math.cos(2 * x + 0.3),
            "exp": math.exp(-0.2 * x), "pulse": 1 if x < 1.5 else 0, "sqrt": math.sqrt(abs(x)),
            "tanh": math.tanh(0.5 * x)}[k]


@st.composite
def forms(draw):
    c = draw(sim.problem(steps=(1, 3), kinds=("none",), regions=3, nonmag=True))
    c["sep"] = draw(st.booleans())
    n = 1 if c["sep"] else 3
    c["f"] = [draw(st.lists(st.tuples(st.sampled_from(TERMS), st.integers(-9, 9)).map(list), min_size=1,
                            max_size=3)) for _ in range(n)]
    if c["sep"]:
        c["amp"] = [draw(st.integers(-9, 9)) for _ in range(3)]
    c["num"] = draw(st.booleans())
    c["cols"] = draw(st.lists(st.sampled_from(["Hx", "Hy", "Hz", "Hz", "E_zeeman", "t", "<Mx>"]),
                              min_size=1, max_size=3))
    return c


def comp_js(terms, T):
    return " + ".join(f"{k/10!r}*{term_js(n, T)}" for n, k in terms)


def comp(terms, t, T):
    return sum(k / 10 * term(n, t, T) for n, k in terms)


def check_forms(case, ctx):
    P = sim.Problem(case)
    cwd = ctx.fresh_dir()
    T = P.dt
    if case["sep"]:
        amp = [a / 10 for a in case["amp"]]
        f = comp_js(case["f"][0], T)
        js = [f"{a!r}*({f})" for a in amp]

        def B(t):
            return np.array(amp) * comp(case["f"][0], t, T)
    else:
        js = [comp_js(x, T) for x in case["f"]]

        def B(t):
            return np.array([comp(x, t, T) for x in case["f"]])
    descr = {"expressions": js,
             "function": f"function(t) {{ return [{js[0]}, {js[1]}, {js[2]}]; }}",
             "block": "function (time) {\n  var t = time;\n  var b = [0, 0, 0];\n" + "".join(
                 f"  b[{i}] = {js[i]};\n" for i in range(3)) + "  return b;\n}\n"}
    if case["sep"]:
        descr["space and time"] = {
            "space": f"function(x, y, z) {{ return [{amp[0]!r}, {amp[1]!r}, {amp[2]!r}]; }}",
            "time": f"function(t) {{ return {f}; }}"}
    if all(len(x) == 1 and x[0][0] == "const" for x in case["f"]):
        descr["numbers"] = [float(x) for x in B(0.0)]
    times = [P.t0 + k * P.dt for k in range(case["steps"] + 1)]
    m = P.model
    Hmag = max(np.linalg.norm(B(t)) for t in times) / ref.MU0
    MV = sum(x * v for x, v in zip(m.Ms, m.g.vol)) * ref.MU0
    # a pulse edge that falls on an output time is decided by rounding
    edge = any(abs(t / T - 1.5) < 1e-6 for t in times)
    first = None
    for name, d in descr.items():
        r, table, tol = P.run_steps(ctx.artefacts["exe"], cwd, Bext=d)
        for k, row in enumerate(table):
            if edge:
                continue
            H = B(times[k]) / ref.MU0
            if name != "space and time":
                for i, a in enumerate("xyz"):
                    require(sim.close(row["H" + a], H[i], 1e-9, Hmag + 1e-9),
                            "{}: row {} (t = {}): H{} is {}, should be {}", name, k, times[k], a,
                            row["H" + a], H[i])
            if k == 0:
                u, eps = np.nan_to_num(P.u0), 1e-9
            else:
                u = np.nan_to_num(e2e.read_sol(os.path.join(cwd, f"run_iter{k}.sol"))[2][:, 1:4])
                eps = 3e-7
            E = -ref.MU0 * sum(x * v * np.dot(u[tt].mean(axis=0), H) for x, v, tt in
                               zip(m.Ms, m.g.vol, m.mesh.tets))
            require(abs(row["E_zeeman"] - E) <= 2 * eps * MV * Hmag + 1e-300,
                    "{}: row {}: E_zeeman is {}, the field and the state give {}", name, k,
                    row["E_zeeman"], E)
        if first is None:
            first = name, table, tol
            if case.get("cols"):
                P.other_columns(ctx.artefacts["exe"], ctx.fresh_dir(), case["cols"], table, tol, Bext=d)
            continue
        tol = max(tol, first[2])
        for k, (a, b) in enumerate(zip(first[1], table)):
            vs = max(abs(a[q]) for q in sim.V_COLS) + a["max_dm"] / P.dt
            es = sum(abs(a[q]) for q in sim.ENERGY_COLS) + 1e-300
            for q in sim.M_COLS + sim.V_COLS + sim.ENERGY_COLS:
                s = 1 if q in sim.M_COLS else vs + 1e-30 if q in sim.V_COLS else es
                require(abs(a[q] - b[q]) <= 10 * tol * s, "row {}: {} is {} with the field given as "
                        "{} and {} when given as {}", k, q, a[q], first[0], b[q], name)
    ctx.label("forms compared", len(descr))
    varies = any(n != "const" for x in case["f"] for n, _ in x)
    ctx.nontrivial = Hmag > 0 and varies


def in_space(case, ctx):
    """space-dependent field: Zeeman energy and first velocity against the reference"""
    P = sim.Problem(case)
    cwd = ctx.fresh_dir()
    r, table, tol = P.run_steps(ctx.artefacts["exe"], cwd)
    states = P.reference()
    m, g = P.model, P.model.g
    for k, (row, s) in enumerate(zip(table, states)):
        H = P.H(s["t"])
        E = m.energies(s["u"], s["phi"], H)["zeeman"]
        scale = ref.MU0 * sum(m.Ms[t] * g.vol[t] * max(np.abs(H(x)).max() for x in g.tgp[t])
                              for t in np.nonzero(m.mag)[0]) + 1e-300
        require(abs(row["E_zeeman"] - E) <= 20 * tol * scale, "row {}: E_zeeman is {}, should be {}", k,
                row["E_zeeman"], E)
        vmax = np.linalg.norm(s["v"][m.magnode], axis=1).max()
        V = m.avg(s["v"])
        for i, a in enumerate("xyz"):
            require(sim.close(row[f"<dM{a}/dt>"], V[i], 3 * tol, vmax + 1e-30),
                    "row {}: <dM{}/dt> is {}, should be {}", k, a, row[f"<dM{a}/dt>"], V[i])
    ctx.nontrivial = any(case["B"]["b"]) or any(case["B"]["g"])


TESTS = [Test("forms", forms(), check_forms, 120, 3000),
         Test("space", sim.problem(steps=(1, 3), kinds=("space",), regions=3, nonmag=True), in_space,
              120, 3000),
         Test("adaptive", c16.cases(retries=True, kinds=("time", "func", "space")), c16.check, 120,
              3000)]
