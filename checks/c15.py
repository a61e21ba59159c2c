"""C15: the initial magnetization is the given expression, normalized, at the magnetic nodes."""
import os

import numpy as np
from hypothesis import strategies as st

import e2e
import fgbuild
import meshgen
import ref
from pbt import Test, require

PROPERTY = "C15"
RULE = ("a case is non-trivial when the magnetization varies over the nodes, or is given by region in "
        "a body of several regions")
ASSUMPTIONS = ["the initial state is observed in the first configuration file, printed with 7 digits"]
TARGETS = [(None, {"exe": fgbuild.EXE})]
NAMES = [["vol0", "vol1", "vol2", "vol3"], ["core", "shell", "core2", "shell core"],
         ["a", "b", "A", "ab"], ["1", "2", "3", "12"]]


@st.composite
def cases(draw):
    c = {"mesh": draw(meshgen.mesh_case(max_n=5, max_cells=10, regions=4, axis=True,
                                        sides=("x0", "if")))}
    c["names"] = draw(st.integers(0, len(NAMES) - 1))
    c["form"] = draw(st.sampled_from(["numbers", "expressions", "function", "regions"]))
    c["k"] = [draw(st.integers(-9, 9)) for _ in range(12)]
    c["nonmag"] = draw(st.integers(0, 5))
    c["t0"] = draw(st.sampled_from([None, 0, 1e-10, -3e-12]))
    c["fmt"] = draw(st.sampled_from(["22a", "22b", "41a"]))
    c["order"] = draw(st.integers(0, 3))
    return c


def check(case, ctx):
    names = NAMES[case["names"]]
    mesh = meshgen.build(dict(case["mesh"], names=names))
    p, N = mesh.p, len(mesh.nodes)
    L = float(np.ptp(p, axis=0).max())
    used = sorted(set(mesh.treg))
    nonmag = used[case["nonmag"] % len(used)] if case["nonmag"] < 4 and len(used) > 1 else None
    k = np.array(case["k"], float)
    k[:3] += 0.37          # never the zero vector
    x, y, z = p.T / L
    form = case["form"]
    n = lambda v: repr(float(v))
    if form == "numbers":
        m0 = [float(v) for v in k[:3]]
        u = np.tile(k[:3], (N, 1))
    elif form in ("expressions", "function"):
        ex = ["%s + %s*x/%r + %s*sin(y/%r)" % (n(k[0]), n(k[3]), L, n(k[4]), L),
              "%s + %s*y*z/%r" % (n(k[1]), n(k[5]), L * L), "%s + %s*exp(-z*z/%r)" % (n(k[2]), n(k[6]),
                                                                                   L * L)]
        u = np.array([k[0] + k[3] * x + k[4] * np.sin(y), k[1] + k[5] * y * z,
                      k[2] + k[6] * np.exp(-z * z)]).T
        m0 = ex if form == "expressions" else \
            "function(x, y, z) {\n  return [%s,\n    %s,\n    %s];\n}" % tuple(ex)
    else:
        belongs = {r: np.zeros(N, bool) for r in names}
        for t, r in zip(mesh.tets, mesh.treg):
            belongs[r][t] = True
        body = "".join('  if (regions.includes("%s")) { m[%d] += %s; m[2] += %s; c++; }\n'
                       % (r, i % 2, n(k[3 + i]), n(k[7 + i] / 3)) for i, r in enumerate(names))
        m0 = ("function(x, y, z, regions) {\n  var m = [%s, %s, %s], c = 0;\n%s"
              "  if (c != regions.length) return [0, 0, -1];\n"
              "  m[1] += x/%r;\n  return m;\n}" % (n(k[0]), n(k[1]), n(k[2]), body, L))
        u = np.tile(k[:3], (N, 1))
        for i, r in enumerate(names):
            u[belongs[r], i % 2] += k[3 + i]
            u[belongs[r], 2] += k[7 + i] / 3
        u[:, 1] += x
    mag = np.zeros(N, bool)
    for t, r in zip(mesh.tets, mesh.treg):
        if r != nonmag:
            mag[t] = True
    norm = np.linalg.norm(u, axis=1)
    if norm.min() < 1e-3:
        return                # direction not well defined
    u /= norm[:, None]
    cwd = ctx.fresh_dir()
    rnd = np.random.RandomState(case["order"])
    meshgen.write_msh(mesh, os.path.join(cwd, "m.msh"), case["fmt"], node_order=rnd.permutation(N))
    order = list(used)
    rnd.shuffle(order)
    t0 = case["t0"] or 0.0
    s = {"outputs": {"file_basename": "run", "evol_time_step": 1e-12, "final_time": t0,
                     "mag_config_every": 1, "evol_columns": ["t", "<Mx>", "<My>", "<Mz>"]},
         "mesh": {"filename": "m.msh", "length_unit": mesh.scale,
                  "volume_regions": {r: {"Ms": 0} if r == nonmag else {} for r in order},
                  "surface_regions": {r: {} for r in sorted(set(mesh.sreg))}},
         "demagnetizing_field_solver": {"nb_threads": 1}, "initial_magnetization": m0}
    if case["t0"] is not None:
        s["initial_time"] = t0
    e2e.write_yaml(s, os.path.join(cwd, "s.yml"))
    r = e2e.run(ctx.artefacts["exe"], ["--seed", "1", "s.yml"], cwd)
    require(r.rc == 0, "the run failed on a valid problem: {!r}", r)
    time, _, sol = e2e.read_sol(os.path.join(cwd, "run_iter0.sol"))
    require(abs(time - t0) <= 1e-6 * abs(t0), "initial time {} instead of {}", time, t0)
    require((np.isfinite(sol[:, 1:4]).all(axis=1) == mag).all(), "magnetization defined outside of the "
            "magnetic regions, or undefined inside")
    d = np.abs(sol[:, 1:4] - u)
    bad = np.nonzero(mag & (d.max(axis=1) > 2e-7))[0]
    if len(bad):
        i = bad[0]
        require(False, "node {} at {}: magnetization {} instead of {}", i, p[i], sol[i, 1:4], u[i])
    g = ref.Geo(p, mesh.tets)
    a, V = np.zeros(3), 0.0
    for t, reg, v in zip(mesh.tets, mesh.treg, g.vol):
        if reg != nonmag:
            a += v * u[t].mean(axis=0)
            V += v
    cols, rows = e2e.read_evol(os.path.join(cwd, "run.evol"))
    for i, q in enumerate(["<Mx>", "<My>", "<Mz>"]):
        got = float(dict(zip(cols, rows[0]))[q])
        require(abs(got - a[i] / V) < 1e-9, "{} is {} at the initial time, the given magnetization has "
                "{}", q, got, a[i] / V)
    ctx.label(form)
    ctx.label("non-magnetic region", nonmag is not None)
    ctx.nontrivial = form in ("expressions", "function") or form == "regions" and len(used) > 1


TESTS = [Test("initial", cases(), check, 480, 10000)]
