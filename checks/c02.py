"""C02: iterative linear solvers return solutions that satisfy the system, or say so."""
import ctypes

import numpy as np
from hypothesis import strategies as st

from pbt import Test, require

PROPERTY = "C02"
RULE = ("a case is non-trivial when the system has at least two unknowns, the right-hand side is not "
        "zero, and the start is not the solution")
ASSUMPTIONS = ["the start vector is zero on the prescribed unknowns, as in all uses in the code",
               "entries between 1e-100 and 1e100 (norms do not overflow)",
               "diagonal entries are not zero (precondition of the diagonal preconditioner)",
               "on systems that are neither positive definite nor dominated by their diagonal the "
               "recursively updated residual may drift: a reported convergence of the "
               "non-symmetric solvers is then only held to a residual of 1e-4 of |A||x|, that of "
               "the symmetric ones, used outside their domain, is not judged"]
TARGETS = [(None, {"alg": {"shims": ["alg", "exit_throw"], "libs": ["-ltbb"]}})]
KINDS = ["cg", "cg_dir", "bicg", "bicg_dir", "bicg_mask"]
C_I, C_D = ctypes.c_int, ctypes.c_double


@st.composite
def cases(draw, fam):
    c = {"fam": fam, "n": draw(st.integers(1, 24)), "seed": draw(st.integers(0, 2**32 - 1)),
         "dens": draw(st.integers(0, 10)), "kind": draw(st.sampled_from(range(5))),
         "ld": draw(st.integers(0, 4)), "rhs": draw(st.sampled_from(["rand", "rand", "one", "zero"])),
         "guess": draw(st.sampled_from(["zero", "zero", "rand", "far", "sol"])),
         "sb": draw(st.integers(-60, 60)) if draw(st.integers(0, 3)) == 0 else 0,
         "sa": draw(st.integers(-60, 60)) if draw(st.integers(0, 3)) == 0 else 0,
         "tol": draw(st.sampled_from([1e-3, 1e-6, 1e-8, 1e-10])),
         "it": draw(st.sampled_from([1, 2, 3, 5, 8, 13])) if draw(st.integers(0, 2)) == 0 else 2000}
    c["before"] = draw(st.sampled_from([0, 0, 1, 2]))     # a first use of the iteration object: 2 fails
    if draw(st.integers(0, 2)) == 0:
        c["spread"] = draw(st.integers(1, 6))     # badly scaled unknowns
    return c


def matrix(c, rng):
    n = c["n"]
    M = rng.uniform(-1, 1, (n, n)) * (rng.uniform(0, 10, (n, n)) < c["dens"])
    if c["fam"] == "spd":
        M = M + M.T
        np.fill_diagonal(M, 0)
        np.fill_diagonal(M, np.abs(M).sum(1) * rng.uniform(1.05, 2, n) + rng.uniform(0.1, 1, n))
    elif c["fam"] == "dom":
        np.fill_diagonal(M, 0)
        # the scaled matrix is the identity plus a perturbation of norm below 0.45
        s = max(np.abs(M).sum(1).max(), np.abs(M).sum(0).max(), 1e-3)
        M = M / s * rng.uniform(0.05, 0.45)
        np.fill_diagonal(M, 1)
        d = rng.uniform(0.3, 3, n) * rng.choice([-1, 1], n)
        M = M * d[:, None]
    elif c["fam"] == "lap":
        W = np.abs(M + M.T) * 0.5
        for i in range(n - 1):                    # connected
            W[i, i + 1] = W[i + 1, i] = rng.uniform(0.5, 2)
        np.fill_diagonal(W, 0)
        M = -W
        np.fill_diagonal(M, W.sum(1) + (n == 1))
    elif c["fam"] == "any":
        d = rng.uniform(0.1, 2, n) * rng.choice([-1, 1], n)
        np.fill_diagonal(M, d)
    elif c["fam"] == "sing":
        if n > 1:
            W = np.abs(M + M.T) + np.eye(n, k=1) + np.eye(n, k=-1)
            np.fill_diagonal(W, 0)
            M = -W
            np.fill_diagonal(M, W.sum(1))
        else:
            M = np.ones((1, 1))
    if "spread" in c and c["fam"] != "any":
        s = 10.0 ** (rng.uniform(-1, 1, n) * c["spread"] / 2)
        M = M * s[:, None] * s[None, :] if c["fam"] != "dom" else M * s[:, None]
    return M * 10.0 ** c["sa"]


def solve(lib, kind, A, x0, b, xd, ld, tol, it, before):
    n = len(b)
    I, J = np.nonzero((A != 0) | np.eye(n, dtype=bool))
    I, J = I.astype(np.int32), J.astype(np.int32)
    val = np.ascontiguousarray(A[I, J])
    x, rhs = x0.copy(), b.copy()
    ldv = np.array(ld, dtype=np.int32)
    nit, res, after, info = C_I(), C_D(), np.zeros(len(val)), ctypes.create_string_buffer(200)
    p = lambda a: a.ctypes.data_as(ctypes.c_void_p)
    status = lib.alg_solve(kind, n, len(val), p(I), p(J), p(val), p(x), p(rhs), p(xd), len(ld), p(ldv),
                           C_D(tol), it, before, ctypes.byref(nit), ctypes.byref(res), p(after), info)
    require(status != 100, "the prescribed values were modified")
    require(np.array_equal(rhs, b), "the right-hand side was modified")
    require(np.array_equal(after, val), "the matrix was modified")
    return status, x, nit.value, res.value, info.value.decode()


def check(c, ctx):
    rng = np.random.default_rng(c["seed"])
    n, kind = c["n"], c["kind"]
    A = matrix(c, rng)
    masked = kind in (1, 3, 4)
    ld = sorted(rng.permutation(n)[:min(c["ld"], n)].tolist()) if masked else []
    if c["fam"] == "lap" and kind in (1, 3) and not ld:
        ld = [0]
    free = np.array([i not in ld for i in range(n)])
    b = {"rand": rng.uniform(-1, 1, n), "one": np.eye(n)[rng.integers(n)], "zero": np.zeros(n)}[c["rhs"]]
    if c["rhs"] == "zero" and c["guess"] != "zero":
        b[rng.integers(n)] = 0.0
    b = b * 10.0 ** c["sb"]
    xs = 10.0 ** (c["sb"] - c["sa"])
    xd = np.zeros(n)
    if kind in (1, 3):
        xd[ld] = rng.uniform(-1, 1, len(ld)) * xs
    target = b - A @ xd
    F = np.ix_(free, free)
    sol = np.zeros(n)
    sing = not free.any() or np.linalg.cond(A[F]) > 1e12
    if not sing:
        sol[free] = np.linalg.solve(A[F], target[free])
    x0 = np.zeros(n)
    if c["guess"] == "rand":
        x0[free] = rng.uniform(-1, 1, free.sum()) * xs
    elif c["guess"] == "far":
        x0[free] = rng.uniform(-1, 1, free.sum()) * xs * 1e4
    elif c["guess"] == "sol":
        x0 = sol.copy()
    status, x, nit, res, info = solve(ctx.lib("alg"), kind, A, x0, b, xd, ld, c["tol"], c["it"], c["before"])
    name = KINDS[kind]
    require(status in (0, 1, 2), "{}: no reason given for stopping: {}", name, info)
    require(0 <= nit <= max(c["it"], 1), "{}: {} iterations, the limit is {}", name, nit, c["it"])
    require(["CONVERGED", "ITER_OVERFLOW", "CANNOT_CONVERGE"][status] in info, "{}: status {} reported as "
            "{}", name, status, info)
    require(status == 2 or np.array_equal(x[~free], xd[~free]), "{}: prescribed values {} became {}", name, xd[~free],
            x[~free])
    if status == 1:
        require(nit >= c["it"], "{}: gave up after {} iterations of {}", name, nit, c["it"])
    nb = np.linalg.norm(target[free])
    good = c["fam"] in ("spd", "lap") or c["fam"] == "dom" and kind >= 2
    if c["fam"] == "lap" and not ld:
        good = n == 1
    if status == 0:
        r = np.linalg.norm((b - A @ x)[free])
        scale = np.linalg.norm(A) * (np.linalg.norm(x) + np.linalg.norm(x0)) + nb
        allowed = c["tol"] * nb * (1 + 1e-6) + (1e-12 if good else 1e-4) * scale
        require(r <= allowed or kind < 2 and not good, "{}: reported convergence with a residual of {}, norm of the right-hand side "
                "{}, tolerance {}", name, r, nb, c["tol"])
        require(res <= c["tol"] * nb * (1 + 1e-9), "{}: reported residual {} above {}", name, res,
                c["tol"] * nb)
        if good and not sing and nb > 0:
            smin = np.linalg.svd(A[F], compute_uv=False)[-1]
            err = np.linalg.norm((x - xd - sol)[free])
            require(err <= (allowed + 1e-12 * scale) / smin * 1.01, "{}: solution off by {}", name, err)
    elif good and (kind < 2 or c["rhs"] == "rand") and nb > 0 and c["it"] == 2000 and c["guess"] != "far" \
            and c["tol"] * nb > 1e-13 * np.linalg.norm(A) * (np.linalg.norm(x0) + np.linalg.norm(sol)):
        # (from a start too far away, rounding errors may exceed the tolerance; from a sparse
        # right-hand side, BiCGSTAB may break down on any matrix)
        require(False, "{}: did not converge on a well-conditioned system: {}", name, info)
    if nb == 0 and not x0.any():
        require(status == 0 and not (x - xd).any(), "{}: homogeneous system: {}, x = {}", name, info, x)
    ctx.label(f"{c['fam']} {name} {['converged', 'limit', 'breakdown'][status]}")
    ctx.nontrivial = n > 1 and nb > 0 and c["guess"] != "sol"


TESTS = [Test("spd", cases("spd"), check, 6000, 200000, isolate=False),
         Test("dominant", cases("dom"), check, 6000, 200000),
         Test("laplacian", cases("lap"), check, 4000, 100000),
         Test("any", cases("any"), check, 4000, 100000),
         Test("singular", cases("sing"), check, 3000, 60000)]
