"""C03: the sparse matrix behaves as the dense matrix it represents."""
import ctypes
import math

import numpy as np
from hypothesis import strategies as st

from pbt import Test, require

PROPERTY = "C03"
RULE = ("a case is non-trivial when an entry other than zero was stored and read or multiplied "
        "afterwards; for concurrent accumulation, when at least two threads add to the same entry")
ASSUMPTIONS = ["values are whole numbers times powers of two where exact equality is demanded",
               "the scheduler of the machine chooses the interleavings of the concurrent additions"]
TARGETS = [(None, {"alg": {"shims": ["alg", "exit_throw"], "libs": ["-ltbb"]}})]
C = ctypes.c_double
num = st.integers(-999, 999)


def ptr(a):
    return a.ctypes.data_as(ctypes.c_void_p)


def lib(ctx):
    L = ctx.lib("alg")
    L.spm_new.restype = ctypes.c_void_p
    L.spm_get.restype = C
    L.vec_op.restype = C
    return L


@st.composite
def sequences(draw):
    n = draw(st.integers(1, 12))
    i = st.integers(0, n - 1)
    cells = [list(x) for x in draw(st.lists(st.tuples(i, i), min_size=1, max_size=30, unique=True))]
    k = st.integers(0, len(cells) - 1)
    op = st.one_of(st.tuples(st.just("add"), k, num), st.tuples(st.just("add"), k, num),
                   st.tuples(st.just("set"), k, num), st.tuples(st.just("get"), i, i),
                   st.tuples(st.just("mult"), st.integers(0, 9999)),
                   st.tuples(st.just("clear")), st.tuples(st.just("precond")))
    return {"n": n, "cells": cells, "ops": [list(o) for o in draw(st.lists(op, min_size=1, max_size=40))],
            "exp": draw(st.integers(-80, 80)) if draw(st.booleans()) else 0}


def history(c, ctx):
    L = lib(ctx)
    n, cells, s = c["n"], c["cells"], 2.0 ** c["exp"]
    I, J = np.array(cells, np.int32).T.copy()
    m = ctypes.c_void_p(L.spm_new(n, len(cells), ptr(I), ptr(J)))
    dense = np.zeros((n, n))
    used = 0
    try:
        for k, o in enumerate(c["ops"] + [["mult", 1], ["dump"]]):
            if o[0] in ("add", "set"):
                i, j = cells[o[1]]
                (L.spm_add if o[0] == "add" else L.spm_set)(m, i, j, C(o[2] * s))
                dense[i, j] = o[2] * s + (dense[i, j] if o[0] == "add" else 0)
            elif o[0] == "get":
                v = L.spm_get(m, o[1], o[2])
                require(v == dense[o[1], o[2]], "operation {}: entry {} is {}, should be {}", k, o[1:], v,
                        dense[o[1], o[2]])
                used += v != 0
            elif o[0] == "clear":
                L.spm_clear(m)
                dense[:] = 0
            elif o[0] == "mult":
                x = np.random.default_rng(o[1]).integers(-99, 99, n).astype(float)
                y = np.zeros(n)
                L.spm_mult(m, n, ptr(x), ptr(y))
                require(np.array_equal(y, dense @ x), "operation {}: product {} instead of {}", k, y,
                        dense @ x)
                used += bool(dense.any())
            elif o[0] == "precond" and np.diag(dense).all():
                d = np.zeros(n)
                L.spm_precond(m, n, ptr(d))
                require(np.allclose(d, 1 / np.diag(dense), rtol=1e-14, atol=0), "operation {}: "
                        "preconditioner {} of diagonal {}", k, d, np.diag(dense))
                used += 1
                ctx.label("preconditioners")
            elif o[0] == "dump":
                got = np.array([[L.spm_get(m, i, j) for j in range(n)] for i in range(n)])
                require(np.array_equal(got, dense), "entries {} instead of {}", got, dense)
    finally:
        L.spm_free(m)
    ctx.nontrivial = used > 0


@st.composite
def crowds(draw):
    n = draw(st.integers(1, 6))
    i = st.integers(0, n - 1)
    return {"n": n, "cells": [list(x) for x in draw(st.lists(st.tuples(i, i, st.integers(-9, 9)), min_size=1,
                                                             max_size=12))],
            "threads": draw(st.integers(2, 8)), "rounds": draw(st.sampled_from([1, 50, 1000, 4000]))}


def concurrent(c, ctx):
    L = lib(ctx)
    n, cells = c["n"], c["cells"]
    I, J = np.array([x[:2] for x in cells], np.int32).T.copy()
    x = np.array([x[2] for x in cells], float)
    m = ctypes.c_void_p(L.spm_new(n, len(cells), ptr(I), ptr(J)))
    try:
        L.spm_add_parallel(m, c["threads"], c["rounds"], len(cells), ptr(I), ptr(J), ptr(x))
        want = np.zeros((n, n))
        np.add.at(want, (I, J), x * c["threads"] * c["rounds"])
        got = np.array([[L.spm_get(m, i, j) for j in range(n)] for i in range(n)])
    finally:
        L.spm_free(m)
    require(np.array_equal(got, want), "{} threads added {} times each: {} instead of {}", c["threads"],
            c["rounds"], got, want)
    ctx.nontrivial = bool(want.any())


OPS = ["scaled", "p_direct", "add", "sub", "scaled_add", "applyMask", "dot", "norm", "check"]


@st.composite
def vectors(draw):
    n = draw(st.integers(0, 9))
    v = st.lists(num, min_size=n, max_size=n)
    return {"op": draw(st.sampled_from(range(9))), "x": draw(v), "y": draw(v), "a": draw(num),
            "mask": draw(st.lists(st.integers(0, n - 1), max_size=n)) if n else [],
            "nan": draw(st.integers(0, 9))}


def vector_ops(c, ctx):
    L = lib(ctx)
    x, y, a = np.array(c["x"], float), np.array(c["y"], float), float(c["a"])
    op = OPS[c["op"]]
    if op == "check" and len(x) and c["nan"] < len(x):
        x[c["nan"]] = math.nan
    m = np.array(c["mask"], np.int32)
    out, want, val = y.copy(), y.copy(), 0.0
    got = L.vec_op(c["op"], len(x), ptr(x), ptr(out), C(a), len(m), ptr(m))
    if op == "scaled":
        want = a * y
    elif op == "p_direct":
        want = x * y
    elif op == "add":
        want = y + x
    elif op == "sub":
        want = y - x
    elif op == "scaled_add":
        want = y + a * x
    elif op == "applyMask":
        want[m] = 0
    elif op == "dot":
        val = float(x @ y)
    elif op == "norm":
        val = math.sqrt(float(x @ x))
    elif op == "check":
        val = float(not np.isnan(x).any())
    require(np.array_equal(out, want) and got == val, "{}: {} and {} instead of {} and {}", op, got, out, val,
            want)
    ctx.nontrivial = len(x) > 0


TESTS = [Test("histories", sequences(), history, 2000, 60000),
         Test("concurrent additions", crowds(), concurrent, 300, 6000, flaky=True),
         Test("vector operations", vectors(), vector_ops, 1200, 20000)]
