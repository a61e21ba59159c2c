"""C14: expressions and functions in the settings evaluate as written mathematics."""
import ctypes
import math
import os

from hypothesis import strategies as st

import e2e
import fgbuild
import meshgen
from pbt import Test, require

PROPERTY = "C14"
RULE = ("a case is non-trivial when at least one evaluation gave a finite value that the oracle could "
        "bound (no cancellation or domain edge inside the error bound), or, for errors, when a faulty "
        "script was run")
ASSUMPTIONS = ["the shifted, hyperbolic and inverse hyperbolic functions are script approximations: "
               "they are held to 3e-8 relative accuracy, the basic functions to double precision"]
TARGETS = [(None, {"expr": {"repo": ["expression_parser"], "shims": ["expr", "exit_throw"],
                            "libs": ["-lduktape"]}, "exe": fgbuild.EXE})]
nan, inf = math.nan, math.inf


def guard(f):
    def g(*a):
        try:
            return f(*a)
        except OverflowError:
            return inf
        except (ValueError, ZeroDivisionError):
            return nan
    return g


def js_log(x):
    return -inf if x == 0 else math.log(x) if x > 0 else nan


def m_atanh(x):
    return inf if x == 1 else -inf if x == -1 else math.atanh(x)


def m_log1p(x):
    return -inf if x == -1 else math.log1p(x)


def m_pow(a, b):
    if b == 0:
        return 1.0
    if abs(a) == 1 and math.isinf(b):
        return nan
    return math.pow(a, b)


def m_sinh(x):
    return math.copysign(inf, x) if abs(x) > 710.47 else math.sinh(x)


def m_cosh(x):
    return inf if abs(x) > 710.47 else math.cosh(x)


EXACT = {"sqrt": math.sqrt, "sin": math.sin, "cos": math.cos, "tan": math.tan, "exp": math.exp,
         "log": js_log, "abs": abs, "atan": math.atan, "asin": math.asin, "acos": math.acos,
         "floor": lambda x: float(math.floor(x)), "ceil": lambda x: float(math.ceil(x)),
         "cbrt": lambda x: math.copysign(abs(x) ** (1 / 3), x),
         "sign": lambda x: nan if x != x else float((x > 0) - (x < 0))}
SCRIPT = {"expm1": math.expm1, "log1p": m_log1p, "cosh": m_cosh, "sinh": m_sinh,
          "tanh": math.tanh, "acosh": math.acosh, "asinh": math.asinh, "atanh": m_atanh}
UNARY = {k: guard(v) for k, v in {**EXACT, **SCRIPT}.items()}
BIN = {"atan2": math.atan2, "pow": m_pow, "min": min, "max": max, "hypot": math.hypot}
BIN = {k: guard(v) for k, v in BIN.items()}
OPS = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b,
       "/": lambda a, b: a / b if b else (nan if a == 0 or a != a else
                                          math.copysign(inf, a) * math.copysign(1, b))}
CONST = {"PI": math.pi, "E": math.e, "LN2": math.log(2), "SQRT2": math.sqrt(2), "LN10": math.log(10)}

value = st.one_of(st.integers(-20, 20).map(float),
                  st.tuples(st.floats(-10, 10), st.integers(-12, 12)).map(lambda x: x[0] * 10.0**x[1]),
                  st.sampled_from([0.0, 1.0, -1.0, 0.5, 1e-5, 2e-8, 1e8, 20.0, 1e-9, 1e-300, 1e300]),
                  # around the places where the script functions change formula
                  st.tuples(st.sampled_from([2e-8, 1e-5, 1e8, 20.0, 1.0, 10.0]),
                            st.floats(0.9, 1.1), st.sampled_from([1, -1])).map(
                      lambda x: x[0] * x[1] * x[2]))


def tree(variables):
    leaf = st.one_of(st.sampled_from([["v", v] for v in variables]),
                     st.integers(-9, 9).map(lambda k: ["n", k / 4]),
                     st.sampled_from([["c", k] for k in CONST]))
    return st.recursive(leaf, lambda s: st.one_of(
        st.tuples(st.sampled_from(sorted(OPS)), s, s).map(lambda x: ["o", *x]),
        st.tuples(st.sampled_from(sorted(UNARY)), s).map(lambda x: ["u", *x]),
        st.tuples(st.sampled_from(sorted(BIN)), s, s).map(lambda x: ["b", *x]),
        st.tuples(s, s, s, s).map(lambda x: ["?", *x])), max_leaves=8)


def js(e):
    k = e[0]
    if k in ("v", "c"):
        return e[1]
    if k == "n":
        return repr(e[1]) if e[1] >= 0 else f"({e[1]!r})"
    if k == "o":
        return f"({js(e[2])} {e[1]} {js(e[3])})"
    if k == "u":
        return f"{e[1]}({js(e[2])})"
    if k == "b":
        return f"{e[1]}({js(e[2])}, {js(e[3])})"
    return f"({js(e[1])} < {js(e[2])} ? {js(e[3])} : {js(e[4])})"


class Unsure(Exception):
    pass


def spread(f, args, errs):
    """value of f and a bound on its change when the arguments move within their error"""
    v = f(*args)
    worst = 0.0
    for i, e in enumerate(errs):
        if e:
            for s in (-e, e):
                a = list(args)
                a[i] += s
                w = f(*a)
                if (w != w) != (v != v) or (math.isinf(w) != math.isinf(v)):
                    raise Unsure()
                if v == v and not math.isinf(v):
                    worst += abs(w - v)
    return v, worst


def ev(e, env):
    """value and error bound"""
    k = e[0]
    if k == "v":
        return env[e[1]], 0.0
    if k == "n":
        return e[1], 0.0
    if k == "c":
        return CONST[e[1]], 1e-16
    if k == "?":
        (a, ea), (b, eb) = ev(e[1], env), ev(e[2], env)
        if abs(a - b) <= ea + eb and ea + eb > 0:
            raise Unsure()
        return ev(e[3] if a < b else e[4], env)
    args = [ev(x, env) for x in e[2:]]
    vals, errs = [a[0] for a in args], [a[1] for a in args]
    if any(v != v for v in vals) and (k == "b" or e[1] in SCRIPT):
        raise Unsure()          # nan handling: not specified here
    if k != "o" and any(map(math.isinf, vals)) or e[1] == "pow" and vals[0] == 0:
        raise Unsure()          # signed zeros and infinities
    pole = 1 if e[1] in ("/", "%") else 0 if e[1] in ("pow", "log", "log10", "log2", "atan2") else None
    if pole is not None and errs[pole] and abs(vals[pole]) <= 4 * errs[pole]:
        raise Unsure()          # the true argument may be zero
    if e[1] == "pow" and errs[1] and vals[0] < 0:
        raise Unsure()          # the true exponent may be a whole number
    f = UNARY[e[1]] if k == "u" else BIN[e[1]] if k == "b" else OPS[e[1]]
    v, w = spread(f, vals, errs)
    if v != v and e[1] in SCRIPT:
        raise Unsure()          # outside of the domain of a script function: not specified
    rel = 3e-8 if e[1] in SCRIPT else 4e-16 if k == "o" else 1e-14
    if k == "u" and e[1] in ("sin", "cos", "tan") and abs(vals[0]) > 1e6:
        raise Unsure()
    if e[1] in ("cosh", "sinh", "exp", "expm1") and abs(vals[0]) > 700:
        raise Unsure()
    if v == v and not math.isinf(v):
        if abs(v) > 1e290:
            raise Unsure()
        return v, w * 1.5 + rel * abs(v) + 1e-305
    return v, 0.0


def same(got, want, err):
    if want != want:
        return got != got
    if math.isinf(want):
        return got == want
    return abs(got - want) <= 4 * err + 1e-300


@st.composite
def histories(draw):
    ops = []
    for _ in range(draw(st.integers(1, 8))):
        k = draw(st.sampled_from(["scalar", "vec1", "vec3"]))
        new = draw(st.booleans()) or not ops
        if not new and ops[-1][0] == k:
            o = [k, None]
        elif k == "scalar":
            o = [k, [draw(tree(["t"]))]]
        else:
            o = [k, [draw(tree(["t"] if k == "vec1" else ["x", "y", "z"])) for _ in range(3)],
                 draw(st.booleans())]
        o.append([draw(value) for _ in range(3)])
        ops.append(o)
    return ops


def lib(ctx):
    L = ctx.lib("expr")
    L.ex_new.restype = ctypes.c_void_p
    return L


def evaluate(case, ctx):
    L = lib(ctx)
    h = ctypes.c_void_p(L.ex_new())
    cur = None
    good = 0
    try:
        for k, op in enumerate(case):
            what, trees, args = op[0], op[1], op[-1]
            if trees is not None:
                cur = trees
                src = [js(t) for t in trees]
                if what == "scalar":
                    rc = L.ex_set_function(h, f"function(t) {{ return {src[0]}; }}".encode())
                elif op[2]:
                    rc = L.ex_set_expressions(h, b"t" if what == "vec1" else b"x,y,z",
                                              *[s.encode() for s in src])
                else:
                    p = "t" if what == "vec1" else "x, y, z"
                    rc = L.ex_set_function(h, ("function (%s) { var r = [%s]; return r; }" % (
                        p, ", ".join(src))).encode())
                require(rc == 0, "a valid script is refused: {}", src)
            out = (ctypes.c_double * 3)()
            if what == "scalar":
                rc, env = L.ex_scalar(h, ctypes.c_double(args[0]), out), {"t": args[0]}
            elif what == "vec1":
                rc, env = L.ex_vec1(h, ctypes.c_double(args[0]), out), {"t": args[0]}
            else:
                rc = L.ex_vec3(h, (ctypes.c_double * 3)(*args), out)
                env = dict(zip("xyz", args))
            require(rc == 0, "a valid script fails: {}", [js(t) for t in cur])
            for i, t in enumerate(cur):
                try:
                    v, err = ev(t, env)
                except Unsure:
                    ctx.label("not decided")
                    continue
                require(same(out[i], v, err), "operation {}: {} with {} gives {!r} instead of {!r}", k,
                        js(t), env, out[i], v)
                good += math.isfinite(v)
    finally:
        L.ex_free(h)
    ctx.label("values", good)
    ctx.nontrivial = good > 0


def one_function(case, ctx):
    name, x = case
    evaluate([["scalar", [["u", name, ["v", "t"]]], [x, 0, 0]]], ctx)


def accuracy(case, ctx):
    """a script function over all the magnitudes of its argument, densely enough to see each of its formulas"""
    name, phase, sign = case
    L = lib(ctx)
    h = ctypes.c_void_p(L.ex_new())
    n = 0
    try:
        require(L.ex_set_function(h, f"function(t) {{ return {name}(t); }}".encode()) == 0, "{} is refused", name)
        out = (ctypes.c_double * 3)()
        for i in range(601):
            x = sign * 10.0 ** ((i + phase / 1000) / 30 - 11)
            if i == 600:        # close to the largest representable result
                x = sign * (700 + phase / 1000 * 10.46)
            want = UNARY[name](x)
            if not math.isfinite(want) or abs(x) > (709.7 if name == "expm1" else 710.46) and name in ("cosh", "sinh", "expm1"):
                continue
            require(L.ex_scalar(h, ctypes.c_double(x), out) == 0, "{}({}) fails", name, x)
            require(abs(out[0] - want) <= 3e-8 * abs(want), "{}({!r}) gives {!r} instead of {!r}", name, x, out[0], want)
            n += 1
    finally:
        L.ex_free(h)
    ctx.nontrivial = n > 0


BAD = [("function(t) { return [1, 2, }", 0), ("function(t) { return nosuch(t); }", 1),
       ("function(t) { throw new Error('no'); }", 1), ("function(t) { return [1, 2]; }", 1),
       ("function(t) { }", 1), ("function(t) { return null; }", 1), ("function(t) { return 3; }", 1),
       ("function(t) { return undefined; }", 1), ("function(t) { return t.a.b; }", 1),
       ("function(t) { return {}; }", 1), ("3 +", 0), ("", 0)]


def errors(case, ctx):
    """a faulty script, anywhere a script is accepted, ends the program with a message"""
    script = BAD[case["i"]][0]
    mesh = meshgen.build({"n": [1, 1, 1]})
    cwd = ctx.fresh_dir()
    meshgen.write_msh(mesh, os.path.join(cwd, "m.msh"))
    s = {"outputs": {"file_basename": "run", "evol_time_step": 1e-13, "final_time": 1e-13},
         "mesh": {"filename": "m.msh", "length_unit": 1e-9, "volume_regions": {"vol0": {}}},
         "demagnetizing_field_solver": {"nb_threads": 1}}
    if case["where"] == "Bext":
        s["Bext"] = script
    elif case["where"] == "m":
        if "{" not in script:
            return
        s["initial_magnetization"] = script.replace("(t)", "(x, y, z)").replace("(t)", "(x)")
        if "t.a.b" in script:
            s["initial_magnetization"] = "function(x, y, z) { return x.a.b; }"
    elif case["where"] == "space":
        s["Bext"] = {"space": script.replace("function(t)", "function(x, y, z)").replace("t.a", "x.a"),
                     "time": "function(t) { return 1; }"}
    else:
        if not BAD[case["i"]][0] or BAD[case["i"]][1] and "nosuch" not in script:
            return
        s["Bext"] = ["0", script if "function" not in script else "nosuch(t)", "0"]
    e2e.write_yaml(s, os.path.join(cwd, "s.yml"))
    r = e2e.run(ctx.artefacts["exe"], ["s.yml"], cwd)
    require(isinstance(r.rc, int) and r.rc > 0, "faulty script {!r} as {}: not reported as an error: "
            "{!r}", script, case["where"], r)
    require(r.err.strip(), "faulty script {!r} as {}: no message", script, case["where"])
    ctx.nontrivial = True


TESTS = [Test("histories", histories(), evaluate, 1600, 60000),
         Test("functions", st.tuples(st.sampled_from(sorted(UNARY)), value).map(list), one_function,
              4000, 60000),
         Test("accuracy", st.tuples(st.sampled_from(sorted(SCRIPT)), st.integers(0, 999), st.sampled_from([1, -1])).map(list), accuracy,
              300, 10000),
         Test("errors", st.fixed_dictionaries({"i": st.integers(0, len(BAD) - 1), "where":
                                               st.sampled_from(["Bext", "m", "space", "list"])}),
              errors, 96, 400)]
