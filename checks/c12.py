"""C12: settings are layered and dumped faithfully."""
import copy
import json
import math
import os

import numpy as np
import yaml
from hypothesis import strategies as st

import e2e
import fgbuild
import ref
import sim
from pbt import Test, require

PROPERTY = "C12"
RULE = ("a case is non-trivial when the documents set at least four values; for runs, when some value is "
        "overridden by the second document")
ASSUMPTIONS = ["the dump has six significant digits: numbers are compared to 1e-5",
               "the user's defaults are in $XDG_CONFIG_HOME/feellgood/default.yml"]
TARGETS = [(None, {"exe": fgbuild.EXE})]

DEFAULTS = {"Ae": 1e-11, "Ms": 795774.7, "K": 0, "uk": [0, 0, 1], "K3": 0, "ex": [1, 0, 0], "ey": [0, 1, 0],
            "ez": [0, 0, 1], "alpha_LLG": 0.5, "sigma": 0, "dens_state": 0, "P": 0, "l_sd": 0, "l_sf": 0}
SDEFAULTS = {"suppress_charges": False, "Ks": 0, "uk": [0, 0, 1], "jn": None, "V": None, "uP": [0, 0, 1], "s": None}
COLS = ["iter", "t", "dt", "max_dm", "max_angle", "<Mx>", "<My>", "<Mz>", "<dMx/dt>", "E_ex", "E_aniso", "E_demag",
        "E_zeeman", "E_tot", "Hx", "Hy", "Hz", "vol0:<Mx>", "a b:<My>", "x:y:<Mz>"]
NAMES = ["vol0", "a", "a b", "x:y", "been: here", "# one", "1", "true", "null", "-", "- a", "it's", 'say "hi"', "back\\slash",
         "\u00e9t\u00e9", "{a}", "[b]", "*s", "&a", "!t", "%p", "@x", "~", "a,b", "tab\tin", "2.50", "yes", "n\u00b0 1", "?", "|", ">"]
NAME = st.sampled_from(NAMES)
TEXT = st.one_of(NAME, st.text(st.sampled_from(list("ab1 :#'\"\\-{}[],&*!|>%@`~?.\u00e9\n\t")), max_size=12))
NUM = st.one_of(st.integers(-9, 9), st.builds(lambda m, e: float(f"{m}e{e}"), st.integers(-9999, 9999), st.integers(-20, 12)),
                st.sampled_from([0.1, 1 / 3, 795774.7, 1e-300, 123456.5]))
POS = NUM.filter(lambda x: x > 0)
VEC = st.tuples(*[st.integers(-9, 9)] * 3).filter(any).map(list)
EXPR = st.sampled_from(["0", "1", "x", "cos(1e7*x)", "x > 0 ? 1 : -1", '"abc".length', "'\\x41'.length + y", '"\\\\".length',
                        "sqrt(1 - z*z)", 0, 1, -2, 0.5, "1e9*x /* along x */", "y\n+ 1"])
TEXPR = st.sampled_from(["0", "sin(1e9*t)", "t < 1e-9 ? 0.1 : 0", '"ab".length*t', 0.25, -1, 0, "exp(-t/1e-9)", "t\n*2"])
FUNS = ["function (x, y, z) { return [x, y, 1]; }", "function (x, y, z) { var s = \"a: b\"; return [s.length, 0, z]; }",
        "function (x, y, z)\n{\n  return [0, 1, 0];\n}\n", "function (x, y, z) {\n  // \"quoted\" \\ text\n\n  return [x, y, z]; }",
        "function (x, y, z, r) { return r[0] == 'a' ? [1, 0, 0] : [0, 0, 1]; }",
        "  function (x, y, z) {\n return [1,\n   1, 1]; }"]
TFUNS = ["function (t) { return [t, 0, 0]; }", "function (t)\n{\n  return [0, sin(t), 0];\n}\n",
         "function (t) { var a = \"x\\ty\"; return [a.length, 0, 0]; }"]
AFUNS = ["function (t) { return 1; }", "function (t) {\n  return t;\n}\n"]


class UniqueKeys(yaml.BaseLoader):
    """a key may not occur twice in a mapping"""

    def construct_mapping(self, node, deep=False):
        keys = [k.value for k, _ in node.value if isinstance(k, yaml.ScalarNode)]
        twice = sorted({k for k in keys if keys.count(k) > 1})
        if twice:
            raise yaml.YAMLError("the keys %s occur twice" % twice)
        return super().construct_mapping(node, deep)


def opt(draw, d, key, strat, p=2):
    if draw(st.integers(0, p)) == 0:
        d[key] = draw(strat)


@st.composite
def document(draw):
    d = {}
    if draw(st.booleans()):
        o = d["outputs"] = {}
        opt(draw, o, "directory", st.one_of(NAME, st.sampled_from(["", "out/", "/", "a/b/", ".", None])))
        opt(draw, o, "file_basename", st.one_of(NAME, st.none()))
        opt(draw, o, "evol_time_step", POS)
        opt(draw, o, "final_time", NUM)
        opt(draw, o, "mag_config_every", st.one_of(st.integers(-3, 500), st.just(False), st.none()))
        opt(draw, o, "evol_columns", st.one_of(st.lists(st.sampled_from(COLS), min_size=1, max_size=6), st.none()))
        opt(draw, o, "metadata", st.dictionaries(NAME, TEXT, max_size=3))
    if draw(st.booleans()):
        m = d["mesh"] = {}
        opt(draw, m, "filename", st.sampled_from(["m.msh", "dir/x.y.msh", "noext", "a: b.msh", "d.d/f", "/tmp/q\"t.msh", None]))
        opt(draw, m, "length_unit", POS)
        if draw(st.booleans()):
            v = m["volume_regions"] = {}
            for n in draw(st.lists(NAME, max_size=3, unique=True)):
                r = v[n] = {}
                for k in DEFAULTS:
                    if k == "Ms" and draw(st.integers(0, 3)) == 0:
                        r["Js"] = draw(NUM)
                    elif DEFAULTS[k] and isinstance(DEFAULTS[k], list):
                        opt(draw, r, k, VEC, 5)
                    else:
                        opt(draw, r, k, st.one_of(NUM, NUM, st.none()), 5)
        if draw(st.booleans()):
            v = m["surface_regions"] = {}
            for n in draw(st.lists(NAME, max_size=3, unique=True)):
                r = v[n] = {}
                opt(draw, r, "suppress_charges", st.booleans(), 3)
                opt(draw, r, "Ks", NUM, 3)
                opt(draw, r, "uk", VEC, 3)
                bc = draw(st.sampled_from(["", "", "jn", "V"]))
                if bc:
                    r[bc] = draw(NUM)
                    opt(draw, r, {"jn": "V", "V": "jn"}[bc], st.none(), 3)
                opt(draw, r, "uP", st.one_of(VEC, st.none()), 4)
                opt(draw, r, "s", st.one_of(st.tuples(NUM, NUM, NUM).map(list), st.none()), 4)
    opt(draw, d, "initial_magnetization", st.one_of(st.lists(EXPR, min_size=3, max_size=3), st.sampled_from(FUNS),
                                                    st.sampled_from(["in.sol", "a: b.sol", "q\"t.sol", "d\\e.sol"]), st.none()))
    opt(draw, d, "initial_time", st.one_of(NUM, st.none()))
    if draw(st.integers(0, 2)) == 0:
        r = d["recentering"] = {}
        opt(draw, r, "enable", st.booleans(), 1)
        opt(draw, r, "direction", st.sampled_from("XYZ"), 1)
        opt(draw, r, "threshold", NUM, 1)
    opt(draw, d, "Bext", st.one_of(st.lists(TEXPR, min_size=3, max_size=3), st.sampled_from(TFUNS), st.none(),
                                   st.fixed_dictionaries({"space": st.sampled_from(FUNS[:3]), "time": st.sampled_from(AFUNS)})))
    if draw(st.integers(0, 2)) == 0:
        r = d["spin_accumulation"] = {}
        opt(draw, r, "enable", st.booleans(), 0)
        opt(draw, r, "V_file", st.booleans(), 1)
    if draw(st.integers(0, 2)) == 0:
        d["demagnetizing_field_solver"] = {"nb_threads": draw(st.integers(-2, 20))}
    if draw(st.integers(0, 2)) == 0:
        r = d["finite_element_solver"] = {}
        opt(draw, r, "max(iter)", st.integers(1, 9999), 1)
        opt(draw, r, "tolerance", POS, 1)
    if draw(st.integers(0, 2)) == 0:
        r = d["time_integration"] = {}
        opt(draw, r, "max(du)", POS, 1)
        opt(draw, r, "min(dt)", POS, 1)
        opt(draw, r, "max(dt)", POS, 1)
    return d


@st.composite
def documents(draw):
    c = {"layers": [draw(document()) for _ in range(draw(st.integers(1, 2)))],
         "style": draw(st.sampled_from(["json", "block", "flow", "literal"])), "stdin": draw(st.integers(0, 3)) == 0}
    if not c["layers"][-1]:
        c["layers"][-1] = {"initial_time": 0}
    # a surface has a current or a potential, not both: keep to one kind per name
    kinds = {}
    for d in c["layers"]:
        for n, r in ((d.get("mesh") or {}).get("surface_regions") or {}).items():
            for k in ("jn", "V"):
                if r.get(k) is not None and kinds.setdefault(n, k) != k:
                    r[kinds[n]] = r.pop(k)
    return c


class Literal(str):
    pass


yaml.SafeDumper.add_representer(Literal, lambda d, s: d.represent_scalar("tag:yaml.org,2002:str", str(s), style="|"))


def literal(x):
    if isinstance(x, dict):
        return {k: literal(v) for k, v in x.items()}
    if isinstance(x, list):
        return [literal(v) for v in x]
    return Literal(x) if isinstance(x, str) and "\n" in x else x


def emit(d, style):
    if style == "json":
        return json.dumps(d, indent=1)
    if style == "literal":
        return yaml.safe_dump(literal(d), default_flow_style=False, allow_unicode=True, sort_keys=False)
    return yaml.safe_dump(d, default_flow_style=style == "flow", allow_unicode=True, sort_keys=False)


def unit(v):
    n = math.sqrt(sum(x * x for x in v))
    return [x / n for x in v]


def text(x):
    """a scalar, as the program reads it as a text"""
    if x is True or x is False:
        return str(x).lower()
    return x if isinstance(x, str) else repr(x)


def model(layers):
    """effective settings"""
    s = {"outputs": {"directory": ".", "file_basename": "", "evol_time_step": 5e-13, "final_time": 1e-10, "mag_config_every": 100,
                     "evol_columns": ["t", "<Mx>", "<My>", "<Mz>", "E_ex", "E_demag", "E_zeeman", "E_tot"], "metadata": {}},
         "mesh": {"filename": "", "length_unit": 1e-9, "volume_regions": {}, "surface_regions": {}},
         "initial_magnetization": ["0", "0", "1"], "initial_time": None,
         "recentering": {"enable": False, "direction": "Z", "threshold": 0.1}, "Bext": ["0", "0", "0"],
         "spin_accumulation": {"enable": False, "V_file": False}, "demagnetizing_field_solver": {"nb_threads": 0},
         "finite_element_solver": {"max(iter)": 700, "tolerance": 1e-6},
         "time_integration": {"max(du)": 0.02, "min(dt)": 1e-16, "max(dt)": 5e-13}}
    for d in layers:
        for sec, val in d.items():
            if val is None:
                continue
            if sec == "mesh":
                for k, v in val.items():
                    if v is None:
                        continue
                    if k in ("volume_regions", "surface_regions"):
                        for n, r in v.items():
                            base = DEFAULTS if k[0] == "v" else SDEFAULTS
                            eff = s["mesh"][k].setdefault(n, dict(base))
                            for kk, x in r.items():
                                if kk == "Js":
                                    eff["Ms"] = x / ref.MU0
                                elif kk in ("jn", "V", "uP", "s"):
                                    eff[kk] = unit(x) if kk == "uP" and x is not None else x
                                elif x is not None:
                                    eff[kk] = unit(x) if isinstance(x, list) else x
                    else:
                        s["mesh"][k] = v
            elif sec == "outputs":
                for k, v in val.items():
                    if k == "metadata":
                        s["outputs"][k].update(v or {})
                    elif k == "mag_config_every":
                        if v is not None:
                            s["outputs"][k] = max(0, int(v))
                    elif v is not None:
                        s["outputs"][k] = v
            elif isinstance(val, dict) and sec != "Bext":
                s[sec].update({k: v for k, v in val.items() if v is not None})
            else:
                s[sec] = val
    o = s["outputs"]
    if o["directory"] == "":
        o["directory"] = "."
    if len(o["directory"]) > 1 and o["directory"].endswith("/"):
        o["directory"] = o["directory"][:-1]
    if not o["file_basename"]:
        b = s["mesh"]["filename"].split("/")[-1]
        o["file_basename"] = b[:b.rfind(".")] if "." in b else b
    return s


def num(got, want, where):
    try:
        g = float(got)
    except (TypeError, ValueError):
        require(False, "{}: {!r} instead of the number {}", where, got, want)
    require(abs(g - want) <= 1e-5 * abs(want) + 1e-307, "{}: {} instead of {}", where, got, want)


def vec(got, want, where):
    require(isinstance(got, list) and len(got) == 3, "{}: {!r} instead of {}", where, got, want)
    big = max(abs(x) for x in want)
    for a, b in zip(got, want):
        require(abs(float(a) - b) <= 1e-5 * max(abs(b), 1e-3 * big), "{}: {} instead of {}", where, got, want)


def txt(got, want, where):
    want = text(want)
    got = "" if got is None else got
    if "\n" in want and isinstance(got, str):        # the final end of line of a text of several lines is immaterial
        got, want = got.rstrip("\n"), want.rstrip("\n")
    require(got == want, "{}: {!r} instead of {!r}", where, got, want)


def flag(got, want, where):
    require(got == text(want), "{}: {!r} instead of {!r}", where, got, want)


def nothing(x):
    return x is None or x in ("", "null", "~")


def compare(got, want, where):
    """a dump, all scalars as strings, against the model"""
    o, w = got["outputs"], want["outputs"]
    txt(o["directory"], w["directory"], where + "outputs.directory")
    txt(o["file_basename"], w["file_basename"], where + "outputs.file_basename")
    for k in ("evol_time_step", "final_time", "mag_config_every"):
        num(o[k], w[k], where + "outputs." + k)
    require(o["evol_columns"] == w["evol_columns"], "{}: columns {} instead of {}", where, o["evol_columns"], w["evol_columns"])
    meta = o["metadata"] or {}
    require(list(meta) == list(w["metadata"]), "{}: metadata {} instead of {}", where, list(meta), list(w["metadata"]))
    for k, v in w["metadata"].items():
        txt(meta[k], v, f"{where}metadata of {k!r}")
    m, w = got["mesh"], want["mesh"]
    txt(m["filename"], w["filename"], where + "mesh.filename")
    num(m["length_unit"], w["length_unit"], where + "mesh.length_unit")
    for kind in ("volume_regions", "surface_regions"):
        g = m[kind] or {}
        require(set(g) == set(w[kind]), "{}: {} {} instead of {}", where, kind, list(g), list(w[kind]))
        for n, r in w[kind].items():
            for k, v in r.items():
                at = f"{where}{kind} {n!r} {k}"
                if k in ("uk", "ex", "ey", "ez"):
                    if r["K3" if k[0] == "e" else "K" if kind[0] == "v" else "Ks"] != 0:
                        vec(g[n].get(k), v, at)
                elif k in ("uP", "s"):
                    if want["spin_accumulation"]["enable"]:
                        if v is None:
                            require(nothing(g[n].get(k)), "{}: {} instead of nothing", at, g[n].get(k))
                        else:
                            vec(g[n].get(k), v, at)
                elif v is None:
                    require(nothing(g[n].get(k)), "{}: {} instead of nothing", at, g[n].get(k))
                elif isinstance(v, bool):
                    flag(g[n].get(k), v, at)
                else:
                    num(g[n].get(k), v, at)
    for sec in ("initial_magnetization", "Bext"):
        w, g = want[sec], got[sec]
        if isinstance(w, dict):
            require(isinstance(g, dict), "{}{}: {!r} instead of {!r}", where, sec, g, w)
            for k in w:
                txt(g[k], w[k], where + sec + "." + k)
        elif isinstance(w, list):
            require(isinstance(g, list) and len(g) == 3, "{}{}: {!r} instead of {!r}", where, sec, g, w)
            for a, b in zip(g, w):
                if isinstance(b, str):
                    txt(a, b, where + sec)
                else:
                    num(a, b, where + sec)
        else:
            txt(g, w, where + sec)
    if want["initial_time"] is None:
        require(nothing(got["initial_time"]), "{}initial_time: {}", where, got["initial_time"])
    else:
        num(got["initial_time"], want["initial_time"], where + "initial_time")
    w, g = want["recentering"], got["recentering"]
    flag(g["enable"], w["enable"], where + "recentering.enable")
    if w["enable"]:
        txt(g["direction"], w["direction"], where + "recentering.direction")
        num(g["threshold"], w["threshold"], where + "recentering.threshold")
    w, g = want["spin_accumulation"], got["spin_accumulation"]
    flag(g["enable"], w["enable"], where + "spin_accumulation.enable")
    if w["enable"]:
        flag(g["V_file"], w["V_file"], where + "spin_accumulation.V_file")
    n = want["demagnetizing_field_solver"]["nb_threads"]
    num(got["demagnetizing_field_solver"]["nb_threads"], n if n > 0 else os.sysconf("SC_NPROCESSORS_ONLN"), where + "nb_threads")
    for sec in ("finite_element_solver", "time_integration"):
        for k, v in want[sec].items():
            num(got[sec][k], v, where + sec + "." + k)


def write_user(cwd, doc):
    os.makedirs(os.path.join(cwd, "cfg", "feellgood"))
    with open(os.path.join(cwd, "cfg", "feellgood", "default.yml"), "w") as f:
        f.write(doc)


def parse_dump(out, what):
    i = out.find("outputs:")             # a warning may come first
    try:
        d = yaml.load(out[max(0, i):], Loader=UniqueKeys)
    except yaml.YAMLError as e:
        require(False, "{} is not a valid YAML document: {}\n{}", what, e, out)
    return d


def dumps(c, ctx):
    cwd = ctx.fresh_dir()
    docs = [emit(d, c["style"]) for d in c["layers"]]
    if len(docs) == 2:
        write_user(cwd, docs[0])
    with open(os.path.join(cwd, "s.yml"), "w") as f:
        f.write(docs[-1])
    args = ["--verify", "-"] if c["stdin"] else ["--verify", "s.yml"]
    r = e2e.run(ctx.artefacts["exe"], args, cwd, stdin=docs[-1] if c["stdin"] else None)
    require(r.rc == 0, "valid settings refused: {!r}", r)
    got = parse_dump(r.out, "the dump")
    want = model(c["layers"])
    compare(got, want, "")
    # the dump describes the same settings
    with open(os.path.join(cwd, "again.yml"), "w") as f:
        f.write(r.out[r.out.find("outputs:"):])
    r2 = e2e.run(ctx.artefacts["exe"], ["--verify", "again.yml"], cwd, env={"XDG_CONFIG_HOME": os.path.join(cwd, "none")})
    require(r2.rc == 0, "the printed settings are refused: {!r}\n{}", r2, r.out)
    compare(parse_dump(r2.out, "the dump of the dump"), want, "dump of the dump: ")

    def count(d):
        return sum(count(v) for v in d.values()) if isinstance(d, dict) else 1
    ctx.nontrivial = sum(map(count, c["layers"])) >= 4
    ctx.label("two layers", len(docs) == 2)


# --------------------------------------------------------------------------- whole runs
@st.composite
def split_runs(draw):
    c = draw(sim.problem(steps=(1, 2), max_cells=2, max_n=2, regions=2))
    c["split"] = draw(st.lists(st.integers(0, 3), min_size=24, max_size=24))
    return c


def leaves(d, path=()):
    for k, v in d.items():
        p = path + (k,)
        if isinstance(v, dict) and v and k != "Bext":
            yield from leaves(v, p)
        else:
            yield p, v


def put(d, path, v):
    for k in path[:-1]:
        d = d.setdefault(k, {})
    d[path[-1]] = v


def decoy(path, v, k):
    if path[-1] == "Bext":
        return [["0.3", "0", 0.1], "function (t) { return [1, 2, 3]; }",
                {"space": "function (x, y, z) { return [1, 0, 0]; }", "time": "function (t) { return 3; }"}][k % 3]
    if path[-1] == "initial_magnetization":
        return [["1", "0", "0"], "function (x, y, z) { return [0, 1, 0]; }", "nowhere.sol"][k % 3]
    if path[-1] == "evol_columns":
        return ["t", "E_tot"]
    if isinstance(v, bool):
        return not v
    if isinstance(v, (int, float)):
        return v * 3 + 1 if isinstance(v, int) else v * 3
    if isinstance(v, list):
        return [1, 2, 3]
    if isinstance(v, dict):
        return None
    return "decoy"


def same_rows(a, b, tol, what):
    require(len(a) == len(b), "{}: {} rows instead of {}", what, len(b), len(a))
    for k, (x, y) in enumerate(zip(a, b)):
        e = sum(abs(x[n]) for n in ("E_ex", "E_aniso", "E_demag", "E_zeeman"))
        for n in x:
            scale = (1 / ref.MU0 if n[0] == "H" else e + 1e-30 if n.startswith("E_") else 1.0 if "M" in n and "dt" not in n or n in ("max_dm", "max_angle")
                     else abs(x[n]) if "/dt" not in n else max(abs(x[m]) for m in sim.V_COLS) + 1.0)
            require(abs(x[n] - y[n]) <= tol * scale or math.isnan(x[n]) and math.isnan(y[n]),
                    "{}: row {}, {}: {} instead of {}", what, k, n, y[n], x[n])


META = {"Author": "Ann Onym", "Affiliation": "here", "Licence": "CC BY"}


def metadata_lines(path):
    got = [q for q in open(path) if q.startswith("#") and q.lstrip("# ").split(":")[0] in META]
    require(sorted(got) == sorted("## %s: %s\n" % kv for kv in META.items()), "metadata in the header: {}", got)


def runs(c, ctx):
    P = sim.Problem(c)
    exe = ctx.artefacts["exe"]
    cwd = ctx.fresh_dir()
    r, base, tol = P.run_steps(exe, cwd)
    full = json.load(open(os.path.join(cwd, "s.yml")))
    full["outputs"]["metadata"] = META
    lay = {}, {}
    over = 0
    for i, (path, v) in enumerate(leaves(full)):
        k = c["split"][i % len(c["split"])]
        dec = decoy(path, v, k + i)
        if v == {} or isinstance(v, dict) and path[-1] != "Bext":
            put(lay[1], path, v)
        elif k == 0:
            put(lay[0], path, v)
        elif k == 1:
            put(lay[1], path, v)
        else:
            put(lay[1], path, v)
            if dec is not None and path[-1] not in ("Ms", "Js"):
                put(lay[0], path, dec)
                over += 1
    if not lay[1]:
        lay[1]["initial_time"] = None
    one, two = os.path.join(cwd, "one"), os.path.join(cwd, "two")
    for d in (one, two):
        os.makedirs(d)
        P.write(d, full)
    write_user(one, emit(lay[0], "block"))
    e2e.write_yaml(lay[1], os.path.join(one, "s.yml"))
    r = e2e.run(exe, ["--seed", "7", "s.yml"], one)
    sim.must_run(r, "the run with two layers of settings")
    rows1 = sim.rows(*e2e.read_evol(os.path.join(one, "run.evol")))
    metadata_lines(os.path.join(one, "run.evol"))
    if [x["dt"] for x in rows1][1:] and all(sim.close(x["dt"], P.dt, 1e-6, 0) for x in rows1[1:]):
        same_rows(base, rows1, max(tol, 1e-6), "settings in two documents")
    else:
        require(len(rows1) == len(base), "settings in two documents: {} rows instead of {}", len(rows1), len(base))
    # the dump of those settings, run
    d = e2e.run(exe, ["--verify", "s.yml"], one)
    require(d.rc == 0, "settings refused: {!r}", d)
    with open(os.path.join(two, "s.yml"), "w") as f:
        f.write(d.out[d.out.find("outputs:"):])
    r = e2e.run(exe, ["--seed", "7", "s.yml"], two)
    sim.must_run(r, "the run with the dump of its settings")
    rows2 = sim.rows(*e2e.read_evol(os.path.join(two, "run.evol")))
    metadata_lines(os.path.join(two, "run.evol"))
    require(len(rows2) == len(base), "the dump run: {} rows instead of {}", len(rows2), len(base))
    if all(sim.close(x["dt"], P.dt, 1e-5, 0) for x in rows2[1:]):
        # six digits in the dump: phase of a time-dependent field at t = 50 steps
        same_rows(base, rows2, 2e-3, "the dump of the settings, run")
    ctx.label("overridden values", over)
    ctx.nontrivial = over > 0


TESTS = [Test("dumps", documents(), dumps, 1500, 30000), Test("runs", split_runs(), runs, 100, 2000)]
