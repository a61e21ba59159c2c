"""C22: output files have the requested contents, in the requested places."""
import math
import os
import re

import numpy as np
from hypothesis import strategies as st

import e2e
import fgbuild
import ref
import sim
from pbt import Test, require

PROPERTY = "C22"
RULE = "a case is non-trivial when at least one file besides the evolution file is written, or the header has metadata"
ASSUMPTIONS = ["evolution files have 16 significant digits, configuration files 8 (7 after the point), as the code sets them"]
TARGETS = [(None, {"exe": fgbuild.EXE})]

COLS = ["iter", "t", "dt", "max_dm", "max_angle", "<Mx>", "<My>", "<Mz>", "<dMx/dt>", "<dMy/dt>", "<dMz/dt>", "E_ex", "E_aniso",
        "E_demag", "E_zeeman", "E_tot", "Hx", "Hy", "Hz", "Thiele_length"]
REGCOLS = ["<Mx>", "<My>", "<Mz>", "<dMx/dt>", "<dMy/dt>", "<dMz/dt>", "Thiele_length"]
NAMES = ["run", "a b", "x.y", "\u00e9t\u00e9", "-n", "1", "it's", "a:b", "#1", 'q"t', "a_iter3", "true"]
TEXT = st.one_of(st.sampled_from(["Me", "a: b", "#x", "", "line 1\nline 2", "line 1\nline 2\n", "## time: 7", "l\n\nm\n", "\u00e9", "  pad",
                                  "tab\tin", "1", "true", '"q"', "back\\slash"]),
                 st.text(st.sampled_from(list("ab #:\n")), min_size=1, max_size=8).filter(lambda s: not s.endswith("\n\n")))


@st.composite
def cases(draw):
    c = draw(sim.problem(steps=(0, 2), max_cells=2, max_n=2, regions=2, nonmag=False, kinds=("none", "const", "time", "space")))
    regs = sorted(c["regs"])
    cols = st.one_of(st.sampled_from(COLS), st.tuples(st.sampled_from(regs), st.sampled_from(REGCOLS)).map(":".join))
    c["cols"] = draw(st.one_of(st.none(), st.lists(cols, min_size=1, max_size=8)))
    c["every"] = draw(st.sampled_from([1, 2, 3, 5, 100, 0, -1, False, None]))
    c["n"] = draw(st.integers(0, 12))
    c["name"] = draw(st.sampled_from(NAMES + [None]))
    c["meshname"] = draw(st.sampled_from(["m.msh", "m.x.msh", "sub/m.msh", "./m.msh"]))
    c["dir"] = draw(st.sampled_from([None, ".", "out", "out/", "old", "my dir", "out/deep", "old/deep", ""]))
    c["meta"] = draw(st.dictionaries(st.sampled_from(["Author", "a b", "Licence", "x:y", "1"]), TEXT, max_size=3))
    c["stale"] = draw(st.booleans())
    c["verbose"] = draw(st.integers(0, 3)) == 0
    return c


def listing(d):
    out = set()
    for root, dirs, files in os.walk(d):
        dirs[:] = [x for x in dirs if x not in (".fltk", "cfg")]
        out |= {os.path.relpath(os.path.join(root, f), d) for f in files}
    return out


def headers(lines, what):
    h = [x for x in lines if x.startswith("#")]
    require(lines[:len(h)] == h, "{}: header lines after the data", what)
    require(all(x.startswith("##") for x in h), "{}: header {}", what, h)
    return h


def check_header(h, c, cols, what, time=None):
    text = "\n".join(h)
    for k, v in c["meta"].items():
        v = v[:-1] if v.endswith("\n") else v
        line = f"## {k}: " + v.replace("\n", "\n##  ")
        require("\n" + line + "\n" in "\n" + text + "\n", "{}: no {!r} in the header {}", what, line, h)
    want = "## columns: " + "\t".join(cols)
    require(h[-1] == want, "{}: last header line is {!r} instead of {!r}", what, h[-1], want)
    for tag in ("## feellgood version:", "## settings file: s.yml", "## real-world time:"):
        require(any(x.lower().startswith(tag) for x in h) or tag in text, "{}: no {!r} in the header {}", what, tag, h)
    if time is not None:
        t = [x for x in h[:-1] if x.startswith("## time:")]
        require(len(t) >= 1, "{}: no time in the header {}", what, h)
        require(abs(float(t[-1][8:]) - time) <= 6e-7 * abs(time), "{}: time {} instead of {}", what, t[-1], time)


DIGITS = re.compile(r"^-?(\d)(?:\.(\d+))?(?:e([-+]\d+))?$")


def outputs(c, ctx):
    P = sim.Problem(c)
    exe = ctx.artefacts["exe"]
    cwd = ctx.fresh_dir()
    s = P.settings()
    o = s["outputs"]
    del o["file_basename"], o["mag_config_every"]
    o["final_time"] = P.t0 + c["n"] * P.dt
    if c["cols"] is not None:
        o["evol_columns"] = c["cols"]
    else:
        del o["evol_columns"]
    if c["every"] is not None:
        o["mag_config_every"] = c["every"]
    if c["name"] is not None:
        o["file_basename"] = c["name"]
    if c["dir"] is not None:
        o["directory"] = c["dir"]
    if c["meta"]:
        o["metadata"] = c["meta"]
    s["finite_element_solver"]["tolerance"] = 1e-6
    s["mesh"]["filename"] = c["meshname"]
    os.makedirs(os.path.join(cwd, "old"))
    os.makedirs(os.path.join(cwd, "sub"))
    P.write(cwd, s)
    if c["meshname"] != "m.msh":
        os.rename(os.path.join(cwd, "m.msh"), os.path.join(cwd, c["meshname"]))
    d = (c["dir"] or ".").rstrip("/")
    base = c["name"] or os.path.basename(c["meshname"]).rsplit(".", 1)[0]
    evol = os.path.normpath(os.path.join(d, base + ".evol"))
    if c["stale"] and os.path.isdir(os.path.join(cwd, d)):
        with open(os.path.join(cwd, evol), "w") as f:
            f.write("stale\n" * 400)
    before = listing(cwd)
    r = e2e.run(exe, (["-v"] if c["verbose"] else []) + ["--seed", "3", "s.yml"], cwd)
    if d == "out/deep":
        # the directory is created, not its parents
        require((isinstance(r.rc, int) and r.rc > 0) or os.path.exists(os.path.join(cwd, evol)), "{!r}", r)
        ctx.nontrivial = False
        return
    sim.must_run(r)
    cols = c["cols"] or ["t", "<Mx>", "<My>", "<Mz>", "E_ex", "E_demag", "E_zeeman", "E_tot"]
    every = 100 if c["every"] is None else max(0, int(c["every"]))
    want = {evol} | {os.path.normpath(os.path.join(d, f"{base}_iter{k}.sol")) for k in range(c["n"] + 1) if every and k % every == 0}
    got = listing(cwd) - before | ({evol} & listing(cwd))
    require(got == want, "files {} instead of {}", sorted(got), sorted(want))
    # evolution file
    text = open(os.path.join(cwd, evol)).read()
    require(text.endswith("\n"), "the evolution file ends with {!r}", text[-40:])
    lines = text[:-1].split("\n")
    h = headers(lines, evol)
    check_header(h, c, cols, evol)
    rows = [x.split("\t") for x in lines[len(h):]]
    require(len(rows) == c["n"] + 1, "{} rows instead of {}", len(rows), c["n"] + 1)
    times = [P.t0 + k * P.dt for k in range(c["n"] + 1)]
    for k, row in enumerate(rows):
        require(len(row) == len(cols), "row {} has {} fields, {} columns", k, len(row), len(cols))
        for name, x in zip(cols, row):
            float(x)
            if name == "t":
                require(abs(float(x) - times[k]) <= 2e-15 * abs(times[k]), "row {}: time {} instead of {!r}", k, x, times[k])
            elif name == "iter":
                require(x == str(k), "row {}: iter {}", k, x)
            elif name in ("Hx", "Hy", "Hz"):
                if c["B"]["k"] == "space":
                    require(math.isnan(float(x)), "row {}: uniform field {} reported", k, x)
                else:
                    hh = sim.field_eval(c["B"], P.dt, P.L, times[k])(None)["xyz".index(name[1])]
                    require(abs(float(x) - hh) <= 1e-14 * 2e6 * (1 + abs(times[k]) / P.dt), "row {}: {} {} instead of {!r}", k, name, x, hh)
    # 16 digits: numbers with an infinite expansion
    digits = 0
    for row in rows:
        for name, x in zip(cols, row):
            if "M" in name or name.startswith("E_"):
                m = DIGITS.match(x)
                if m and m[2]:
                    digits = max(digits, len((m[1] + m[2]).lstrip("0")))
                    ctx.label("fractions")
    uniform = not any(c["m0"][0][1:]) and not any(c["m0"][1][1:])
    if digits and c["n"] > 1 and not uniform and any("<M" in n for n in cols):
        require(digits >= 14, "numbers of {} digits in the evolution file: {}", digits, rows[-1])
    # configuration files
    N = len(P.mesh.p)
    for f in want - {evol}:
        k = int(f.rsplit("_iter", 1)[1][:-4])
        text = open(os.path.join(cwd, f)).read()
        require(text.endswith("\n"), "{} ends with {!r}", f, text[-40:])
        lines = text[:-1].split("\n")
        h = headers(lines, f)
        check_header(h, c, ["idx", "mx", "my", "mz", "phi"], f, times[k])
        data = [x.split("\t") for x in lines[len(h):]]
        require(len(data) == N, "{}: {} nodes instead of {}", f, len(data), N)
        for i, row in enumerate(data):
            require(len(row) == 5 and row[0] == str(i), "{}: line {} is {}", f, i, row)
            for x in row[1:]:
                require(re.match(r"^-?\d\.\d{7}e[-+]\d\d+$", x) or x in ("nan", "-nan"), "{}: {} on line {}", f, x, i)
    ctx.label("sol files", len(want) - 1)
    ctx.nontrivial = len(want) > 1 or bool(c["meta"])


# ----------------------------------------------------------------------------- output directory
DIRS = st.fixed_dictionaries({"kind": st.sampled_from(["file", "no access", "below a file", "fine", "link"])})


def directory(c, ctx):
    import meshgen
    cwd = ctx.fresh_dir()
    mesh = meshgen.build({"n": [1, 1, 1], "h": [4, 4, 4]})
    meshgen.write_msh(mesh, os.path.join(cwd, "m.msh"), "22a")
    d = "out"
    if c["kind"] == "file":
        open(os.path.join(cwd, "out"), "w").close()
    elif c["kind"] == "below a file":
        open(os.path.join(cwd, "x"), "w").close()
        d = "x/out"
    elif c["kind"] == "no access":
        d = "nowhere/out"
    elif c["kind"] == "link":
        os.makedirs(os.path.join(cwd, "real"))
        os.symlink("real", os.path.join(cwd, "out"))
    e2e.write_yaml({"outputs": {"directory": d, "evol_time_step": 1e-13, "final_time": 1e-13},
                    "mesh": {"filename": "m.msh", "length_unit": 1e-9, "volume_regions": {mesh.treg[0]: {}}},
                    "demagnetizing_field_solver": {"nb_threads": 1}}, os.path.join(cwd, "s.yml"))
    r = e2e.run(ctx.artefacts["exe"], ["s.yml"], cwd)
    if c["kind"] in ("fine", "link"):
        sim.must_run(r)
        require(os.path.exists(os.path.join(cwd, d, "m.evol")), "no evolution file in {}", d)
    else:
        require(isinstance(r.rc, int) and r.rc > 0, "output directory that cannot be used ({}): {!r}", c["kind"], r)
        require((r.err + r.out).strip(), "no message")
    ctx.nontrivial = True


TESTS = [Test("outputs", cases(), outputs, 400, 8000), Test("directory", DIRS, directory, 16, 40)]
