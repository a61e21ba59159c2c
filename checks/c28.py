"""C28: command-line options behave as documented, alone and combined."""
import os
import re

import yaml
from hypothesis import strategies as st

import e2e
import fgbuild
import sim
from pbt import Test, require

PROPERTY = "C28"
RULE = "a case is non-trivial when the command line has at least two arguments; for runs, always"
ASSUMPTIONS = ["options come before the settings file, as the usage message has it",
               "a process restricted to one processor runs single-threaded"]
TARGETS = [(None, {"exe": fgbuild.EXE})]
INFO = ["-h", "--help", "-V", "--version", "--print-defaults", "--print-template"]
LONG = ["--help", "--version", "--print-defaults", "--print-template", "--verify", "--verbose", "--seed"]
BAD = ["--foo", "-x", "--Help", "-hv", "--seed=3", "--verif", "-", "--", "-H", "--versions", "help", "other.yml"]
GOODDOC = "mesh:\n  filename: m.msh\n  volume_regions:\n    vol0:\n      Ms: 1e6\n"


@st.composite
def lines(draw):
    n = draw(st.integers(0, 4))
    args = []
    for _ in range(n):
        k = draw(st.sampled_from(["info", "verify", "verbose", "seed", "bad"]))
        if k == "info":
            args.append(draw(st.sampled_from(INFO)))
        elif k == "verify":
            args.append("--verify")
        elif k == "verbose":
            args.append(draw(st.sampled_from(["-v", "--verbose"])))
        elif k == "seed":
            args += ["--seed", str(draw(st.integers(0, 2**31)))]
        else:
            args.append(draw(st.sampled_from(BAD)))
    tail = draw(st.sampled_from(["file", "file", "file", "none", "missing", "two", "seed", "empty"]))
    return {"args": args, "tail": tail}


def source_defaults():
    return open(os.path.join(fgbuild.REPO, "src", "default-settings.yml")).read()


def is_help(out):
    return out.startswith("Usage:") and all(o in out for o in LONG)


def is_version(out):
    return out.startswith("feeLLGood ") and len(out.splitlines()) >= 5 and all(
        re.search(rf"{o}=(ON|OFF)", out) for o in ("ONE_GAUSS_POINT", "FIRST_ORDER", "ENABLE_SEQ"))


def is_template(out):
    try:
        yaml.load(out, Loader=yaml.BaseLoader)
    except yaml.YAMLError:
        return False
    return "#" not in out and "\n\n" not in out and yaml.load(out, Loader=yaml.BaseLoader) == yaml.load(
        source_defaults(), Loader=yaml.BaseLoader)


SHOWS = {"-h": is_help, "--help": is_help, "-V": is_version, "--version": is_version,
         "--print-defaults": lambda out: out == source_defaults(), "--print-template": is_template}


def parse(args):
    """options before the first argument which is no option, and the rest"""
    opts = []
    i = 0
    while i < len(args):
        if args[i] in INFO or args[i] in ("--verify", "-v", "--verbose"):
            opts.append(args[i])
        elif args[i] == "--seed":
            opts.append("--seed")
            if i < len(args) - 1:
                i += 1
        else:
            break
        i += 1
    return opts, args[i:]


def command(c, ctx):
    cwd = ctx.fresh_dir()
    with open(os.path.join(cwd, "s.yml"), "w") as f:
        f.write(GOODDOC)
    open(os.path.join(cwd, "empty.yml"), "w").close()
    args = list(c["args"]) + {"file": ["s.yml"], "none": [], "missing": ["nofile.yml"], "two": ["s.yml", "s.yml"],
                              "seed": ["--seed"], "empty": ["empty.yml"]}[c["tail"]]
    before = sorted(os.listdir(cwd))
    r = e2e.run(ctx.artefacts["exe"], args, cwd, stdin="")
    opts, rest = parse(args)
    shows = [o for o in opts if o in SHOWS]
    ctx.nontrivial = len(args) > 1
    if shows:
        require(r.rc == 0 and not r.err, "{}: {!r}", args, r)
        require(any(SHOWS[o](r.out) for o in shows), "{} printed {!r}", args, r.out[:1500])
        ctx.label("information")
    elif rest == ["s.yml"] and "--verify" in opts:
        require(r.rc == 0, "{}: {!r}", args, r)
        d = yaml.load(r.out[r.out.find("outputs:"):], Loader=yaml.BaseLoader)
        require(d["mesh"]["filename"] == "m.msh" and float(d["mesh"]["volume_regions"]["vol0"]["Ms"]) == 1e6,
                "{} printed {}", args, r.out)
        ctx.label("verification")
    else:
        # a command line that is not valid, or settings that lead nowhere (no such mesh)
        require(isinstance(r.rc, int) and r.rc > 0, "{}: {!r}", args, r)
        require((r.err + r.out).strip(), "{}: no message", args)
        if len(rest) != 1:
            require("Usage" in r.err, "{}: no usage message: {!r}", args, r)
            require("feeLLGood version" not in r.out, "{}: something was run: {!r}", args, r)
        ctx.label("refused")
    require(sorted(set(os.listdir(cwd)) - {".fltk"}) == before, "{} created files {}", args, sorted(os.listdir(cwd)))


# ------------------------------------------------------------------- defaults and user's defaults
DEFCASE = st.fixed_dictionaries({"opt": st.sampled_from(["--print-defaults", "--print-template"]),
                                 "via": st.sampled_from(["file", "user", "stdin"]),
                                 "doc": st.sampled_from([GOODDOC, "initial_time: 3\n", "outputs: {directory: a}\n",
                                                         "recentering: {enable: true}\n", "Bext: [1, t, 0]\n"]),
                                 "home": st.sampled_from(["xdg", "home", "emptyxdg", "nohome"])})


def defaults(c, ctx):
    """the printed defaults change nothing, wherever they are read from"""
    cwd = ctx.fresh_dir()
    exe = ctx.artefacts["exe"]
    printed = e2e.run(exe, [c["opt"]], cwd).out
    with open(os.path.join(cwd, "s.yml"), "w") as f:
        f.write(c["doc"])
    with open(os.path.join(cwd, "d.yml"), "w") as f:
        f.write(printed)
    env = {"xdg": {"XDG_CONFIG_HOME": cwd + "/x", "HOME": cwd + "/h"}, "home": {"XDG_CONFIG_HOME": "", "HOME": cwd + "/h"},
           "emptyxdg": {"XDG_CONFIG_HOME": "", "HOME": cwd + "/h"}, "nohome": {"XDG_CONFIG_HOME": cwd + "/x", "HOME": ""}}[c["home"]]
    place = cwd + ("/x" if env["XDG_CONFIG_HOME"] else "/h/.config") + "/feellgood"
    other = cwd + ("/h/.config" if env["XDG_CONFIG_HOME"] else "/x") + "/feellgood"
    os.makedirs(place)
    os.makedirs(other)
    with open(other + "/default.yml", "w") as f:
        f.write("outputs: {directory: wrong_place}\ninitial_time: 77\n")
    plain = e2e.run(exe, ["--verify", "s.yml"], cwd, env=env)
    require(plain.rc == 0 and "wrong_place" not in plain.out, "{!r}", plain)
    if c["via"] == "user":
        with open(place + "/default.yml", "w") as f:
            f.write(printed)
        r = e2e.run(exe, ["--verify", "s.yml"], cwd, env=env)
    else:
        with open(place + "/default.yml", "w") as f:
            f.write(c["doc"])
        r = (e2e.run(exe, ["--verify", "d.yml"], cwd, env=env) if c["via"] == "file" else
             e2e.run(exe, ["--verify", "-"], cwd, env=env, stdin=printed))
        if "Bext" in c["doc"] or "directory" in c["doc"] or "recentering" in c["doc"]:
            plain = None                # those are set by the defaults
    require(r.rc == 0, "the printed defaults are refused: {!r}", r)
    if plain is not None:
        require(r.out == plain.out, "with the printed defaults as {}: {} instead of {}", c["via"], r.out, plain.out)
    else:
        base = e2e.run(exe, ["--verify", "-"], cwd, env={"XDG_CONFIG_HOME": cwd + "/none"}, stdin="initial_time:\nverif: 0\n")
        require(r.out == base.out, "with the printed defaults last: {} instead of {}", r.out, base.out)
    # the user's defaults are read from the documented place
    with open(place + "/default.yml", "w") as f:
        f.write("outputs: {final_time: 0.125}\n")
    r = e2e.run(exe, ["--verify", "s.yml"], cwd, env=env)
    d = yaml.load(r.out[r.out.find("outputs:"):], Loader=yaml.BaseLoader)
    require(float(d["outputs"]["final_time"]) == 0.125, "user's defaults in {} not used: {!r}", place, r)
    ctx.nontrivial = True


# --------------------------------------------------------------------------------- runs
def strip(path):
    return [line for line in open(path) if not line.startswith(("## real-world time", "## settings file"))]


@st.composite
def run_cases(draw):
    c = draw(sim.problem(steps=(1, 2), max_cells=2, max_n=2))
    c["seed"] = draw(st.integers(0, 2**31))
    c["verbose"] = draw(st.booleans())
    c["order"] = draw(st.booleans())
    return c


def runs(c, ctx):
    P = sim.Problem(c)
    exe = ctx.artefacts["exe"]
    cwd = ctx.fresh_dir()
    s = P.settings(finite_element_solver={"tolerance": 1e-9, "max(iter)": 3000})
    cpus = os.sched_getaffinity(0)
    os.sched_setaffinity(0, {min(cpus)})        # inherited by the program: one thread
    try:
        res = []
        for k in range(3):
            d = os.path.join(cwd, f"r{k}")
            os.makedirs(d)
            P.write(d, s)
            seed = ["--seed", str(c["seed"])]
            opts = {0: seed, 1: seed, 2: seed}[k]
            if k == 2 and c["verbose"]:
                opts = ["-v"] + seed if c["order"] else seed + ["--verbose"]
            if k == 1:
                r = e2e.run(exe, [*opts, "-"], d, stdin=open(os.path.join(d, "s.yml")).read())
            else:
                r = e2e.run(exe, [*opts, "s.yml"], d)
            res.append((d, r))
    finally:
        os.sched_setaffinity(0, cpus)
    rc = res[0][1].rc
    require(rc in (0, 1), "{!r}", res[0][1])
    for d, r in res:
        require(r.rc == rc, "the same run ends with {} and {}", rc, r.rc)
        m = re.search(r"random seed: +(\d+)", r.out)
        require(m and int(m[1]) == c["seed"], "seed {} reported as {}", c["seed"], m and m[1])
        for f in sorted(os.listdir(res[0][0])):
            if f.endswith((".evol", ".sol")):
                require(os.path.exists(os.path.join(d, f)), "{} is missing", f)
                require(strip(os.path.join(d, f)) == strip(os.path.join(res[0][0], f)), "{} differs between runs with the "
                        "same seed ({})", f, ["", "settings from the standard input", "verbose"][res.index((d, r))])
    head = open(os.path.join(res[1][0], "run.evol")).read()
    require("settings file: standard input" in head, "header of a run from the standard input: {}", head[:600])
    ctx.nontrivial = True


TESTS = [Test("command lines", lines(), command, 1500, 20000), Test("defaults", DEFCASE, defaults, 150, 2000),
         Test("runs", run_cases(), runs, 80, 1500)]
