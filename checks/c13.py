"""C13: invalid input is rejected with a message, never a crash or a silent run."""
import copy
import json
import os
import re

import yaml
from hypothesis import strategies as st

import c18
import e2e
import fgbuild
import meshgen
import sim
from pbt import Test, require

PROPERTY = "C13"
RULE = ("a case is non-trivial when the input differs from a valid one (always so in the table of invalid values; "
        "at least one mutation changed the file in the fuzzing tests)")
ASSUMPTIONS = ["memory errors are those AddressSanitizer detects in the project's own code (the libraries are not "
               "instrumented) and failed standard library assertions",
               "the fuzzed settings keep the duration of the run and the numbers of iterations small; a script which "
               "never returns is the user's",
               "terminates by itself: within 40 s of processor time for problems which take 0.1 s"]
ASAN = ("-fsanitize=address", "-fno-omit-frame-pointer")
TARGETS = [(None, {"exe": fgbuild.EXE}), ({"cxxflags": ASAN}, {"asan": fgbuild.EXE})]
ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0"}
MESSAGE = re.compile(r"error|abort|cannot|could not|not a directory|not found|invalid|warning|did not|usage", re.I)


# integers spread over their range (st.integers() favours small ones)
SPREAD = st.binary(min_size=3, max_size=3).map(lambda b: int.from_bytes(b, "big"))


def settled(r, what):
    require(r.rc != "timeout", "{}: the program does not end: {!r}", what, r)
    require(r.rc in (0, 1), "{}: the program ended with status {}: {!r}", what, r.rc, r)
    if r.rc == 1:
        require(r.err.strip() or MESSAGE.search(r.out), "{}: failure without a message: {!r}", what, r)


def base_problem(draw):
    c = draw(sim.problem(max_cells=2, max_n=2, nonmag=True, steps=(0, 1)))
    c["fmt"] = draw(st.sampled_from(["22a", "41a"]))
    return c


# ---------------------------------------------------------------- table of invalid values

def put(path, *values):
    return [(path, v) for v in values]


VEC_BAD = [[1, 0], [1, 0, 0, 0], 1, "x", {"x": 1}, ["a", 0, 0], [[1], 0, 0], []]
NUM_BAD = ["abc", "1,5", "1 nm", "0x", "1e", "--1", "1.2.3"]
INT_BAD = ["abc", "1.5", "ten"]
BOOL_BAD = ["maybe", "2", "oui"]
TABLE = [
    *put("outputs", [1], "x", 3),
    *put("outputs.evol_time_step", 0, -1e-13, ".nan", *NUM_BAD),
    *put("outputs.final_time", *NUM_BAD),
    *put("outputs.mag_config_every", True, *INT_BAD),
    *put("outputs.evol_columns", [], "t", {"t": 1}, ["t", "Mx"], ["nope"], ["t", ""], ["<Mx>", "nowhere:<Mx>"], ["VOL:<mx>"], [["t"]],
         [{"t": 1}], ["T"], ["E_Tot"], ["VOL:"], [" t"], [":t"]),
    *put("outputs.metadata", [1], "x", {"a": [1]}, {"a": {"b": 1}}),
    *put("outputs.directory", "no/such/parent", "m.msh"),
    *put("mesh", [1], "m.msh", 3),
    *put("mesh.filename", "missing.msh", "", ".", "s.yml", None),
    *put("mesh.length_unit", 0, -1e-9, ".nan", *NUM_BAD),
    *put("mesh.volume_regions", [1], "x", ["VOL"]),
    *put("mesh.volume_regions.nowhere", {}, {"Ms": 0}),
    *put("mesh.volume_regions.VOL", 1, "x", [1]),
    *put("mesh.volume_regions.VOL.Ms", *NUM_BAD),
    *put("mesh.volume_regions.VOL", {"Ms": 8e5, "Js": 1.0}, {"Js": 0, "Ms": 0}),
    *put("mesh.volume_regions.VOL.Ae", *NUM_BAD),
    *put("mesh.volume_regions.VOL.alpha_LLG", *NUM_BAD),
    *put("mesh.volume_regions.VOL.K", *NUM_BAD),
    *put("mesh.volume_regions.VOL.K3", *NUM_BAD),
    *put("mesh.volume_regions.VOL.uk", *VEC_BAD),
    *put("mesh.volume_regions.VOL.ex", *VEC_BAD),
    *put("mesh.volume_regions.VOL.ey", *VEC_BAD),
    *put("mesh.volume_regions.VOL.ez", *VEC_BAD),
    *put("mesh.volume_regions.VOL.sigma", *NUM_BAD),
    *put("mesh.volume_regions.VOL.l_sf", *NUM_BAD),
    *put("mesh.surface_regions", [1], "x"),
    *put("mesh.surface_regions.nowhere", {}, {"Ks": 0}),
    *put("mesh.surface_regions.SURF", 1, "x", [1], {"jn": 1, "V": 0}, {"jn": 0, "V": 0}),
    *put("mesh.surface_regions.SURF.suppress_charges", *BOOL_BAD),
    *put("mesh.surface_regions.SURF.Ks", *NUM_BAD),
    *put("mesh.surface_regions.SURF.uk", *VEC_BAD),
    *put("mesh.surface_regions.SURF.s", *VEC_BAD),
    *put("mesh.surface_regions.SURF.uP", *VEC_BAD),
    *put("initial_magnetization", [1, 0], [1, 0, 0, 0], [], {"x": 1}, ["1 +", 0, 0], ["nosuch", 0, 0], ["x y", "1", "1"], ["q(x)", 1, 1],
         "missing.sol", "function (x, y, z) { return [1, 0]; }", "function (x, y, z) { return 1; }", "function (x, y, z) { }",
         "function (x, y, z) { return [1, 0, 0; }", "function (x, y, z) { throw 'no'; }", "function (x, y, z) { return null; }",
         "function (x, y, z) { return [1, 0, '0']; }", "function (x, y, z) { return [undefined, 0, 1]; }", [[1], 0, 0]),
    *put("initial_time", *NUM_BAD),
    *put("recentering", [1], "x"),
    *put("recentering.enable", *BOOL_BAD),
    *put("recentering.direction", "x", "W", "XY", "", "1", 0, "[", "zz", " Z"),
    *put("recentering.threshold", *NUM_BAD),
    *put("Bext", [1, 0], [1, 0, 0, 0], [], {"x": 1}, ["1 +", 0, 0], ["nosuch", 0, 0], "0.1", "t", "function (t) { return [1, 0]; }",
         "function (t) { return 1; }", "function (t) { }", "function (t) { return [1, 0, 0; }", "function (t) { throw 'no'; }",
         "function (t) { return [0, '0', 0]; }", "function (t) { return [0, 0, null]; }",
         {"space": "function (x, y, z) { return [1, 0, 0]; }"}, {"time": "function (t) { return 1; }"},
         {"space": "function (x, y, z) { return [1, 0, 0]; }", "time": [1]}, {"space": [0, 0, 1], "time": "function (t) { return 1; }"},
         {"space": "function (x, y, z) { return 1; }", "time": "function (t) { return 1; }"},
         {"space": "function (x, y, z) { return [1, 0, 0]; }", "time": "function (t) { return [1, 2]; }"},
         {"space": "function (x, y, z) { return [1, 0, 0]; }", "time": "function (t) { }"},
         {"space": "function (x, y, z) { return [1, 0, 0]; }", "time": "1 + t"}, [[1], 0, 0]),
    *put("spin_accumulation", [1], "x"),
    *put("spin_accumulation.enable", *BOOL_BAD),
    *put("demagnetizing_field_solver", [1], "x"),
    *put("demagnetizing_field_solver.nb_threads", *INT_BAD),
    *put("finite_element_solver", [1], "x"),
    *put("finite_element_solver.max(iter)", *INT_BAD),
    *put("finite_element_solver.tolerance", *NUM_BAD),
    *put("time_integration", [1], "x"),
    *put("time_integration.max(du)", *NUM_BAD),
    *put("time_integration.min(dt)", 0, -1e-16, ".nan", *NUM_BAD),
    *put("time_integration.max(dt)", 0, -1e-13, ".nan", *NUM_BAD),
    ("", "text"), ("", [1, 2]), ("", None), ("", {}), ("raw", "outputs: [1"), ("raw", "a: b: c"), ("raw", "outputs: {directory: ."),
    ("raw", "- a\nb: 1"), ("raw", "\tx: 1"), ("raw", "'unclosed"), ("raw", "outputs:\n  a: 1\n b: 2\n"), ("raw", "*x"), ("raw", ""),
    ("raw", "# only a comment\n"), ("raw", "\x01"), ("raw", "[" * 5000), ("raw", "{a: " * 3000), ("raw", "%YAML 9.9\n---\nx: !!map y"),
]
SEQ_AS_MAP = {"recentering", "spin_accumulation", "demagnetizing_field_solver", "finite_element_solver", "time_integration"}
# a sequence where a section is expected is taken as an empty section: not documented either way
TABLE = [(p, v) for p, v in TABLE if not (p in SEQ_AS_MAP and isinstance(v, list))
         and not (p.endswith((".VOL", ".SURF")) and isinstance(v, list)) and not (p == "" and isinstance(v, list))]


@st.composite
def invalid(draw):
    return {"p": base_problem(draw), "i": draw(SPREAD) % len(TABLE), "layer": draw(st.integers(0, 3)) == 0,
            "verify": draw(st.integers(0, 3)) == 0}


def set_path(d, path, value):
    keys = path.split(".")
    for k in keys[:-1]:
        if not isinstance(d.get(k), dict):
            d[k] = {}
        d = d[k]
    if isinstance(value, dict) and isinstance(d.get(keys[-1]), dict) and path.endswith((".VOL", ".SURF")):
        value = dict({k: v for k, v in d[keys[-1]].items() if k not in ("Ms", "Js")}, **value)
    d[keys[-1]] = value


AT_RUN = ("outputs.directory", "mesh.filename", "mesh.volume_regions.nowhere", "mesh.surface_regions.nowhere")


def check_invalid(case, ctx):
    cwd = ctx.fresh_dir()
    p = sim.Problem(case["p"])
    d = p.settings()
    if not p.surf:
        d["mesh"].pop("surface_regions")
    vol = sorted(p.regs)[0]
    surf = (sorted(p.surf) or ["x"])[0]
    path, value = TABLE[case["i"]]
    path0 = path
    value = json.loads(json.dumps(value).replace("VOL", vol))
    p.write(cwd, d)
    layer = case["layer"] and not path.startswith(("initial_magnetization", "Bext")) and path not in ("", "raw", "mesh.filename")
    if path == "raw":
        text = value
    elif path == "":
        text = json.dumps(value) if value is not None else "null"
    else:
        bad = {} if layer else copy.deepcopy(d)
        keys = path.split(".")
        if keys[-1] in ("VOL", "SURF") or "VOL" in keys or "SURF" in keys:
            keys = [vol if k == "VOL" else surf if k == "SURF" else k for k in keys]
        full = bad
        for k in keys[:-1]:
            if not isinstance(full.get(k), dict):
                full[k] = {}
            full = full[k]
        if isinstance(value, dict) and path.endswith((".VOL", ".SURF")) and isinstance(full.get(keys[-1]), dict):
            value = dict({k: v for k, v in full[keys[-1]].items() if k not in ("Ms", "Js")}, **value)
        full[keys[-1]] = value
        text = json.dumps(bad)
        if value in (".nan",):
            text = text.replace('".nan"', ".nan")
    with open(os.path.join(cwd, "s.yml"), "w") as f:
        f.write(json.dumps(d) if layer else text)
    if layer:
        # the same value in the user's defaults; the settings file must not hide it
        os.makedirs(os.path.join(cwd, "cfg", "feellgood"))
        good = copy.deepcopy(d)
        keys = [vol if k == "VOL" else surf if k == "SURF" else k for k in path.split(".")]
        node = good
        for k in keys[:-1]:
            node = node.get(k) if isinstance(node, dict) else None
        if isinstance(node, dict):
            node.pop(keys[-1], None)
        with open(os.path.join(cwd, "cfg", "feellgood", "default.yml"), "w") as f:
            f.write(text)
        with open(os.path.join(cwd, "s.yml"), "w") as f:
            f.write(json.dumps(good))
    at_run = path0 in AT_RUN or path0.startswith("outputs.evol_columns") or (
        path0 in ("initial_magnetization", "Bext")) or path0 in ("mesh.surface_regions.SURF", "", "raw")
    verify = case["verify"] and not at_run
    what = f"{path0 or 'document'} = {str(value)[:60]!r}{' in the user defaults' if layer else ''}"
    r = e2e.run(ctx.artefacts["exe"], (["--verify"] if verify else []) + ["s.yml"], cwd)
    require(r.rc not in (0, "timeout"), "{}: accepted, though not valid: {!r}", what, r)
    settled(r, what)
    require(r.err.strip() or r.out.strip(), "{}: rejected without a message", what)
    ctx.label("table:" + path0.split(".")[0])


# ---------------------------------------------------------------- fuzzing of the settings

JUNK = [None, True, False, 0, -1, 1, 1e300, -1e-300, "", "x", "nan", [], {}, [1], [None], [1, 2, 3], {"a": 1}, "function", "function {",
        "function (t) { return t; }", "~", "\u00e9", "a" * 300, [[]], {"space": 1, "time": 1}, ".inf", "-.inf", "0x10", "010", "1e999",
        2**31, -2**31, 2**63, 1.5, "null", "yes", "__default__", "vol0", [0, 0, 0], ["x", "y", "z"], ["t", "t", "t"]]
KEYS = ["outputs", "mesh", "filename", "volume_regions", "surface_regions", "__default__", "vol0", "uk", "Ms", "Js", "jn", "V", "s", "uP", "x", "",
        "Bext", "space", "time", "recentering", "enable", "spin_accumulation", "V_file", "evol_columns", "metadata", "directory"]
# these decide how long a run takes: they are not fuzzed
PROTECTED = {("outputs", "evol_time_step"), ("outputs", "final_time"), ("initial_time",), ("time_integration", "min(dt)"), ("outputs",),
             ("time_integration", "max(dt)"), ("time_integration",), ("finite_element_solver", "max(iter)"), ("finite_element_solver",)}


def nodes_of(d, path=()):
    out = []
    items = d.items() if isinstance(d, dict) else enumerate(d) if isinstance(d, list) else ()
    for k, v in items:
        out.append(path + (k,))
        out += nodes_of(v, path + (k,))
    return out


@st.composite
def doc_mutations(draw):
    c = {"p": base_problem(draw), "spin": draw(st.booleans()), "rec": draw(st.integers(0, 3)) == 0, "muts": []}
    for _ in range(draw(st.integers(1, 4))):
        c["muts"].append([draw(st.sampled_from(["set", "set", "del", "rename", "dup", "wrap", "swap"])), draw(SPREAD),
                          draw(SPREAD)])
    c["style"] = draw(st.sampled_from(["json", "block"]))
    c["layers"] = draw(st.integers(1, 2))
    c["verify"] = draw(st.integers(0, 2)) == 0
    return c


def mutate_doc(d, muts):
    changed = 0
    for op, a, b in muts:
        paths = [q for q in nodes_of(d) if q not in PROTECTED]
        if not paths:
            break
        q = paths[a % len(paths)]
        par = d
        for k in q[:-1]:
            par = par[k]
        k = q[-1]
        before = json.dumps(d)
        if op == "set":
            par[k] = copy.deepcopy(JUNK[b % len(JUNK)])
        elif op == "del":
            par.pop(k)
        elif op == "rename" and isinstance(par, dict):
            par[KEYS[b % len(KEYS)]] = par.pop(k)
        elif op == "dup" and isinstance(par, dict):
            par[KEYS[b % len(KEYS)]] = copy.deepcopy(par[k])
        elif op == "dup":
            par.insert(k, copy.deepcopy(par[k]))
        elif op == "wrap":
            par[k] = [par[k]] if b % 2 else {KEYS[b % len(KEYS)]: par[k]}
        elif op == "swap":
            r = paths[b % len(paths)]
            if r[:len(q)] != q and q[:len(r)] != r:
                par2 = d
                for kk in r[:-1]:
                    par2 = par2[kk]
                par[k], par2[r[-1]] = par2[r[-1]], par[k]
        changed += json.dumps(d) != before
    return changed


def full_settings(p, spin, rec=False):
    d = p.settings()
    d["recentering"] = {"enable": rec, "direction": "Y", "threshold": 0.5}
    d["outputs"]["metadata"] = {"a": "b"}
    d["outputs"]["directory"] = "out"
    if not spin:
        d["spin_accumulation"] = {"enable": False, "V_file": True}
    else:
        d["spin_accumulation"] = {"enable": True, "V_file": True}
        for r in d["mesh"]["volume_regions"].values():
            r.update({"sigma": 1e7, "dens_state": 1e28, "P": 0.5, "l_sd": 1e-9, "l_sf": 1e-8})
        names = sorted(d["mesh"]["surface_regions"])
        for n, bc in zip(names, [{"jn": 1e10, "uP": [0, 0, 1]}, {"V": 0, "s": [0, 0, 0]}]):
            d["mesh"]["surface_regions"][n].update(bc)
    # the columns and fields come in any case; keep the run short
    d["time_integration"]["min(dt)"] = p.dt / 50
    d["finite_element_solver"] = {"tolerance": 1e-6, "max(iter)": 200}
    return d


def check_doc(case, ctx):
    cwd = ctx.fresh_dir()
    p = sim.Problem(case["p"])
    d = full_settings(p, case["spin"], case["rec"])
    changed = mutate_doc(d, case["muts"])
    ctx.nontrivial = changed > 0
    p.write(cwd, d)
    text = json.dumps(d) if case["style"] == "json" else yaml.safe_dump(d, allow_unicode=True)
    with open(os.path.join(cwd, "s.yml"), "w") as f:
        f.write(text)
    if case["layers"] == 2:
        os.makedirs(os.path.join(cwd, "cfg", "feellgood"))
        with open(os.path.join(cwd, "cfg", "feellgood", "default.yml"), "w") as f:
            f.write(text)
    r = e2e.run(ctx.artefacts["asan"], (["--verify"] if case["verify"] else []) + ["-v", "s.yml"], cwd, env=ENV, timeout=40)
    settled(r, "settings with random changes")
    ctx.label("rejected" if r.rc else "accepted")


@st.composite
def text_mutations(draw):
    c = {"p": base_problem(draw), "ops": []}
    for _ in range(draw(st.integers(1, 5))):
        c["ops"].append([draw(st.sampled_from(["cut", "del", "put", "put", "dup", "flip"])), draw(SPREAD),
                         draw(SPREAD)])
    c["style"] = draw(st.sampled_from(["json", "block", "bytes"]))
    return c


BITS = [b":", b"-", b"[", b"]", b"{", b"}", b"\n", b" ", b"#", b"'", b'"', b"|", b">", b"&a", b"*a", b"!", b"!!str ", b"%", b"\t", b"\xff", b"\xe9",
        b"\0", b"---\n", b"...\n", b"? ", b",", b"~", b"<<: ", b"\\", b"1e", b"0x", b"\xef\xbb\xbf", b"\xfe\xff", b"@", b"`"]


def mutate_text(t, ops):
    for op, a, b in ops:
        n = len(t)
        i = a % (n + 1)
        if op == "cut":
            t = t[:i]
        elif op == "del":
            t = t[:i] + t[i + 1 + b % 20:]
        elif op == "put":
            t = t[:i] + BITS[b % len(BITS)] + t[i:]
        elif op == "dup":
            j = b % (n + 1)
            i, j = min(i, j), max(i, j)
            t = t[:j] + t[i:j] + t[j:]
        elif op == "flip" and i < n:
            t = t[:i] + bytes([t[i] ^ (1 << b % 8)]) + t[i + 1:]
    return t


def check_text(case, ctx):
    cwd = ctx.fresh_dir()
    p = sim.Problem(case["p"])
    d = full_settings(p, False)
    text = (yaml.safe_dump(d, allow_unicode=True) if case["style"] == "block" else json.dumps(d)).encode()
    new = mutate_text(text, case["ops"])
    ctx.nontrivial = new != text
    p.write(cwd, d)
    with open(os.path.join(cwd, "s.yml"), "wb") as f:
        f.write(new)
    r = e2e.run(ctx.artefacts["asan"], ["--verify", "s.yml"], cwd, env=ENV, timeout=40)
    settled(r, "settings file with random bytes")
    ctx.label("rejected" if r.rc else "accepted")


# ---------------------------------------------------------------- fuzzing of the mesh

@st.composite
def mesh_mutations(draw):
    c = {"p": base_problem(draw), "ops": []}
    for _ in range(draw(st.integers(1, 3))):
        c["ops"].append([draw(st.sampled_from(["token", "token", "token", "line-del", "line-dup", "cut", "line-swap", "put"])),
                         draw(SPREAD), draw(SPREAD)])
    return c


TOK = ["0", "1", "-1", "2", "3", "5", "4", "15", "99", "1000000", "nan", "inf", "x", "1e308", "0.5", "", "-0", "4.1", "2.2", "1 1", '"vol0"', '"sA"',
       "$Elements", "$EndNodes", "2147483647"]


def mutate_mesh(text, ops):
    lines = text.split("\n")
    for op, a, b in ops:
        if not lines:
            break
        i = a % len(lines)
        if op == "token":
            toks = lines[i].split(" ")
            toks[b % len(toks)] = TOK[(b // 7) % len(TOK)]
            lines[i] = " ".join(toks)
        elif op == "line-del":
            lines.pop(i)
        elif op == "line-dup":
            lines.insert(i, lines[i])
        elif op == "cut":
            lines = lines[:i]
        elif op == "line-swap":
            j = b % len(lines)
            lines[i], lines[j] = lines[j], lines[i]
        elif op == "put":
            lines.insert(i, TOK[b % len(TOK)])
    return "\n".join(lines)


def check_mesh(case, ctx):
    cwd = ctx.fresh_dir()
    p = sim.Problem(case["p"])
    d = full_settings(p, False)
    p.write(cwd, d)
    path = os.path.join(cwd, "m.msh")
    text = open(path).read()
    new = mutate_mesh(text, case["ops"])
    ctx.nontrivial = new != text
    with open(path, "w") as f:
        f.write(new)
    r = e2e.run(ctx.artefacts["asan"], ["s.yml"], cwd, env=ENV, timeout=40)
    settled(r, "mesh file with random changes")
    ctx.label("rejected" if r.rc else "accepted")


def conduction(case, ctx):
    """incomplete or contradictory conduction problems"""
    c18.boundary(case, ctx)
    ctx.nontrivial = case["mut"] not in ("none", "off", "split")


TESTS = [Test("conduction", c18.conditions(), conduction, 100, 3000),
         Test("invalid", invalid(), check_invalid, 1200, 30000),
         Test("settings", doc_mutations(), check_doc, 400, 20000),
         Test("bytes", text_mutations(), check_text, 400, 20000),
         Test("mesh", mesh_mutations(), check_mesh, 400, 20000)]
