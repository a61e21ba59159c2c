"""Shared by the demonstrations: builds the executable from the sources in the current directory (with an
exact direct sum in place of ScalFMM) in a scratch directory, writes small meshes, runs, reads results."""
import concurrent.futures as cf
import itertools
import json
import math
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
SRC = os.path.join(os.getcwd(), "src")
MU0 = 1.25663706127e-6
SCRATCH = tempfile.mkdtemp(prefix="demo")


def sh(cmd, **k):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
    if r.returncode:
        sys.exit("demo cannot build: " + " ".join(cmd) + "\n" + r.stdout[-3000:])


def build(flags=()):
    """path of the executable"""
    tree = os.path.join(SCRATCH, "src")
    shutil.copytree(SRC, tree, ignore=shutil.ignore_patterns("CMakeFiles", "config.h", "*.o"))
    cfg = open(os.path.join(tree, "config.h.in")).read().replace("@FEELLGOOD_VERSION@", "demo")
    with open(os.path.join(tree, "config.h"), "w") as f:
        f.write(re.sub(r"#cmakedefine01 +(\w+)", r"#define \1 0", cfg))
    opts = ["-std=c++17", "-O1", "-w", "-fopenmp", "-I", tree, "-I", os.path.join(HERE, "stubs"), *flags]
    names = [n for n in os.listdir(tree) if n.endswith(".cpp")]
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda n: sh(["g++", *opts, "-c", n, "-o", n + ".o"], cwd=tree), names))
    sh(["ld", "-r", "-b", "binary", "-z", "noexecstack", "default-settings.yml", "-o", "defaults.o"], cwd=tree)
    exe = os.path.join(SCRATCH, "feellgood")
    sh(["g++", "-fopenmp", *flags, *[n + ".o" for n in names], "defaults.o", "-o", exe, "-lyaml-cpp", "-lduktape",
        "-lann", "-ltbb", "-lgmsh"], cwd=tree)
    return exe


class Box:
    """nx x ny x nz cells of size h, cut into tetrahedra; region(i,j,k) -> name"""
    def __init__(self, n, h, region=lambda i, j, k: "vol", origin=(0, 0, 0)):
        nx, ny, nz = n
        idx = lambda i, j, k: (i * (ny + 1) + j) * (nz + 1) + k
        self.nodes = [tuple(o + c * s for o, c, s in zip(origin, q, h))
                      for q in itertools.product(range(nx + 1), range(ny + 1), range(nz + 1))]
        self.tets, self.treg = [], []
        for i, j, k in itertools.product(range(nx), range(ny), range(nz)):
            for perm in itertools.permutations(range(3)):
                q, t = [i, j, k], [idx(i, j, k)]
                for a in perm:
                    q[a] += 1
                    t.append(idx(*q))
                if [perm[0], perm[1], perm[2]] in ([0, 2, 1], [1, 0, 2], [2, 1, 0]):
                    t[2], t[3] = t[3], t[2]
                self.tets.append(tuple(t))
                self.treg.append(region(i, j, k))
        self.tris, self.sreg = [], []

    def surface(self, name, inside):
        """names the outer faces whose three vertices satisfy inside(x, y, z)"""
        seen = {}
        for t in self.tets:
            a, b, c, d = t
            for f in ((a, c, b), (a, b, d), (b, c, d), (a, d, c)):
                seen.setdefault(tuple(sorted(f)), []).append(f)
        for v in seen.values():
            if len(v) == 1 and all(inside(*self.nodes[i]) for i in v[0]):
                self.tris.append(v[0])
                self.sreg.append(name)
        return self

    def write(self, path):
        regs = sorted(set(self.treg))
        surfs = sorted(set(self.sreg))
        with open(path, "w") as f:
            f.write("$MeshFormat\n2.2 0 8\n$EndMeshFormat\n$PhysicalNames\n%d\n" % (len(regs) + len(surfs)))
            for s in surfs:
                f.write('2 %d "%s"\n' % (100 + surfs.index(s), s))
            for r in regs:
                f.write('3 %d "%s"\n' % (1 + regs.index(r), r))
            f.write("$EndPhysicalNames\n$Nodes\n%d\n" % len(self.nodes))
            for i, p in enumerate(self.nodes):
                f.write("%d %r %r %r\n" % (i + 1, *map(float, p)))
            f.write("$EndNodes\n$Elements\n%d\n" % (len(self.tris) + len(self.tets)))
            n = 0
            for t, r in zip(self.tris, self.sreg):
                n += 1
                f.write("%d 2 2 %d %d %d %d %d\n" % (n, *[100 + surfs.index(r)] * 2, *[i + 1 for i in t]))
            for t, r in zip(self.tets, self.treg):
                n += 1
                f.write("%d 4 2 %d %d %d %d %d %d\n" % (n, *[1 + regs.index(r)] * 2, *[i + 1 for i in t]))
            f.write("$EndElements\n")


def case(name):
    d = os.path.join(SCRATCH, name)
    os.makedirs(d)
    return d


def run(exe, cwd, settings, args=("--seed", "1"), timeout=60, stdin=None):
    with open(os.path.join(cwd, "s.yml"), "w") as f:
        json.dump(settings, f)
    env = {"PATH": "/usr/bin:/bin", "HOME": cwd, "XDG_CONFIG_HOME": cwd + "/cfg", "OMP_NUM_THREADS": "1"}
    return subprocess.run([exe, *args, "s.yml"], cwd=cwd, env=env, text=True, timeout=timeout,
                          stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL)


def table(path):
    """(header dict, rows of strings)"""
    head, rows = {}, []
    for line in open(path):
        line = line.rstrip("\n")
        if line.startswith("##"):
            k, _, v = line[2:].partition(":")
            head[k.strip()] = v.strip(" ")
        elif line and not line.startswith("#"):
            rows.append(line.split("\t"))
    return head, rows


def evol(cwd, name="run"):
    head, rows = table(os.path.join(cwd, name + ".evol"))
    cols = head["columns"].split("\t")
    return [dict(zip(cols, map(float, r))) for r in rows]


def sol(path):
    return [list(map(float, r)) for r in table(path)[1]]


def settings(dt, steps, regions={"vol": {}}, surfaces={}, **over):
    d = {"outputs": {"file_basename": "run", "evol_time_step": dt, "final_time": dt * steps, "mag_config_every": 1},
         "mesh": {"filename": "m.msh", "length_unit": 1e-9, "volume_regions": regions, "surface_regions": surfaces},
         "initial_magnetization": [0.3, 0.4, 0.8], "demagnetizing_field_solver": {"nb_threads": 1},
         "finite_element_solver": {"tolerance": 1e-10, "max(iter)": 2000},
         "time_integration": {"max(du)": 50, "min(dt)": dt / 1000, "max(dt)": dt * 10}}
    for k, v in over.items():
        if isinstance(v, dict) and isinstance(d.get(k), dict):
            d[k].update(v)
        else:
            d[k] = v
    return d


def finish(problems):
    shutil.rmtree(SCRATCH, ignore_errors=True)
    for p in problems:
        print("BROKEN:", p)
    sys.exit(1 if problems else 0)
