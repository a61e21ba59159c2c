"""Builds what the checks need from /repo's current working tree.

The sources are copied to a scratch build tree of our own and config.h is generated there from
config.h.in, so that neither /repo's ignored build products nor an old build of ours is ever used.
Objects are cached under a content hash (compiler flags + source + every header).
"""
import concurrent.futures as cf
import fcntl
import hashlib
import os
import re
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
CXX = "/usr/bin/g++"

def _all():
    """every source file but main: a file added by a change is picked up"""
    return sorted(n[:-4] for n in os.listdir(os.path.join(REPO, "src"))
                  if n.endswith(".cpp") and n != "main.cpp")


ALL = _all()


class BuildError(Exception):
    pass


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def _read(path):
    with open(path, "rb") as f:
        return f.read()


class Builder:
    def __init__(self, options=None, cxxflags=()):
        """options: cmake options ONE_GAUSS_POINT, FIRST_ORDER, ENABLE_SEQ (default all off)"""
        self.options = {"ONE_GAUSS_POINT": 0, "FIRST_ORDER": 0, "ENABLE_SEQ": 0}
        options = dict(options or {})
        cxxflags = tuple(options.pop("cxxflags", ())) + tuple(cxxflags)
        self.ldflags = [f for f in cxxflags if f.startswith("-fsanitize")]
        self.options.update(options)
        self.src = os.path.join(REPO, "src")
        files = {}
        for root, dirs, names in os.walk(self.src):
            dirs[:] = [d for d in dirs if d != "CMakeFiles"]
            for n in names:
                if n == "config.h" or not n.endswith((".h", ".hpp", ".cpp", ".yml", ".in", ".inc")):
                    continue
                p = os.path.join(root, n)
                files[os.path.relpath(p, self.src)] = _read(p)
        cfg = files["config.h.in"].decode()
        cfg = cfg.replace("@FEELLGOOD_VERSION@", "verif")
        cfg = re.sub(r"#cmakedefine01 +(\w+)",
                     lambda m: f"#define {m.group(1)} {self.options.get(m.group(1), 0)}", cfg)
        files["config.h"] = cfg.encode()
        headers = _sha(*[f"{k}\0".encode() + v for k, v in sorted(files.items())
                         if not k.endswith(".cpp")])
        stubs = []
        for d in ("stubs", "shim"):
            for root, _, names in os.walk(os.path.join(VERIF, d)):
                stubs += [os.path.join(root, n) for n in names if n.endswith((".h", ".hpp"))]
        self.hkey = _sha(headers, *[_read(p) for p in sorted(stubs)])
        self.files = files
        self.tree = os.path.join(BUILD, "tree-" + _sha(self.hkey, *[
            f"{k}\0".encode() + v for k, v in sorted(files.items())]))
        self.flags = ["-std=c++17", "-O1", "-g0", "-fPIC", "-fopenmp", "-w",
                      "-D_GLIBCXX_ASSERTIONS", "-DTBB_SUPPRESS_DEPRECATED_MESSAGES",
                      "-I", self.tree, "-I", os.path.join(VERIF, "stubs"),
                      "-I", os.path.join(VERIF, "shim"),
                      "-include", os.path.join(VERIF, "shim", "verif_exit.h"), *cxxflags]
        self.flagkey = " ".join(f for f in self.flags if f != self.tree)
        os.makedirs(BUILD, exist_ok=True)

    def _tree(self):
        if os.path.isdir(self.tree):
            return
        tmp = f"{self.tree}.{os.getpid()}"
        for rel, data in self.files.items():
            p = os.path.join(tmp, rel)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(data)
        try:
            os.rename(tmp, self.tree)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)

    def _run(self, cmd, cwd=None):
        r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise BuildError(" ".join(cmd) + "\n" + r.stdout[-6000:])

    def _compile(self, path, key, extra=()):
        out = os.path.join(BUILD, f"{os.path.basename(path)[:-4]}-{key}.o")
        if not os.path.exists(out):
            tmp = f"{out}.{os.getpid()}.tmp.o"
            self._run([CXX, *self.flags, *extra, "-c", path, "-o", tmp])
            os.rename(tmp, out)
        return out

    def _defaults_obj(self):
        out = os.path.join(BUILD, "defaults-" + _sha(self.files["default-settings.yml"]) + ".o")
        if not os.path.exists(out):
            tmp = f"{out}.{os.getpid()}.tmp.o"
            self._run(["ld", "-r", "-b", "binary", "-z", "noexecstack", "default-settings.yml",
                       "-o", tmp], cwd=self.tree)
            os.rename(tmp, out)
        return out

    def build(self, targets):
        """targets: dict name -> {'shims': [...], 'repo': [...], 'defaults': bool, 'exe': bool}.
        Returns dict name -> path."""
        with open(os.path.join(BUILD, ".lock"), "w") as lock:
            fcntl.flock(lock, fcntl.LOCK_EX)
            return self._build(targets)

    def _build(self, targets):
        self._tree()
        jobs = {}
        for t in targets.values():
            for s in t.get("repo", []):
                path = os.path.join(self.tree, s + ".cpp")
                jobs[("repo", s)] = (path, _sha(self.hkey, self.flagkey, s, self.files[s + ".cpp"]), ())
            for s in t.get("shims", []):
                path = os.path.join(VERIF, "shim", s + ".cpp")
                data = _read(path)
                # a shim may include a .cpp of the repository
                inc = re.findall(rb'#include "(\w+)\.cpp"', data)
                deps = [self.files.get(i.decode() + ".cpp", b"") for i in inc]
                jobs[("shim", s)] = (path, _sha(self.hkey, self.flagkey, data, *deps),
                                     ("-fno-access-control",))
        weight = {"tetra": 3, "settings": 2, "main": 2}
        order = sorted(jobs, key=lambda k: -weight.get(k[1], 1))
        with cf.ThreadPoolExecutor(8) as ex:
            futs = {k: ex.submit(self._compile, *jobs[k]) for k in order}
            objs = {k: f.result() for k, f in futs.items()}
        out = {}
        for name, t in targets.items():
            o = [objs[("shim", s)] for s in t.get("shims", [])]
            o += [objs[("repo", s)] for s in t.get("repo", [])]
            if t.get("defaults"):
                o.append(self._defaults_obj())
            ext = "" if t.get("exe") else ".so"
            path = os.path.join(BUILD, f"{name}-{_sha(*o)}{ext}")
            if not os.path.exists(path):
                tmp = f"{path}.{os.getpid()}.tmp"
                self._run([CXX, *([] if t.get("exe") else ["-shared"]), "-fopenmp", *self.ldflags, *o, "-o", tmp,
                           *t.get("libs", ["-lyaml-cpp", "-lduktape", "-lann", "-ltbb", "-lgmsh"])])
                os.rename(tmp, path)
            out[name] = path
        return out


EXE = {"exe": True, "defaults": True, "repo": ALL + ["main"], "shims": ["exit_real"]}
FULL = {"defaults": True, "repo": ALL, "shims": ["exit_throw", "signal_flag"]}

if __name__ == "__main__":
    import time
    t0 = time.time()
    b = Builder()
    print(b.build({"feellgood": EXE}), time.time() - t0)
