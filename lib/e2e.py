"""Runs the real executable (built from /repo with the direct-summation FMM stand-in)."""
import json
import os
import re
import signal
import subprocess

import numpy as np

MU0 = 1.25663706127e-6
TIMEOUT = 60


class Result:
    def __init__(self, rc, out, err, cwd):
        self.rc, self.out, self.err, self.cwd = rc, out, err, cwd

    def __repr__(self):
        return f"exit status {self.rc}\nstdout: {self.out[-800:]}\nstderr: {self.err[-800:]}"


def run(exe, args, cwd, stdin=None, env=None, timeout=TIMEOUT):
    e = {"PATH": "/usr/bin:/bin", "HOME": cwd, "XDG_CONFIG_HOME": os.path.join(cwd, "cfg"),
         "OMP_NUM_THREADS": "1", "LANG": "C"}
    e.update(env or {})
    p = subprocess.Popen([exe, *args], cwd=cwd, env=e, stdin=subprocess.PIPE if stdin is not None
                         else subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         start_new_session=True)
    try:
        out, err = p.communicate(None if stdin is None else stdin.encode(), timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, err = p.communicate()
        return Result("timeout", out.decode(errors="replace"), err.decode(errors="replace"), cwd)
    return Result(p.returncode, out.decode(errors="replace"), err.decode(errors="replace"), cwd)


def write_yaml(d, path):
    with open(path, "w") as f:
        json.dump(d, f, indent=1)      # JSON is YAML


def read_table(path):
    """(header lines, list of lists of strings)"""
    head, rows = [], []
    with open(path) as f:
        for line in f:
            line = line.rstrip("\n")
            if line.startswith("#"):
                head.append(line)
            elif line:
                rows.append(line.split("\t"))
    return head, rows


def header_value(head, tag):
    for line in reversed(head):     # the user's metadata come before the program's own
        if line.startswith(tag):
            return line[len(tag):].strip()
    return None


def read_evol(path):
    head, rows = read_table(path)
    cols = header_value(head, "## columns:")
    return cols.split("\t") if cols is not None else None, rows


def read_sol(path):
    head, rows = read_table(path)
    t = float(header_value(head, "## time:"))
    cols = header_value(head, "## columns:").split("\t")
    return t, cols, np.array([[float(x) for x in r] for r in rows])
