"""Runs the Python tools and modules of the repository. gmsh is the installed one; vtk, h5py, meshio, termcolor and matplotlib are
stand-ins (lib/pystubs) which keep what they are given."""
import os
import sys

import e2e
import fgbuild

HERE = os.path.dirname(os.path.abspath(__file__))


def env(cwd):
    mods = os.path.join(cwd, ".mods")
    if not os.path.isdir(mods):
        os.mkdir(mods)
        os.symlink("/usr/lib/python3/dist-packages/gmsh.py", os.path.join(mods, "gmsh.py"))
        os.symlink(os.path.join(fgbuild.REPO, "python-modules"), os.path.join(mods, "feellgood"))
    return {"PYTHONPATH": mods + ":" + os.path.join(HERE, "pystubs"), "PYTHONDONTWRITEBYTECODE": "1", "LANG": "C.UTF-8",
            "LC_ALL": "C.UTF-8", "PATH": "/usr/bin:/bin"}


def code(text, cwd, args=(), stdin=None):
    return e2e.run(sys.executable, ["-c", text, *args], cwd, stdin=stdin, env=env(cwd))


def tool(name, args, cwd, stdin=None, **more):
    return e2e.run(sys.executable, [os.path.join(fgbuild.REPO, "tools", name), *args], cwd, stdin=stdin, env=dict(env(cwd), **more))


def unavailable(r):
    """the tool asked a stand-in for something it does not offer: nothing can be said"""
    return r.rc == 77 and "STAND-IN" in r.out
