"""
Loads the package under test from /repo's current source, instrumented or not, on top of stub system modules.

The stubs stand for the operating system and the parts of the standard library that reach it (os, fcntl, time,
threading, multiprocessing); their behaviour is the trusted contract of these dependencies.  Everything else that is
imported (_pyio, functools, contextlib, errno, stat ...) is the real thing.
"""
import ast
import builtins
import hashlib
import os as real_os
import sys
import types

from . import instrument
from .runtime import PV

REPO = real_os.environ.get("PYVC_REPO", "/repo")


def source_path(modname):
    rel = modname.split(".")
    base = real_os.path.join(REPO, "src", *rel)
    if real_os.path.isdir(base):
        return real_os.path.join(base, "__init__.py"), True
    return base + ".py", False


_code_cache = {}


def compiled(modname, instr):
    path, is_pkg = source_path(modname)
    with open(path, "rb") as f:
        src = f.read()
    key = (path, instr, hashlib.sha1(src).hexdigest())
    if key not in _code_cache:
        text = src.decode("utf-8")
        tree = instrument.instrument(text, path) if instr else ast.parse(text, path)
        import warnings

        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            _code_cache[key] = compile(tree, path, "exec", dont_inherit=True)
    return _code_cache[key], path, is_pkg


class World(object):
    """One loaded instance of the package."""

    def __init__(self, stubs, instr, blocked=()):
        self.stubs = dict(stubs)
        self.instr = instr
        self.mods = {}
        self.blocked = set(blocked)
        self.files = []
        bd = dict(vars(builtins))
        bd["__import__"] = self._import
        self.builtins = bd

    def __getitem__(self, name):
        return self.load("rsfile." + name if name else "rsfile")

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if name.count("."):
            parent = self.load_pkg(name.rsplit(".", 1)[0])
        code, path, is_pkg = compiled(name, self.instr)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if is_pkg else name.rsplit(".", 1)[0]
        if is_pkg:
            m.__path__ = [real_os.path.dirname(path)]
        m.__dict__["__builtins__"] = self.builtins
        m.__dict__["pv__"] = PV
        self.mods[name] = m
        self.files.append(path)
        try:
            exec(code, m.__dict__)
        except BaseException:
            del self.mods[name]
            raise
        if name.count("."):
            setattr(parent, name.rsplit(".", 1)[1], m)
        return m

    def load_pkg(self, name):
        """packages are created empty: their __init__ is only run when asked for explicitly"""
        if name in self.mods:
            return self.mods[name]
        if name == "rsfile":
            m = types.ModuleType(name)
            m.__path__ = [real_os.path.join(REPO, "src", "rsfile")]
            m.__package__ = name
            self.mods[name] = m
            return m
        return self.load(name)

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"].split(".")
            base = ".".join(pkg[: len(pkg) - (level - 1)])
            full = base + "." + name if name else base
        else:
            full = name
        if full == "rsfile" or full.startswith("rsfile."):
            if full == "rsfile" or real_os.path.isdir(source_path(full)[0].rsplit("/__init__.py", 1)[0]) and source_path(full)[1]:
                m = self.load_pkg(full)
            else:
                m = self.load(full)
            for f in fromlist or ():
                if f != "*" and not hasattr(m, f):
                    sub = full + "." + f
                    if real_os.path.exists(source_path(sub)[0]):
                        setattr(m, f, self.load(sub))
            if not fromlist:
                return self.load_pkg("rsfile")
            return m
        if full in self.stubs:
            return self.stubs[full if fromlist else full.split(".")[0]]
        if full in self.blocked:
            raise ImportError("No module named %r" % full)
        return builtins.__import__(name, globals, locals, fromlist, level)
