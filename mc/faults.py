"""Fault injection at every call the library makes into an I/O library.

An injection point is a call from a dascore frame into Python code of an I/O
library or into a C function working on files.  `Faults` counts the points an
operation passes, and raises at the one asked for.
"""
from __future__ import annotations

import os
import sys

M = sys.monitoring
TOOL = 4
IO_MODULES = ("h5py", "tables", "pandas.io", "segyio", "_io", "io", "posix", "os", "mmap", "pickle", "_pickle", "json", "scipy.io", "pathlib", "shutil", "genericpath", "posixpath", "xml", "pyexpat", "numpy")
NP_IO = {"fromfile", "memmap", "tofile", "load", "save", "loadtxt", "genfromtxt"}
# Failing to clean up is not something the caller can do anything about.
SKIP = {"close", "remove", "unlink", "__exit__", "__enter__", "__del__", "_f_close", "closed", "__init_subclass__", "__hash__", "__eq__", "__repr__", "__str__", "__fspath__", "fspath", "fileno", "isclosed", "is_open"}


CACHE = {}


class Faults:
    def __init__(self, at=None, error=OSError):
        self.at, self.error = at, error
        self.n = 0
        self.sites = []
        self.hit = None
        self.root = os.path.join(os.path.realpath(os.environ.get("VPMC_REPO", "/repo")), "dascore") + os.sep

    def ours(self, code):
        got = CACHE.get(code)
        if got is None:
            got = CACHE[code] = os.path.realpath(code.co_filename).startswith(self.root)
        return got

    def point(self, site):
        k, self.n = self.n, self.n + 1
        if self.at is None:
            self.sites.append(site)
        elif k == self.at:
            self.hit = site
            raise self.error(5, f"injected at {site[1]}") if issubclass(self.error, OSError) else self.error(f"injected at {site[1]}")

    def on_start(self, code, offset):
        name = code.co_name
        mod = sys._getframe(1).f_globals.get("__name__", "")
        if name in SKIP or not mod.startswith(IO_MODULES) or mod.startswith("numpy") and name not in NP_IO:
            return M.DISABLE
        try:
            caller = sys._getframe(2)
        except ValueError:
            return
        if not self.ours(caller.f_code):
            return
        self.point(((caller.f_code.co_filename, caller.f_lineno), f"{mod}.{code.co_qualname}"))

    def on_call(self, code, offset, func, arg0):
        if not self.ours(code):
            return M.DISABLE
        if hasattr(func, "__code__") or isinstance(func, type) or hasattr(func, "__func__"):  # seen when it starts
            if not (isinstance(func, type) and func.__name__ in ("memmap", "mmap")):
                return
        name = getattr(func, "__name__", "")
        if name in SKIP or not name:
            return
        mod = getattr(func, "__module__", None) or type(getattr(func, "__self__", None)).__module__
        if not str(mod).startswith(IO_MODULES) or str(mod).startswith("numpy") and name not in NP_IO:
            return
        frame = sys._getframe(1)
        self.point(((code.co_filename, frame.f_lineno), f"{mod}.{name}"))

    def __enter__(self):
        M.use_tool_id(TOOL, "vpmc")
        M.register_callback(TOOL, M.events.PY_START, self.on_start)
        M.register_callback(TOOL, M.events.CALL, self.on_call)
        M.set_events(TOOL, M.events.PY_START | M.events.CALL)
        return self

    def __exit__(self, *a):
        M.set_events(TOOL, 0)
        M.register_callback(TOOL, M.events.PY_START, None)
        M.register_callback(TOOL, M.events.CALL, None)
        M.free_tool_id(TOOL)
        M.restart_events()


def pick(sites, per=2):
    """The first and last occurrence of every distinct call site."""
    where = {}
    for k, s in enumerate(sites):
        where.setdefault(s, []).append(k)
    out = set()
    for ks in where.values():
        out |= set(ks[:1]) | set(ks[-(per - 1) :] if per > 1 else [])
    return sorted(out)


def open_files(root):
    """File descriptors of this process which refer to something below root."""
    out = []
    for fd in os.listdir("/proc/self/fd"):
        try:
            t = os.readlink(f"/proc/self/fd/{fd}")
        except OSError:
            continue
        if t.startswith(str(root)):
            out.append(t)
    return sorted(out)
