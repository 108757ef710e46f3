"""
One run must not know of another in the same process: whatever the code under
test keeps in its modules and classes (caches, counters, registries) is put
back before each run to what it was when nothing had run yet.
"""

from __future__ import annotations

import importlib
import pkgutil
import sys
from collections import OrderedDict, deque
from enum import Enum
from types import FunctionType

PACKAGE = "_zkapauthorizer"
CONTAINERS = (dict, list, set, deque, bytearray)
PLAIN = (int, float, str, bytes, bool, type(None), tuple, frozenset)


def _copy(c):
    return OrderedDict(c) if isinstance(c, OrderedDict) else list(c) if isinstance(c, (list, deque)) else bytes(c) if isinstance(c, bytearray) else dict(c) if isinstance(c, dict) else set(c)


def _same(c, was):
    if len(c) != len(was):
        return False
    if isinstance(c, dict):
        return all(k in c and c[k] is v for k, v in was.items())
    if isinstance(c, set):
        return c == was
    if isinstance(c, bytearray):
        return bytes(c) == was
    return all(a is b for a, b in zip(c, was))


def _put_back(c, was):
    if isinstance(c, (dict, set)):
        c.clear()
        c.update(was)
    elif isinstance(c, deque):
        c.clear()
        c.extend(was)
    else:
        c[:] = was


class Globals:
    def __init__(self):
        self.spaces = []  # (object with attributes, {name: value})
        self.containers = []  # (container, content)
        self.caches = []
        seen = set()
        for module in self.modules():
            self.space(module, seen)

    def modules(self):
        package = importlib.import_module(PACKAGE)
        for info in pkgutil.iter_modules(package.__path__, PACKAGE + "."):
            if not info.ispkg and not info.name.endswith("__main__"):
                try:
                    importlib.import_module(info.name)
                except Exception:
                    pass
        return [m for n, m in sorted(sys.modules.items())
                if m is not None and (n == PACKAGE or n.startswith(PACKAGE + ".")) and ".tests" not in n]

    def space(self, owner, seen):
        if id(owner) in seen:
            return
        seen.add(id(owner))
        values = {}
        for name, value in list(vars(owner).items()):
            if name.startswith("__"):
                continue
            values[name] = value
            self.value(value, seen)
        self.spaces.append((owner, values))

    def value(self, value, seen):
        value = getattr(value, "__func__", value) if isinstance(value, (staticmethod, classmethod)) else value
        if isinstance(value, CONTAINERS):
            if id(value) not in seen:
                seen.add(id(value))
                self.containers.append((value, _copy(value)))
        elif isinstance(value, type):
            if str(getattr(value, "__module__", "")).startswith(PACKAGE) and not issubclass(value, Enum):
                self.space(value, seen)
        elif isinstance(value, FunctionType):
            if id(value) not in seen and str(value.__module__).startswith(PACKAGE):
                seen.add(id(value))
                for x in (value.__defaults__ or ()) + tuple((value.__kwdefaults__ or {}).values()):
                    self.value(x, seen)
                self.containers.append((value.__dict__, dict(value.__dict__)))
                inner = value.__dict__.get("__wrapped__")
                if inner is not None:
                    self.value(inner, seen)
        elif callable(getattr(value, "cache_clear", None)):
            self.caches.append(value)

    def restore(self):
        for cache in self.caches:
            cache.cache_clear()
        for c, was in self.containers:
            if not _same(c, was):
                _put_back(c, was)
        for owner, was in self.spaces:
            now = vars(owner)
            for name in [n for n in now if n not in was and not n.startswith("__")]:
                if isinstance(now[name], CONTAINERS + PLAIN):
                    delattr(owner, name)
            for name, value in was.items():
                if now.get(name) is not value and isinstance(value, CONTAINERS + PLAIN):
                    setattr(owner, name, value)


_globals = None


def restore():
    """To be called before anything runs for the first time, and before each run."""
    global _globals
    if _globals is None:
        _globals = Globals()
    else:
        _globals.restore()
