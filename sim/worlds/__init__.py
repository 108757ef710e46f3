"""The simulated worlds and which properties each decides."""

from __future__ import annotations

import importlib
from dataclasses import dataclass, field


@dataclass
class WorldSpec:
    name: str
    fn: object
    properties: list
    quick: int
    thorough: int
    real: list = field(default_factory=list)
    stubs: list = field(default_factory=list)
    assumptions: list = field(default_factory=list)
    salt: int = 0
    # Further properties this world says something about -> the share of its runs used for them.
    also: dict = field(default_factory=dict)

    def runs(self, prop, tier):
        n = self.quick if tier == "quick" else self.thorough
        return int(n * self.also.get(prop, 1))


MODULES = ["redeem", "spend", "price", "lease", "replica", "recoverws", "setup", "api", "tahoe", "upgrade", "store", "life"]

_specs = {}


def _load():
    if not _specs:
        for m in MODULES:
            mod = importlib.import_module("sim.worlds." + m)
            for spec in mod.SPECS:
                spec.salt = len(_specs)
                _specs[spec.name] = spec


def get_world(name):
    _load()
    return _specs[name]


def checks_for(prop):
    _load()
    got = [s for s in _specs.values() if prop in s.properties or prop in s.also]
    if not got:
        raise SystemExit(f"no world decides {prop}")
    return got


def all_specs():
    _load()
    return list(_specs.values())
