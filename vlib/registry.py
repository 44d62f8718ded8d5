"""Property id -> the checks that decide it (domain modules under vlib/domains)."""
import importlib
import os

DIR = os.path.join(os.path.dirname(__file__), "domains")


def checks_of(prop):
    out = []
    for f in sorted(os.listdir(DIR)):
        if f.endswith(".py") and not f.startswith("_"):
            m = importlib.import_module("vlib.domains." + f[:-3])
            out += [c for c in m.CHECKS if c.prop == prop]
    return out
