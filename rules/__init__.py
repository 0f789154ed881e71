"""Property id -> the function that decides it."""
import importlib

MODULES = ("tasks", "locks", "net", "path", "exc", "logs", "codec", "json", "chars", "compile", "compare", "monitor", "unicode", "bitstream", "base64")


def find(prop):
    for m in MODULES:
        mod = importlib.import_module("rules." + m)
        if prop in getattr(mod, "RULES", {}):
            return mod.RULES[prop]
    return None


def all_rules():
    out = {}
    for m in MODULES:
        out.update(importlib.import_module("rules." + m).RULES)
    return out
