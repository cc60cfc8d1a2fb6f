"""One module per property; REGISTRY maps the property id to its rule."""
import importlib
import os

REGISTRY = {}
_here = os.path.dirname(__file__)
for _f in sorted(os.listdir(_here)):
    if _f.startswith("c") and _f[1:3].isdigit() and _f.endswith(".py"):
        REGISTRY[_f[:3].upper()] = f"sa.rules.{_f[:-3]}"


def load(pid):
    return importlib.import_module(REGISTRY[pid])
