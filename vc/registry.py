"""finds the contract modules (/verif/contracts/*.py)"""
import importlib
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load(props=None):
    """import the contract modules concerned with the given properties"""
    if HERE not in sys.path:
        sys.path.insert(0, HERE)
    d = os.path.join(HERE, "contracts")
    for f in sorted(os.listdir(d)):
        if not f.endswith(".py") or f.startswith("_"):
            continue
        src = open(os.path.join(d, f)).read()
        m = re.search(r"^PROPS\s*=\s*(\[.*?\])", src, re.M | re.S)
        ps = eval(m.group(1)) if m else []
        if props is None or not ps or set(ps) & set(props):
            importlib.import_module("contracts." + f[:-3])
