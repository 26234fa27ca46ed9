"""The reviewed usage table: constant name -> code."""
import json, os
TABLE = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data", "usages.json")))
TYPED = {n: set(c) for n, c in json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data", "types.json"))).items()}
ARCADE = {n: c for n, c in TABLE.items() if n.startswith("arcade.")}
STANDARD = {n: c for n, c in TABLE.items() if n not in ARCADE}
BY_CODE = {c: n for n, c in STANDARD.items()}


def namespace(arcade=False):
    """what `from hrdc.usage import *` gives a script"""
    if arcade:
        import hrdc.usage.arcade
    ns = {}
    exec("from hrdc.usage import *", ns)
    return ns
