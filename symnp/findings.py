"""known findings: genuine defects of the package that are recorded instead of repaired (known_findings.txt)"""
import os
import re
FILE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.txt")
DEMOS = {}

def _load():
    out = []
    if os.path.exists(FILE):
        with open(FILE) as f:
            for line in f:
                m = re.match(r"^finding: property=(\S+) id=(\S+) (.*)$", line.strip())
                if m:
                    out.append({"property": m.group(1), "id": m.group(2), "what": m.group(3)})
    return out

_LISTED = _load()
_IDS = set(x["id"] for x in _LISTED)

def listed(prop):
    return [x for x in _LISTED if x["property"] == prop]

def is_listed(fid):
    return fid in _IDS

def demo(fid):
    def deco(fn):
        DEMOS[fid] = fn
        return fn
    return deco

def demonstrate(fid):
    """True if the finding still fails on the real package"""
    from . import runner
    real = runner.copies()[1]
    with real.active():
        return bool(DEMOS[fid](real.ak, real.numpy))
