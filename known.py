"""Reads known-findings.txt: lines `fixed: property=ID COMMIT TEXT` and `known: property=ID CODE TEXT`."""
import os, re


def findings(pid):
    """The listed findings of a property, by the code of the failing assertion."""
    out = {}
    p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) (\d+) (.*)", l)
            if m and m.group(1) == pid:
                out[int(m.group(2))] = m.group(3).strip()
    return out
