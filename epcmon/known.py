"""Known findings: KNOWN_FINDINGS in the root of this repository.

    <property> | <regular expression over the violation message> | <what fails>
    fixed: property=<property> <commit> <what failed>

``fixed:`` lines are a record only and suppress nothing."""

import os
import re

PATH = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "KNOWN_FINDINGS")


def load():
    out = []
    if os.path.exists(PATH):
        for line in open(PATH):
            line = line.strip()
            if not line or line.startswith("#") or line.startswith("fixed:"):
                continue
            pid, rx, what = [x.strip() for x in line.split(" | ", 2)]
            out.append((pid, re.compile(rx, re.S), what))
    return out


def split(pid, violations):
    """-> (new violations, [(violation, finding)])."""
    fresh, old = [], []
    entries = [e for e in load() if e[0] == pid]
    for v in violations:
        for _, rx, what in entries:
            if rx.search(v["message"]):
                old.append((v, what))
                break
        else:
            fresh.append(v)
    return fresh, old
