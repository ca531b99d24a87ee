"""The known findings: violations of the unchanged code that are understood, described in DESIGN.md and not reported as new."""
import os
import re

FILE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known-findings.txt')


def load():
    """{property: {finding: text}} of the entries that are still open."""
    out = {}
    with open(FILE) as f:
        for line in f:
            m = re.match(r'known: property=(\w+) (F\d+) (.*)', line.strip())
            if m:
                out.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    return out
