"""Known findings: genuine defects recorded in known_findings.txt, each by the exact case that fails."""
import json
import os

PATH = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.txt")


def load(prop):
    """[(case, description)] of the open findings of a property."""
    out = []
    with open(PATH, encoding="utf8") as f:
        for line in f:
            if line.startswith(f"known: property={prop} "):
                head, desc = line.strip().split(" :: ", 1)
                out.append((json.loads(head.split(" ", 2)[2].removeprefix("case=")), desc))
    return out
