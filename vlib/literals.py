"""A fuzzing dictionary: the strings and integers that occur as literals in the code under test.

Only used to choose inputs, never to judge results.
"""
import ast
import os

from .target import REPO

FILES = ["number_parser/parser.py", "number_parser/__init__.py"]
GENERATOR = ["number_parser_scripts/write_complete_language_data.py"]
_found = {}


def _collect():
    if not _found:
        _found["strings"], _found["ints"] = collect(FILES)


def collect(files):
    strings, ints = set(), set()
    for name in files:
        try:
            with open(os.path.join(REPO, name), encoding="utf8") as f:
                tree = ast.parse(f.read())
        except (OSError, SyntaxError, ValueError):
            continue
        docs = set()
        for node in ast.walk(tree):
            body = getattr(node, "body", None)
            if isinstance(body, list) and body and isinstance(body[0], ast.Expr):
                docs.add(id(body[0].value))
        for node in ast.walk(tree):
            if isinstance(node, ast.Constant) and id(node) not in docs:
                v = node.value
                if isinstance(v, str) and 0 < len(v) <= 40:
                    strings.add(v)
                elif type(v) is int and v >= 0:
                    ints.add(v)
            elif isinstance(node, ast.BinOp) and isinstance(node.op, ast.Pow):
                try:
                    v = ast.literal_eval(node.left) ** ast.literal_eval(node.right)
                    if type(v) is int and 0 <= v < 10 ** 100:
                        ints.add(v)
                except Exception:   # noqa: BLE001 - not two literals
                    pass
    return sorted(strings), sorted(ints)


def strings():
    _collect()
    return _found["strings"]


def ints():
    _collect()
    return _found["ints"]


def sizes(most, least=1):
    """Lengths and counts worth trying: around every integer of the code."""
    out = {k + d for k in ints() for d in (-1, 0, 1, 2)} | {2 * k for k in ints()}
    return sorted(k for k in out if least <= k <= most)


def values(limit):
    out = set()
    for k in ints():
        for d in (-1, 0, 1):
            out.add(k + d)
        for e in (1, 2, 3, 6, 9, 15):
            out.add(k * 10 ** e)
        if k <= 90:
            out |= {10 ** k, 10 ** k - 1, 2 * 10 ** k + 5}
    return sorted(v for v in out if 0 <= v < limit)


def related(texts):
    """Those of the texts that share something with a literal of the code."""
    if "parts" not in _found:
        ls = [s.strip("^$\\[]()").lower() for s in strings()]
        _found["parts"] = [s for s in ls if len(s) > 1 and s.isalpha()]
    return [t for t in texts if any(s in t or t in s and len(t) > 2 for s in _found["parts"])]
