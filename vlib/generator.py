"""Runs the data generator script of the working tree in a scratch copy."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

from .target import REPO, Violation

SCRIPT = "number_parser_scripts/write_complete_language_data.py"
RAW = "number_parser_data/raw_cldr_translation_data"
SUPP = "number_parser_data/supplementary_translation_data"
OUT = "number_parser/data"
SECTIONS = ["UNIT_NUMBERS", "DIRECT_NUMBERS", "TENS", "HUNDREDS", "BIG_POWERS_OF_TEN"]
SKIPPED = {"root.json", "es-419.json"}


class Scratch:
    """A throw-away tree with the script, chosen sources, and an empty output folder."""

    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix="npgen.")
        for d in (RAW, SUPP, OUT):
            os.makedirs(os.path.join(self.dir, d))
        shutil.copytree(os.path.join(REPO, "number_parser_scripts"), os.path.join(self.dir, "number_parser_scripts"),
                        ignore=shutil.ignore_patterns("__pycache__"))
        return self

    def __exit__(self, *_):
        shutil.rmtree(self.dir)

    def put(self, sub, name, data):
        with open(os.path.join(self.dir, sub, name), "w", encoding="utf8") as f:
            if isinstance(data, str):
                f.write(data)
            else:
                json.dump(data, f, ensure_ascii=False, indent=1)

    def run(self, hashseed=0, ascii_locale=False, cwd=None):
        env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
        env.update(PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE="1", PYTHONUTF8="1")
        if ascii_locale:
            env.update(LC_ALL="POSIX", PYTHONCOERCECLOCALE="0", PYTHONUTF8="0")
        p = subprocess.run([sys.executable, os.path.join(self.dir, SCRIPT)], capture_output=True,
                           env=env, cwd=cwd or self.dir, timeout=300, encoding="utf8", errors="replace")
        if p.returncode:
            raise Violation("the generator script failed: " + p.stderr.strip()[-400:])

    def outputs(self):
        out = {}
        d = os.path.join(self.dir, OUT)
        for name in sorted(os.listdir(d)):
            if name.endswith(".py"):
                with open(os.path.join(d, name), encoding="utf8") as f:
                    out[name] = f.read()
        return out


def load_info(text, name):
    try:
        ns = {"__name__": "language_data"}
        exec(compile(text, name, "exec"), ns)   # noqa: S102 - the module is data of the code under test
        assert isinstance(ns["info"], dict), "info is no dictionary"
        return ns["info"]
    except Exception as e:   # noqa: BLE001
        raise Violation(f"{name} is not a data module: {e}") from None


def read(sub, name):
    with open(os.path.join(REPO, sub, name), encoding="utf8") as f:
        return f.read()


def sources():
    return sorted(f for f in os.listdir(os.path.join(REPO, RAW)) if f.endswith(".json"))


def supplementary(**sections):
    out = {k: {} for k in SECTIONS}
    out.update(SKIP_TOKENS=[], USE_LONG_SCALE=False)
    out.update(sections)
    return out
