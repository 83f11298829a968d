"""C21: every data module gives each word one fitting meaning."""
import os

from .. import generator as g
from ..lexicon import LANGS
from ..runner import Enum
from ..target import REPO, expect, expect_number

RULE = ("Enumerated: every entry of every committed data module (supported or not), and of every module as the generator makes it "
        "from the committed sources. Non-trivial: every entry.")


def fits(section, v):
    return {"UNIT_NUMBERS": 0 <= v <= 9, "DIRECT_NUMBERS": 10 <= v <= 99, "TENS": v in range(10, 100, 10),
            "HUNDREDS": v in range(100, 1000, 100),
            "BIG_POWERS_OF_TEN": v >= 100 and str(v).strip("0") == "1"}[section]


_info = {}


def info_of(module):
    if module not in _info:
        _info[module] = g.load_info(g.read(g.OUT, module), module)
    return _info[module]


def oracle(case):
    module, section, word, v = case["module"], case["section"], case["word"], case["value"]
    info = info_of(module)
    expect(type(v) is int, f"{module}: {word!r} has value {v!r}")
    expect(fits(section, v), f"{module}: {word!r} = {v} cannot be in {section}")
    expect(word == word.strip() and word and not set(word) & set("<>[]{}=;$\xad"),
           f"{module}: {word!r} in {section} is not a word")
    expect(not any(word in info[s] for s in g.SECTIONS if s != section),
           f"{module}: {word!r} is in {section} and also in {[s for s in g.SECTIONS if s != section and word in info[s]]}")
    expect(word not in info["SKIP_TOKENS"], f"{module}: {word!r} is both a number word and a connector")
    lang = module[:-3]
    if lang in LANGS:
        expect_number(word, lang, v)
        expect_number(word.upper(), lang, v)
    return module if module[:2] in ("en", "es", "hi", "ru", "uk") else "other languages"


def entries(tier):
    for module in sorted(os.listdir(os.path.join(REPO, g.OUT))):
        if module.endswith(".py") and module != "__init__.py":
            info = info_of(module)
            for section in g.SECTIONS:
                for w, v in info[section].items():
                    yield {"module": module, "section": section, "word": w, "value": v}


TESTS = [Enum("entries", entries, oracle, shards=4)]
