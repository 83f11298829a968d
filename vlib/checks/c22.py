"""C22: numbers spelled by CLDR's own rules are read back."""
from hypothesis import strategies as st

from .. import gen
from ..lexicon import LANGS
from ..rbnf import Rbnf, Unsupported
from ..runner import Enum, Prop
from ..target import expect_number, expect_parse

RULE = ("An RBNF interpreter (vlib/rbnf.py) runs frozen copies of CLDR's spell-out rules: every cardinal and numbering rule set "
        "of the five languages (all Russian cases and genders) and the English ordinal ones, on all integers below a bound, a "
        "grid of round numbers and random integers below 10^18; alone and inside a sentence. Commas between groups are left "
        "out. Non-trivial: two or more words.")
ASSUMPTIONS = ["the frozen CLDR rules spell numbers correctly"]
R = {lang: Rbnf(lang) for lang in LANGS}
SETS = [(lang, name) for lang in LANGS for name in R[lang].sets if not name.startswith("%%")]


def oracle(case):
    lang, name, n = case["lang"], case["rules"], case["n"]
    try:
        text = R[lang].format(name, n).replace(",", "")
    except Unsupported:
        return "-not spelled"
    ordinal = "ordinal" in name
    text = {"upper": str.upper, "cap": lambda t: t[:1].upper() + t[1:], "lines": lambda t: t.replace(" ", "\n")}.get(
        case.get("form"), str)(text)
    expect_number(text, lang, n, fn="parse_ordinal")
    if not ordinal:
        expect_number(text, lang, n)
    if case["sentence"]:
        expect_parse(f"zq {text} zq, {text}.", lang, f"zq {n} zq, {n}.")
    else:
        expect_parse(text, lang, str(n))
    return f"{lang}:{name.replace('%spellout-', '')}" if " " in text or "-" in text else "-one word"


def grid(tier):
    top = 1000 if tier == "quick" else 20000
    for i, (lang, name) in enumerate(SETS):
        ru = lang == "ru"
        for n in range(0, top if not ru else max(200, top // 4)):
            yield {"lang": lang, "rules": name, "n": n, "sentence": n % 5 == 0}
        for e in range(2, 18):
            for k in (1, 2, 3, 5, 7, 11, 12, 19, 21, 40, 90, 99, 100, 101, 200, 300, 500, 900, 999):
                if k * 10 ** e < 10 ** 18 and (tier != "quick" or not ru or (k + e + i) % 3 == 0):
                    yield {"lang": lang, "rules": name, "n": k * 10 ** e, "sentence": False}


@st.composite
def cases(draw):
    lang, name = draw(st.sampled_from(SETS))
    return {"lang": lang, "rules": name, "n": draw(gen.integers_for(lang, 10 ** 18 if lang != "hi" else 10 ** 13)),
            "sentence": draw(st.booleans()), "form": draw(st.sampled_from(["plain"] * 4 + ["upper", "cap", "lines"]))}


TESTS = [Enum("grid", grid, oracle), Prop("random", cases, oracle, 6000)]
