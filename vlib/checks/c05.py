"""C05: no text makes a public function fail."""
import re

from hypothesis import strategies as st

from .. import gen, soup, words
from ..lexicon import LANGS
from ..runner import Enum, Prop
from ..target import call, expect, show

RULE = ("Arbitrary Unicode text (lone surrogates, combining marks and numeric characters included), text assembled from "
        "number words, connectors, separators, digits and odd characters, spelled numbers, and long repetitive texts; for every language and "
        "without one. Non-trivial: the text is not blank.")
ASSUMPTIONS = ["texts with digit runs beyond Python's own 4300-digit integer conversion limit are outside the domain"]
FRACTION = re.compile(r"[0-9]+/[0-9]+")


def oracle(case):
    text = case.get("before", "") + case["text"] * case.get("times", 1) + case.get("after", "")
    for lang in [case["lang"]] if case["lang"] != "*" else [None] + LANGS:
        for fn in ("parse_number", "parse_ordinal"):
            r = call(fn, text, lang)
            expect(r is None or (type(r) is int and r >= 0),
                   lambda: f"{fn}({text[:80]!r}, {lang!r}) returned {show(r)}")
        r = call("parse_fraction", text, lang)
        expect(r is None or (type(r) is str and FRACTION.fullmatch(r)),
               lambda: f"parse_fraction({text[:80]!r}, {lang!r}) returned {show(r)}")
        r = call("parse", text, lang)
        expect(type(r) is str, lambda: f"parse({text[:80]!r}, {lang!r}) returned {show(r)}")
    return case["kind"] if text.strip() else "-blank"


def characters(tier):
    step = 7 if tier == "quick" else 1
    for cp in range(0, 0x30000):
        c = chr(cp)
        if cp < 0x3100 or c.isnumeric() or cp % (step * 41) == 0:
            lang = ([None] + LANGS)[cp % 6]
            t = [c, "one" + c + "two", c + " five " + c, c + "/" + c, "пять" + c, c + "तीन"][cp // 6 % 6]
            yield {"lang": lang, "text": t, "kind": "character"}
            if c.isnumeric():
                yield {"lang": lang, "text": c, "kind": "character"}


def long_texts(tier):
    k = 12000 if tier == "quick" else 60000
    for lang, t in (("en", "one "), ("en", "million "), ("en", "one and "), ("en", "-"), ("en", "and "),
                    ("en", "twenty-"), ("en", "first "), ("en", "one, "), ("en", "a "), ("en", " "),
                    ("en", "two thousand million "), ("es", "y "), ("es", "centillón "), ("es", "mil "),
                    ("es", "dos y "), ("hi", "एक "), ("ru", "сто "), ("uk", "п'ять "), ("uk", "'"),
                    ("en", "word"), ("en", "first"), ("en", "th"), ("en", "\u0301"), ("en", "one over "),
                    ("en", "ieth"), ("en", "."), ("en", "x\xad"), (None, "one dos два ")):
        yield {"lang": lang, "text": t, "times": k, "kind": "long"}


def repeats(tier):
    """Something repeated, with an end that does not fit: a reader that backtracks never finishes."""
    units = ["a", "1", " ", "one", "one ", "1 ", "-", "'", "’", "п'", "\u0301", "a\u0301", "ieth", "th", "first", ".", ",", "/",
             "over", "divided ", "by", "and ", "and-", "\t \n", "\xad", "क्", "ते", "\u200d", "_", "é", "0", "१", "ё", "hundred ",
             "a-", "a'", "1,", "1.", "one-", "un", "e"]
    ends = ["", "x", "!", "1", " ", "one", "\u0301", "-", "'", "²", ".", "th", "/", "\n", " over", "é"]
    for i, u in enumerate(units):
        for j, e in enumerate(ends):
            for t in (40, 3000):
                if t == 3000 and tier == "quick" and (i + j) % 3:
                    continue
                yield {"lang": [None, *LANGS][(i + j) % 6], "before": ["", "one ", "x", "1 "][(i + j) % 4], "text": u, "times": t,
                       "after": e, "kind": "repeated"}


@st.composite
def anything(draw):
    return {"lang": draw(st.sampled_from(["*", None] + LANGS)),
            "text": draw(st.text(max_size=60)), "kind": "any text"}


@st.composite
def chars(draw):
    pool = draw(st.sampled_from(["ab'’ʼ-. ,/", "one two-and", "уп'яієї ", "१२ तीने्ं", "0123456789²½ ", "thie rdsf"]))
    return {"lang": draw(st.sampled_from([None] + LANGS)),
            "text": draw(st.text(alphabet=pool, max_size=25)), "kind": "narrow alphabet"}


@st.composite
def mixed(draw):
    lang = draw(gen.LANG)
    text = draw(soup.soup(lang))
    use = draw(st.sampled_from([lang, lang, None, "*"]))
    return {"lang": use, "text": text, "kind": "soup"}


@st.composite
def numerals(draw):
    """Spelled numbers of every size among words, symbols and each other."""
    lang = draw(gen.LANG)
    num = gen.numeral(lang).map(lambda x: x[1])
    bits = draw(st.lists(st.one_of(num, num, soup.piece(lang)), min_size=1, max_size=5))
    text = draw(st.sampled_from([" ", " ", "\n", "", ", ", " / "])).join(bits)
    return {"lang": draw(st.sampled_from([lang, lang, None, "*"])), "text": gen.dress(draw, text), "kind": "numerals"}


TESTS = [Enum("characters", characters, oracle), Enum("long_texts", long_texts, oracle),
         Enum("repeats", repeats, oracle),
         Prop("any_text", anything, oracle, 3000), Prop("narrow", chars, oracle, 2500),
         Prop("soup", mixed, oracle, 4500), Prop("numerals", numerals, oracle, 3000)]
_ = words
