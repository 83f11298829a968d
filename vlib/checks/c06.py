"""C06: numbers already written in digits."""
import sys

from hypothesis import strategies as st

from .. import gen, target, words
from ..lexicon import LANGS, LEX
from ..runner import Enum, Prop
from ..target import expect, expect_number, expect_parse
from .c14 import NEUTRAL

RULE = ("Digit strings of every Unicode decimal script, with leading zeros and surrounding white space, in every language "
        "and without one; and lists of digit strings, numerals and ordinary words in every order. Non-trivial: more than one "
        "digit, a non-ASCII script, or a list holding both digits and number words.")
DIGITS = {}
for _cp in range(sys.maxunicode + 1):
    if chr(_cp).isdecimal():
        DIGITS.setdefault(int(chr(_cp)), []).append(chr(_cp))
SCRIPTS = len(DIGITS[0])


def number(case):
    text, lang, n = case["text"], case["lang"], case["n"]
    expect_number(text, lang, n)
    if lang is not None or text.strip().isascii():
        expect_number(text, lang, n, fn="parse_ordinal")
    expect_parse(text, lang, text.strip())
    return case["kind"] if len(text.strip()) > 1 or not text.strip().isascii() else "-one digit"


def sentence(case):
    if case.get("loose"):
        got = target.parse(case["text"], case["lang"])
        expect(got.split() == case["want"].split(), lambda:
               f"parse({case['text']!r}, {case['lang']!r}) == {got!r}, expected the parts of {case['want']!r}")
    else:
        expect_parse(case["text"], case["lang"], case["want"])
    if case["mixed"]:
        expect_number(case["text"], case["lang"], None)
    return case["kind"]


def scripts(tier):
    for d, chars in DIGITS.items():
        for i, c in enumerate(chars):
            lang = ([None] + LANGS)[i % 6]
            yield {"lang": lang, "text": c, "n": d, "kind": "script"}
            yield {"lang": lang, "text": chars[(i + 1) % len(chars)] + c, "n": 11 * d, "kind": "script"}
    for lang in [None] + LANGS:
        for n in list(range(0, 1100, 7)) + [10 ** k for k in range(60)] + [10 ** k - 1 for k in range(60)]:
            yield {"lang": lang, "text": str(n), "n": n, "kind": "ascii"}
        for k in (100, 1000, 4000, 4300):
            yield {"lang": lang, "text": "7" * k, "n": int("7" * k), "kind": "long"}


@st.composite
def numbers(draw):
    ds = draw(gen.digits_text()) * draw(st.sampled_from([1, 1, 1, 1, 2, 5, 20]))
    ds = ds[:draw(st.sampled_from(gen.LITERAL_SIZES))] if gen.LITERAL_SIZES and not draw(st.integers(0, 4)) else ds
    ds = "0" * draw(st.sampled_from([0, 0, 0, 1, 3, 50])) + ds
    n = int(ds)
    script = draw(st.integers(0, SCRIPTS * 2 + 8))
    if script < SCRIPTS:
        ds = "".join(DIGITS[int(c)][script] for c in ds)
    elif script > SCRIPTS * 2:
        r = gen.rng(draw)
        ds = "".join(r.choice(DIGITS[int(c)]) for c in ds)
    text = draw(st.sampled_from([""] + gen.WS)) + ds + draw(st.sampled_from([""] + gen.WS))
    return {"lang": draw(st.sampled_from([None] + LANGS)), "text": text, "n": n,
            "kind": "ascii" if ds.isascii() else "script"}


@st.composite
def formatted(draw):
    """Dates, times, prices, phone numbers, codes: digit strings and letters joined by symbols."""
    bits = []
    for _ in range(draw(st.integers(1, 4))):
        bits.append(draw(st.sampled_from(["", "", "", "", "#", "$", "+", "(", "~", "€", "№", "=", "x", "v", "A"])))
        bits.append(draw(gen.digits_text()))
        bits.append(draw(st.sampled_from(["", "", "", "", "%", ")", "th", "st", "kg", "e", "x", "°", "ª", "K", "_"])))
        bits.append(draw(st.sampled_from(["-", "/", ":", ".", ",", "--", "'", "+", "…", "–"])))
    return "".join(bits[:-1])


@st.composite
def lists(draw):
    lang = draw(gen.LANG)
    out, want, kinds = [], [], set()
    last = ""
    for _ in range(draw(st.integers(1, 7))):
        k = draw(st.sampled_from("ddnw"))
        if k == "n" and last == "n":
            k = "d"
        if k == "d":
            s = draw(st.one_of(gen.digits_text(), st.sampled_from(
                ["1,000", "1.5", "11:08", "3.14", "2/3", "10%", "$5", "007", "1997", "5th", "٣٤", "१९", "2,5", "50€"])))
            if draw(st.integers(0, 2)) == 0:
                s = draw(formatted())
            if (last == "n" or lang == "hi") and s[:1] in "-.,":
                s = "0" + s
            out.append(s)
            want.append(s)
        elif k == "n":
            n, s = draw(gen.numeral(lang))
            out.append(s)
            want.append(str(n))
        else:
            s = draw(gen.filler(lang))
            out.append(s)
            want.append(s)
        kinds.add(k)
        last = k
    text, want = " ".join(out), " ".join(want)
    loose = draw(st.booleans())
    if loose:
        if not LEX[lang].is_connector(out[-1]):
            end = draw(st.sampled_from(["", ".", ",", " .", " !"]))
            text, want = text + end, want + end
        r = gen.rng(draw)
        own = r.choice([["\n"], ["\t"], ["  "], ["\xa0"], gen.WS])
        text = r.choice(["", *own]) + "".join(r.choice([" ", *own]) if c == " " else c for c in text) + r.choice(["", *own])
    return {"lang": lang, "text": text, "want": want, "mixed": len(out) > 1, "loose": loose,
            "kind": f"{lang}:" + "".join(sorted(kinds))}


@st.composite
def undetected(draw):
    """Digit strings and words that are no number in any language, without a language given: nothing changes."""
    w = st.one_of(gen.digits_text(), st.sampled_from(NEUTRAL), formatted(), st.sampled_from(words.SYMBOLS))
    text = " ".join(draw(st.lists(w, min_size=1, max_size=8)))
    return {"lang": draw(st.sampled_from([None, None, *LANGS])), "text": text, "want": text.strip(), "mixed": " " in text,
            "kind": "no number word"}


TESTS = [Enum("scripts", scripts, number), Prop("digit_strings", numbers, number, 4000),
         Prop("among_words", lists, sentence, 6000), Prop("no_number_word", undetected, sentence, 2000)]
