"""C04: parse_number accepts nothing but one number."""
import sys
import unicodedata

from hypothesis import strategies as st

from .. import gen, spell, words
from ..lexicon import LANGS, LEX
from ..runner import Enum, Prop
from ..target import expect_number

RULE = ("Texts that are not one number, built by construction: no number word at all; a correct numeral with one foreign "
        "piece (ordinary word, near miss of a number word, symbol, full stop, comma, digits) put in, put before or put "
        "after; a connector in front; a list of numerals that cannot combine; digits with anything else attached; "
        "numeric characters that are not decimal digits. All are non-trivial except blank text.")


def oracle(case):
    expect_number(case["text"], case["lang"], None)
    return case["kind"] if case["text"].strip() else "-blank"


def enumerated(tier):
    langs = [None] + LANGS
    for cp in range(sys.maxunicode + 1):
        c = chr(cp)
        if c.isnumeric() and not c.isdecimal():
            yield {"lang": "en", "text": c, "kind": "numeric character"}
            if cp % 7 == 0:
                yield {"lang": "es", "text": "1" + c, "kind": "numeric character"}
                yield {"lang": None, "text": f" {c}2 ", "kind": "numeric character"}
    blanks = ["", " ", "\n\t", "\u3000", "\xad", "\u0301", "\u200b", "'", "’", " ' ", "''", "-", "--", " - ",
              ".", ",", "_", "/", "and", " and ", "and and", "-and-", " y ", "y", "ʼ", "-'-", "' and '"]
    for lang in langs:
        for t in blanks:
            yield {"lang": lang, "text": t, "kind": "no number word"}
        pool = words.ALL_FILLERS[lang] + words.NEAR[lang] if lang else words.ALL_FILLERS["en"]
        for w in pool:
            if w in spell.HI_WORDS or (lang is None and w in ("once",)):
                continue
            yield {"lang": lang, "text": w, "kind": "no number word"}
        for s in words.SYMBOLS + list("+._,"):
            yield {"lang": lang, "text": s, "kind": "no number word"}
            yield {"lang": lang, "text": s * 2, "kind": "no number word"}
    for lang in LANGS:
        for w in LEX[lang].words:
            for con in LEX[lang].connectors:
                for t in (f"{con} {w}", f" {con} {w}", f"{con.upper()} {w}", f"\t{con} {w}",
                          f"{con} {con} {w}"):
                    yield {"lang": lang, "text": t, "kind": "connector in front"}
            for t in (w + "1", "1" + w, w + " 1", "1 " + w, w + "_", "_" + w, w + w[-1:] * 2, w + "!", "(" + w,
                      w + ".", w + ",", "+" + w, "." + w, w + "%", w + ";", w + " x", "x " + w, w + "?"):
                if t == w + w[-1:] * 2 and not words.is_plain(lang, t):
                    continue      # a doubled combining mark
                yield {"lang": lang, "text": t, "kind": "something attached"}
        for i, w in enumerate(words.alikes(lang)):
            if i % 3 == 0 or tier == "thorough":
                yield {"lang": lang, "text": w, "kind": "look-alike letters"}
        near = words.misses(lang)
        for i, w in enumerate(near):
            if tier == "thorough" or i % 60 == 0:
                yield {"lang": lang, "text": w, "kind": "near miss"}
    for t in ("-five", "--five", "- five", " -five", "-twenty-five"):
        yield {"lang": "en", "text": t, "kind": "connector in front"}


@st.composite
def foreign(draw):
    lang = draw(gen.LANG)
    n, text = draw(gen.numeral(lang))
    toks = text.split(" ")
    kind = draw(st.sampled_from(["word", "word", "near", "symbol", "stop", "digits", "replace"]))
    i = draw(st.integers(0, len(toks)))
    if kind == "word":
        toks.insert(i, draw(gen.filler(lang)))
    elif kind == "near":
        toks.insert(i, draw(st.sampled_from(words.NEAR[lang])))
    elif kind == "symbol":
        s = draw(st.sampled_from(words.SYMBOLS + ["_", "+"]))
        if draw(st.booleans()) and toks:
            j = min(i, len(toks) - 1)
            toks[j] = toks[j] + s if draw(st.booleans()) else s + toks[j]
        else:
            toks.insert(i, s)
    elif kind == "stop":
        s = draw(st.sampled_from([".", ",", "..", ", ,"]))
        j = min(i, len(toks) - 1)
        toks[j] = toks[j] + s if draw(st.booleans()) else s + toks[j]
    elif kind == "digits":
        toks.insert(i, draw(st.sampled_from(["1", "20", "000", "7", "٣", "1.5", "२"])))
    else:
        toks[min(i, len(toks) - 1)] = draw(st.sampled_from(words.NEAR[lang]))
    return {"lang": lang, "text": " ".join(toks), "kind": f"{lang}:{kind}"}


@st.composite
def nothing(draw):
    lang = draw(gen.LANG)
    con = LEX[lang].connectors
    pieces = draw(st.lists(st.one_of(
        gen.filler(lang), st.sampled_from(words.SYMBOLS + [".", ",", "'", "’", "\xad"]),
        st.sampled_from(con or ["!"]), st.sampled_from(gen.WS)), max_size=6))
    sep = draw(st.sampled_from([" ", " ", "  ", "\n"]))
    return {"lang": lang, "text": sep.join(pieces), "kind": f"{lang}:no number word"}


@st.composite
def several(draw):
    lang = draw(gen.LANG)
    _, last = draw(gen.numeral(lang, limit=10 ** 7))
    parts = [last]
    for _ in range(draw(st.integers(1, 3))):
        _, new = draw(gen.numeral(lang, limit=10 ** 7))
        end = gen.word_classes(lang, last)[-1][0]
        apart = gen.separate(end, gen.word_classes(lang, new)[0][0])
        parts.append(new if apart else draw(st.sampled_from([". ", ", ", "; "])) + new)
        last = new
    glue = " " if not LEX[lang].connectors else draw(
        st.sampled_from([" ", " ", f" {LEX[lang].connectors[-1]} "]))
    return {"lang": lang, "text": glue.join(parts), "kind": f"{lang}:several"}


@st.composite
def leading(draw):
    lang = draw(st.sampled_from(["en", "es"]))
    n, text = draw(gen.numeral(lang))
    con = draw(st.sampled_from(LEX[lang].connectors))
    pre = draw(st.lists(st.sampled_from(gen.WS), max_size=2).map("".join))
    gap = draw(st.sampled_from([" ", "  ", "\t"] + ([""] if con == "-" else [])))
    con = gen.case_variant(draw, con)
    return {"lang": lang, "text": pre + con + gap + text, "kind": f"{lang}:connector in front"}


@st.composite
def digits(draw):
    lang = draw(st.sampled_from([None] + LANGS))
    ds = draw(gen.digits_text())
    bad = draw(st.sampled_from(list("+-.,_/%$eExX ²½a") + ["th", "e5", "\u200b", " 1", "०".join(".."), "−"]))
    i = draw(st.integers(0, len(ds)))
    text = ds[:i] + bad + ds[i:]
    if text.strip().isdecimal():
        text = "x" + text
    return {"lang": lang, "text": text, "kind": "digits with something"}


TESTS = [
    Enum("enumerated", enumerated, oracle),
    Prop("foreign_piece", foreign, oracle, 8000),
    Prop("no_number_word", nothing, oracle, 4000),
    Prop("several_numbers", several, oracle, 4000),
    Prop("connector_in_front", leading, oracle, 2000),
    Prop("digits_with_something", digits, oracle, 3000),
]
_ = unicodedata
