"""C10: scale words multiply everything before them and add to what follows."""
from hypothesis import strategies as st

from .. import gen, spell
from ..lexicon import LANGS, LEX
from ..runner import Enum, Prop
from ..target import call, expect, expect_number, expect_parse, expect_undetected, show

RULE = ("A spelled n, a scale word M > n and a spelled rest m < M must read as n*M + m, also with several scale words stacked "
        "in rising order, and for scale words (crore after thousand, googol-sized Spanish powers) that ordinary spellings "
        "never combine. A further scale word that is at least as large as the last one but not larger than the number so far "
        "must start a new number. Non-trivial: every case (n >= 1, a scale word, and a rest or a second scale word).")
BIG = {lang: [v for v in LEX[lang].scales if v >= 1000] for lang in LANGS}


def oracle(case):
    expect_number(case["text"], case["lang"], case["n"])
    expect_parse(case["text"], case["lang"], str(case["n"]))
    return case["kind"]


def split(case):
    expect_parse(case["text"], case["lang"], case["want"])
    expect_number(case["text"], case["lang"], None)
    return case["kind"]


def relation(case):
    """parse_number(s + M) == parse_number(s) * M for any s read as a number smaller than M."""
    lang, s, m, value = case["lang"], case["s"], case["word"], case["value"]
    n = call("parse_number", s, lang)
    if n is None or not 0 < n < value:
        return "-not applicable"
    got = call("parse_number", s + " " + m, lang)
    expect(got == n * value, lambda: f"parse_number({s + ' ' + m!r}, {lang!r}) == {show(got)}, but "
                                     f"parse_number({s!r}) == {n} and {m!r} is {value}")
    expect_undetected("parse_number", s + " " + m, lang, got)
    return lang + ":relation"


def word(draw, lang, v):
    return draw(st.sampled_from(LEX[lang].forms[("scale", v)]))


@st.composite
def single(draw):
    lang = draw(gen.LANG)
    v = draw(st.sampled_from(BIG[lang]))
    lim = min(v, spell.LIMIT[lang])
    n, s = draw(gen.numeral(lang, lim, lo=1))
    text = f"{s} {word(draw, lang, v)}"
    m = 0
    if draw(st.integers(0, 3)):
        m, r = draw(gen.numeral(lang, lim))
        if m:
            text += " " + r
        m = m if m else 0
    return {"lang": lang, "text": gen.dress(draw, text), "n": n * v + m, "kind": f"{lang}:{'n M m' if m else 'n M'}"}


@st.composite
def stacked(draw):
    lang = draw(st.sampled_from(["en", "es", "hi", "ru", "uk"]))
    n, text = draw(gen.numeral(lang, 1000, lo=1))
    k = 0
    for _ in range(draw(st.integers(2, 3))):
        # es: a thousand is part of its group, so only larger words follow rising order there
        ups = [v for v in BIG[lang] if v > n]
        if not ups or k and len(str(n)) > 200:
            break
        v = draw(st.sampled_from(ups))
        text += " " + word(draw, lang, v)
        n *= v
        k += 1
        if draw(st.booleans()):
            m, r = draw(gen.numeral(lang, min(v, spell.LIMIT[lang]), lo=1))
            text += " " + r
            n += m
    return {"lang": lang, "text": gen.dress(draw, text), "n": n, "kind": f"{lang}:stacked {k}"}


@st.composite
def smaller(draw):
    """n M, then a numeral with a scale word at least as large, but not above the total."""
    lang = draw(gen.LANG)
    v = draw(st.sampled_from([x for x in BIG[lang] if x > LEX[lang].max_group]))
    n, s = draw(gen.numeral(lang, min(v, spell.LIMIT[lang]), lo=1))
    text = f"{s} {word(draw, lang, v)}"
    total = n * v
    if draw(st.booleans()):
        m, r = draw(gen.numeral(lang, min(v, spell.LIMIT[lang]), lo=1))
        text += " " + r
        total += m
    again = [x for x in BIG[lang] if v <= x <= total]
    w = draw(st.sampled_from(again))
    text2 = " " + word(draw, lang, w)
    k, r2 = draw(gen.numeral(lang, min(w, 1000)))
    second = w
    if k and draw(st.booleans()):
        text2 += " " + r2
        second += k
    return {"lang": lang, "text": gen.dress(draw, text + text2), "want": f"{total} {second}", "kind": lang + ":new number"}


@st.composite
def any_prefix(draw):
    from .. import soup
    lang = draw(gen.LANG)
    s = draw(soup.number_words(lang, max_size=5))
    v = draw(st.sampled_from(BIG[lang]))
    return {"lang": lang, "s": s, "word": word(draw, lang, v), "value": v}


def grid(tier):
    for lang in LANGS:
        for v in BIG[lang]:
            for n in [1, 2, 5, 10, 11, 19, 20, 21, 99, 100, 101, 110, 200, 345, 999, 1000, 1001, 2000, 2300, 10000,
                      21000, 100000, 123456, 999999, 10 ** 6, 2 * 10 ** 6 + 1, 10 ** 9, 10 ** 12]:
                if n >= v or n >= spell.LIMIT[lang]:
                    continue
                w = LEX[lang].forms[("scale", v)][-1]
                yield {"lang": lang, "n": n * v, "text": f"{spell.spell(lang, n)} {w}", "kind": lang + ":n M"}
                for m in (1, 7, 12, 20, 100, 105, 999, 1000, 1100, 2000, 45678):
                    if m < v:
                        yield {"lang": lang, "n": n * v + m, "kind": lang + ":n M m",
                               "text": f"{spell.spell(lang, n)} {w} {spell.spell(lang, m)}"}


TESTS = [Enum("grid", grid, oracle), Prop("single", single, oracle, 5000),
         Prop("stacked", stacked, oracle, 4000), Prop("new_number", smaller, split, 4000),
         Prop("relation", any_prefix, relation, 3000)]
