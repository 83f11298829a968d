"""C13: fractions."""
from hypothesis import strategies as st

from .. import gen, soup, spell, words
from ..lexicon import LANGS, LEX
from ..runner import Enum, Prop
from ..target import call, expect, expect_undetected, show
from .c03 import rewrite

RULE = ("Two numerals (or digit strings) around one fraction separator, in any letter case and spacing (and with accents, soft hyphens and Unicode forms rewritten as in C03), with '/' in every "
        "language and the words in English; texts with no separator, an empty or non-numeric side, or several separators, "
        "which must give None; and, for random sides, agreement with parse_number on each side. Non-trivial: a side has two or "
        "more words, or the expected answer is None.")
WORDS = ["divided by", "over", "by", "/"]


def fraction(text, lang, want):
    got = call("parse_fraction", text, lang)
    expect(got == want and type(got) is type(want), lambda:
           f"parse_fraction({text!r}, {lang!r}) == {show(got)}, expected {want!r}")
    expect_undetected("parse_fraction", text, lang, got)


def oracle(case):
    fraction(case["text"], case["lang"], case["want"])
    if case.get("auto"):
        fraction(case["text"], None, case["want"])
    return case["kind"] if case["want"] is None or len(case["text"].split()) > 3 else "-short"


def sides(case):
    lang, a, b, sep = case["lang"], case["a"], case["b"], case["sep"]
    x, y = call("parse_number", a, lang), call("parse_number", b, lang)
    fraction(a + sep + b, lang, None if x is None or y is None else f"{x}/{y}")
    return f"{lang}:sides" if x is not None and y is not None else f"{lang}:sides none"


def separator(draw, lang):
    s = draw(st.sampled_from(WORDS if lang == "en" else ["/"]))
    if s == "/":
        return draw(st.sampled_from(["/", " / ", " /", "/ ", "  /\n"])), s
    s2 = draw(st.sampled_from([s, s, s.upper(), s.title(), s.swapcase(), s.capitalize()]))
    ws = draw(st.sampled_from([" ", " ", "  ", "\t"]))
    return ws + s2 + draw(st.sampled_from([" ", " ", "\n"])), s


@st.composite
def fractions(draw):
    lang = draw(st.sampled_from(["en", "en", "en"] + LANGS))
    n, a = draw(gen.numeral(lang))
    d, b = draw(gen.numeral(lang, lo=1))
    if draw(st.integers(0, 5)) == 0:
        n = draw(st.integers(0, 10 ** 9))
        a = str(n).zfill(draw(st.integers(1, 4)))
    if draw(st.integers(0, 5)) == 0:
        d = draw(st.integers(1, 10 ** 9))
        b = str(d)
    sep, s = separator(draw, lang)
    if draw(st.integers(0, 3)) == 0:
        f = draw(st.sampled_from([2, 3, 6]))      # never reduced
        n, d = n % 10 ** 6 * f, max(1, d % 10 ** 6) * f
        a, b = spell.spell(lang, n), spell.spell(lang, d)
    if draw(st.integers(0, 3)):
        a, b = gen.case_variant(draw, a), gen.case_variant(draw, b)
    else:
        a, b = (s if s.isdecimal() else rewrite(draw, lang, s)[0] for s in (a, b))
    pad = draw(st.sampled_from(["", "", " ", "\n"]))
    return {"lang": lang, "text": pad + a + sep + b + pad, "want": f"{n}/{d}", "kind": f"{lang}:{s}",
            "auto": lang == "en" and any(c.isalpha() for c in a + b)}


@st.composite
def not_fractions(draw):
    lang = draw(st.sampled_from(["en", "en", "en"] + LANGS))
    n, a = draw(gen.numeral(lang))
    d, b = draw(gen.numeral(lang, lo=1))
    kind = draw(st.sampled_from(["none", "no left", "no right", "two", "word left", "word right", "point"]))
    sep, _ = separator(draw, lang)
    if kind == "none":
        text = a if draw(st.booleans()) else a + draw(st.sampled_from([" ", " ; ", " : ", " of ", ", ", " \\ "])) + b
    elif kind == "no left":
        text = draw(st.sampled_from(["", " "])) + sep + b
    elif kind == "no right":
        text = a + sep + draw(st.sampled_from(["", " "]))
    elif kind == "two":
        sep2, _ = separator(draw, lang)
        c = draw(gen.numeral(lang, lo=1))[1]
        text = a + sep + b + sep2 + c
        if draw(st.integers(0, 4)) == 0:
            text = a + sep + sep2 + b
    elif kind == "word left":
        text = draw(gen.filler(lang)) + " " + a + sep + b
    elif kind == "word right":
        text = a + sep + b + " " + draw(gen.filler(lang))
    else:
        text = a + sep + b + draw(st.sampled_from([".", ",", "!", ";"]))
    return {"lang": lang, "text": text, "want": None, "kind": f"{lang}:{kind}"}


def enumerated(tier):
    for lang in LANGS:
        seps = [" / ", "/"] + ([" over ", " by ", " divided by ", " OVER ", " By ", " Divided By "]
                               if lang == "en" else [])
        forms = list(LEX[lang].words.items())
        for i, (w, (c, v)) in enumerate(forms):
            w2, (c2, v2) = forms[(i * 7 + 3) % len(forms)]
            sep = seps[i % len(seps)]
            if v2:
                yield {"lang": lang, "text": w + sep + w2, "want": f"{v}/{v2}", "kind": lang + ":words"}
                # a capital whose lower case has two characters
                t = w.upper().replace("I", "\u0130")
                if t != w.upper():
                    for sep2 in seps:
                        yield {"lang": lang, "text": t + sep2 + w2, "want": f"{v}/{v2}", "kind": lang + ":dotted I"}
            yield {"lang": lang, "text": f"{w} {sep}", "want": None, "kind": lang + ":no right"}
            yield {"lang": lang, "text": f"{sep} {w}", "want": None, "kind": lang + ":no left"}
    for n in range(0, 40):
        for d in range(1, 40):
            yield {"lang": "en", "text": f"{spell.spell('en', n)} {WORDS[(n + d) % 4]} {spell.spell('en', d)}",
                   "want": f"{n}/{d}", "kind": "en:small", "auto": True}
            yield {"lang": [None, "en", "hi"][d % 3], "text": f"{n}/{d}", "want": f"{n}/{d}", "kind": "digits"}
    for t in ("", " ", "/", "over", "by", "divided by", "divided", "over by", "/ /", "//", "three", "12", "one two",
              "three quarters", "half", "one and a half", "1/2/3", "one/two/three", "1.5/2", "-1/2", "1/-2", "a/b",
              "one over", "by two", "and / two", "- / two"):
        for lang in [None, "en"]:
            yield {"lang": lang, "text": t, "want": None, "kind": "not a fraction"}


@st.composite
def random_sides(draw):
    lang = draw(gen.LANG)
    side = st.one_of(soup.number_words(lang, max_size=4), soup.soup(lang, max_size=4), gen.digits_text())
    a, b = draw(side), draw(side)
    bad = ("/", "over", "by")
    low = (a + " " + b).lower()
    if any(x in low for x in bad) or "ſ" in low or "\xad" in low:
        a, b = spell.spell(lang, draw(st.integers(0, 99))), spell.spell(lang, draw(st.integers(1, 99)))
    sep = draw(st.sampled_from([" / ", "/"] + ([" over ", " by ", " divided by "] if lang == "en" else [])))
    return {"lang": lang, "a": a, "b": b, "sep": sep}


TESTS = [Enum("enumerated", enumerated, oracle, shards=4), Prop("fractions", fractions, oracle, 5000),
         Prop("not_fractions", not_fractions, oracle, 5000), Prop("random_sides", random_sides, sides, 4000)]
_ = words
