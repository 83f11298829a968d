"""C03: letter case, accents, Unicode form, spacing and soft hyphens do not change a number."""
import random
import unicodedata

from hypothesis import strategies as st

from .. import gen, soup, spell
from ..lexicon import LANGS, LEX
from ..runner import Enum, Prop
from ..target import call, expect, expect_number, expect_parse

RULE = ("Enumerated: every vocabulary form in upper, title and alternating case, in NFC/NFD/NFKC/NFKD, with a soft hyphen at "
        "every position, with accents removed and added, surrounded by every kind of white space. Generated: correct "
        "spellings (cardinal, and English ordinal) with a random combination of these rewritings; arbitrary text and its rewritings, for which all four functions must agree. Non-trivial: the text "
        "differs from the plain spelling.")
ASSUMPTIONS = ["rewriting leaves the spelled number the same for a reader"]


def oracle(case):
    lang, n, text = case["lang"], case["n"], case["text"]
    if case.get("ordinal"):
        expect_number(text, lang, n, fn="parse_ordinal")
        expect_parse(text, lang, str(n))
    else:
        expect_number(text, lang, n)
        expect_number(text, lang, n, fn="parse_ordinal")
        expect_parse(text, lang, str(n))
        expect_number(text, None, n)
    return case["kind"] if text != case["plain"] else "-unchanged"


def strip_marks(s, lang):
    # Accents proper; a Devanagari vowel sign, й or ї is a letter of its own.
    marks = {"hi": "\u093c", "es": "\u0301\u0303\u0308", "ru": "\u0301\u0308"}.get(lang, "\u0301")
    keep = "".join(c for c in unicodedata.normalize("NFD", s) if c not in marks)
    return unicodedata.normalize("NFC", keep)


def words(tier):
    for lang in LANGS:
        for w, (cls, v) in LEX[lang].words.items():
            def case(kind, text, lang=lang, w=w, v=v):
                return {"lang": lang, "n": v, "plain": w, "text": text, "kind": f"{lang}:{kind}"}
            for t in (w.upper(), w.title(), w.capitalize(), w.swapcase(),
                      "".join(c.upper() if i % 2 else c for i, c in enumerate(w)),
                      w[:-1] + w[-1].upper()):
                yield case("case", t)
            for f, t in gen.norm_forms(w).items():
                yield case(f, t)
                yield case(f + " upper", gen.norm_forms(w.upper())[f])
            for i in range(1, len(w)):
                yield case("soft hyphen", w[:i] + "\xad" + w[i:])
            if lang != "hi":
                yield case("no accents", strip_marks(w, lang))
                yield case("no accents", strip_marks(w, lang).upper())
                yield case("dotted I", w.upper().replace("I", "\u0130"))
                for i, c in enumerate(w):
                    if c in "aeiouаеиоуыэюяєі":
                        yield case("stress mark", w[:i + 1] + "\u0301" + w[i + 1:])
                        yield case("stress mark", unicodedata.normalize(
                            "NFC", w[:i + 1] + "\u0301" + w[i + 1:]))
            else:
                yield case("no accents", strip_marks(w, lang))
            for s in gen.WS:
                yield case("white space", s + w + s)
            if "ʼ" in w:
                for a in "'’ʼ":
                    t = w.replace("ʼ", a)
                    for i in range(1, len(t) + 1):
                        if t[i - 1] not in "'’ʼ":
                            u = t[:i] + "\u0301" + t[i:]
                            yield case("apostrophe+stress", u)
                            yield case("apostrophe+stress", unicodedata.normalize("NFC", u.upper()))
                        yield case("apostrophe+soft hyphen", t[:i] + "\xad" + t[i:])
    for w, c in (("трёх", 3), ("трём", 3), ("четырёх", 4), ("четырём", 4), ("тремя́", 3), ("трёхсот", 300),
                 ("четырёхсот", 400), ("четырёмстам", 400), ("нулём", 0)):
        yield {"lang": "ru", "n": c, "plain": "", "text": w, "kind": "ru:yo"}


def rewrite(draw, lang, text):
    kinds = []
    if draw(st.booleans()):
        text = gen.case_variant(draw, text)
        kinds.append("case")
    if draw(st.booleans()):
        s = draw(st.lists(st.sampled_from(gen.WS), min_size=1, max_size=3).map("".join))
        s *= draw(st.sampled_from([1, 1, 1, 1, 7, 100] + gen.SMALL_SIZES[:20]))
        text = text.replace(" ", s) if draw(st.booleans()) else text.replace(" ", s, 2)
        kinds.append("space")
    if draw(st.integers(0, 3)) == 0:
        k = draw(st.sampled_from([1, 1, 1, 2, 50] + gen.SMALL_SIZES[:10]))
        text = draw(st.sampled_from(gen.WS)) * k + text + draw(st.sampled_from(gen.WS)) * k
        kinds.append("space")
    mark = draw(st.sampled_from(["", "", "drop", "add"]))
    if mark == "drop":
        text = strip_marks(text, lang)
        kinds.append("accent")
    elif mark == "add" and lang != "hi":
        spots = [i for i, c in enumerate(text) if c.isalpha() and c != "ʼ"]
        for i in sorted(draw(st.sets(st.sampled_from(spots), max_size=4)), reverse=True):
            text = text[:i + 1] + draw(st.sampled_from(gen.SHIFT_ACCENT)) + text[i + 1:]
        kinds.append("accent")
    if draw(st.booleans()):
        text = unicodedata.normalize(draw(st.sampled_from(["NFC", "NFD", "NFKC", "NFKD"])), text)
        kinds.append("form")
    if lang == "uk" and "ʼ" in text and draw(st.booleans()):
        text = text.replace("ʼ", draw(st.sampled_from("'’")))
        kinds.append("apostrophe")
    for _ in range(draw(st.sampled_from([0, 0, 1, 1, 3, 25] + gen.SMALL_SIZES[:1]))):
        i = draw(st.integers(0, len(text)))
        text = text[:i] + "\xad" + text[i:]
        kinds.append("shy")
    return text, "+".join(sorted(set(kinds)))


@st.composite
def cases(draw):
    lang = draw(gen.LANG)
    n, plain = draw(gen.numeral(lang))
    text, kind = rewrite(draw, lang, plain)
    return {"lang": lang, "n": n, "plain": plain, "text": text, "kind": f"{lang}:{kind}"}


@st.composite
def ordinals(draw):
    n, plain = draw(gen.ordinal())
    text, kind = rewrite(draw, "en", plain)
    return {"lang": "en", "n": n, "plain": plain, "text": text, "kind": f"ordinal:{kind}",
            "ordinal": True}


# --- the same rewritings of arbitrary text, where the law is that nothing else changes ---
FNS = ["parse_number", "parse_ordinal", "parse_fraction"]


def tame(c):
    """A character that has one lower and one upper case, and decomposes to a letter and accents."""
    d = unicodedata.normalize("NFD", c)
    return (len(c.upper()) == 1 and c.upper().lower() == c.lower() and c not in "Σσς" and
            all("\u0300" <= x <= "\u036f" or x == "\u093c" for x in d[1:]) and
            (not unicodedata.combining(c) or "\u0300" <= c <= "\u036f" or "\u0900" <= c <= "\u0957"))


def variants(case):
    """(name, rewritten text, what becomes of the output of parse, applicable to fractions)"""
    t, r = case["text"], random.Random(case["seed"])
    worded = any(w in t.lower() for w in ("over", "by", "divided"))
    yield "upper", t.upper(), str.upper, True
    yield "lower", t.lower(), str.lower, True
    bits = [r.random() < 0.5 for _ in t]
    yield "mixed", "".join(c.upper() if b else c.lower() for c, b in zip(t, bits)), str.lower, True
    for f in ("NFC", "NFD"):
        yield f, unicodedata.normalize(f, t), lambda s: unicodedata.normalize("NFD", s), True
    yield "space", "".join(r.choice(gen.WS) * r.choice([1, 1, 1, 2, 5]) if c == " " and r.random() < 0.7 else c
                           for c in t), str.split, not worded
    yield "shy", "".join(c + "\xad" if c.isalpha() and n.isalpha() and r.random() < 0.3 else c
                         for c, n in zip(t, t[1:] + " ")), None, not worded


def same_result(case):
    lang, t = case["lang"], case["text"]
    base = call("parse", t, lang)
    for name, u, view, fractions in variants(case):
        for fn in FNS[:3 if fractions else 2]:
            a, b = call(fn, t, lang), call(fn, u, lang)
            expect(a == b, lambda: f"{fn}({t!r}, {lang!r}) == {a!r}, but of {u!r} ({name}) {b!r}")
        out = call("parse", u, lang)
        a, b = (view(base), view(out)) if view else (base, out)
        expect(a == b, lambda: f"parse({t!r}, {lang!r}) == {base!r}, but of {u!r} ({name}) it is {out!r}")
    return "rewritten: changed by parse" if base != t.strip() else "-rewritten: no number"


@st.composite
def any_text(draw):
    lang = draw(gen.LANG)
    t = draw(st.one_of(soup.soup(lang, max_size=10, shy=False), soup.soup(lang, max_size=10, odd=False, shy=False),
                       soup.number_words(lang, max_size=7)))
    t = "".join(c for c in t if tame(c))
    return {"lang": draw(st.sampled_from([lang, lang, lang, None])), "text": t, "seed": draw(st.integers(0, 10 ** 6))}


TESTS = [Prop("any_text", any_text, same_result, 5000), Enum("words", words, oracle), Prop("numerals", cases, oracle, 6000),
         Prop("ordinals", ordinals, oracle, 2000)]
_ = spell
