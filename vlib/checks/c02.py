"""C02: every form of a number word counts the same."""
from hypothesis import strategies as st

from .. import gen, spell
from ..lexicon import LANGS, LEX
from ..runner import Enum, Prop
from ..target import expect_number, expect_parse

RULE = ("Enumerated: every written form in the reviewed vocabulary of every language, alone and in every grammatical slot "
        "(after tens, hundreds and each larger scale word, before each scale word it can multiply). Generated: a correct "
        "spelling of a random integer with each word replaced by a random form of the same word. Non-trivial: a form "
        "that is not the canonical one, or a slot beyond the bare word.")
ASSUMPTIONS = ["lexicon/*.json holds the right value of every form"]


def oracle(case):
    lang, n, text = case["lang"], case["n"], case["text"]
    expect_number(text, lang, n)
    expect_parse(text, lang, str(n))
    expect_number(text, lang, n, fn="parse_ordinal")
    return f"{lang}:{case['slot']}" if case["slot"] != "alone" else f"-{lang}:alone"


def one(lang, cls, value):
    return LEX[lang].forms[(cls, value)][0]


def slots(tier):
    for lang in LANGS:
        lx = LEX[lang]
        two = spell.spell(lang, 2)
        for w, (cls, v) in lx.words.items():
            def case(slot, n, *parts):
                return {"lang": lang, "slot": slot, "n": n, "text": " ".join(parts)}
            yield case("alone", v, w)
            scales = lx.scales
            if cls == "scale":
                yield case("multiplied", 2 * v, two, w)
                yield case("multiplied", 2 * v + 5, two, w, spell.spell(lang, 5))
                if v >= 1000:
                    yield case("multiplied", 999 * v, spell.spell(lang, 999), w) if 999 < v else \
                        case("multiplied", 9 * v, spell.spell(lang, 9), w)
                for big in scales:
                    if big > 2 * v and big >= 1000:
                        b = one(lang, "scale", big)
                        yield case("after larger scale", big + 2 * v, b, two, w)
                        yield case("after larger scale", 2 * big + 2 * v, two, b, two, w)
                        if v >= 1000:
                            yield case("after larger scale", 3 * big + v, spell.spell(lang, 3), b, w)
                    if 1000 <= big < v and lang != "es":
                        yield case("before larger scale", 2 * big * v, two, one(lang, "scale", big), w)
                continue
            for big in scales:
                b = one(lang, "scale", big)
                if v < big:
                    yield case("after scale", big + v, b, w)
                    yield case("after scale", 2 * big + v, two, b, w)
                if 0 < v < big and big >= 1000:
                    yield case("before scale", v * big, w, b)
            if cls == "unit":
                for (c, t), forms in lx.forms.items():
                    if c == "tens":
                        yield case("after tens", t + v, forms[0], w)
                    if c == "hundreds":
                        yield case("after hundreds", t + v, forms[0], w)
                if 100 in scales and v:
                    yield case("before scale", v * 100, w, one(lang, "scale", 100))
            elif cls == "tens":
                for u in range(1, 10):
                    yield case("before unit", v + u, w, one(lang, "unit", u))
                for (c, t), forms in lx.forms.items():
                    if c == "hundreds":
                        yield case("after hundreds", t + v, forms[-1], w)
            elif cls == "direct":
                for (c, t), forms in lx.forms.items():
                    if c == "hundreds":
                        yield case("after hundreds", t + v, forms[-1], w)
            elif cls == "hundreds":
                for r in (1, 12, 30, 45):
                    yield case("hundreds first", v + r, w, spell.spell(lang, r))


APOS = ["'", "’", "ʼ"]


@st.composite
def cases(draw):
    lang = draw(gen.LANG)
    n, text = draw(gen.numeral(lang))
    out = []
    changed = False
    for chunk in text.split(" "):
        parts = []
        for w in chunk.split("-"):
            cv = LEX[lang].lookup(w)
            if cv is not None:
                new = draw(st.sampled_from(LEX[lang].forms[cv]))
                if lang == "uk":
                    for a in APOS:
                        if a in new:
                            new = new.replace(a, draw(st.sampled_from(APOS + [""])))
                            break
                changed |= new != w
                w = new
            parts.append(w)
        out.append("-".join(parts))
    return {"lang": lang, "n": n, "text": gen.dress(draw, " ".join(out)), "slot": "substituted" if changed else "alone"}


TESTS = [Enum("slots", slots, oracle), Prop("substituted", cases, oracle, 6000)]
