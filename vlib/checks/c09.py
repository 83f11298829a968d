"""C09: neighbouring numbers that cannot form one number stay separate."""
from hypothesis import strategies as st

from .. import gen, spell
from ..lexicon import LANGS, LEX
from ..runner import Enum, Prop
from ..target import expect, expect_number, expect_parse
from .c07 import PIECE
from .. import target

RULE = ("Sequences of 2 to 40 spelled numbers in which no number can continue the one before it (unit after unit, tens after "
        "unit, hundreds after tens, ...), joined by spaces, line breaks, hyphens or connectors. Every generated sequence is "
        "non-trivial. Enumerated: all pairs of number words of every language that can never be part of one number.")


def exact(case):
    expect_parse(case["text"], case["lang"], case["want"])
    if case.get("several", True):
        expect_number(case["text"], case["lang"], None)
    return case["kind"]


def pieces(case):
    got = target.parse(case["text"], case["lang"])
    expect(PIECE.findall(got) == PIECE.findall(case["want"]), lambda:
           f"parse({case['text']!r}, {case['lang']!r}) == {got!r}, expected the pieces of {case['want']!r}")
    expect_number(case["text"], case["lang"], None)
    return case["kind"]


@st.composite
def sequences(draw, hyphens=False):
    lang = draw(gen.LANG)
    con = LEX[lang].connectors
    size = draw(st.sampled_from([2] * 7 + [3] * 5 + [4, 4, 5, 8, 25]))
    limit = draw(st.sampled_from([10, 100, 1000, 10 ** 6, None])) if size < 20 else 1000
    text = want = ""
    end = None
    shape = draw(st.booleans())
    for i in range(size):
        n, s = draw(gen.numeral(lang, limit))
        if end is not None:
            first = gen.word_classes(lang, s)[0][0]
            if not gen.separate(end, first):
                # after a round number nothing is sure to be separate but hundreds; put a word in between
                if gen.separate(end, "tens"):
                    n = draw(st.sampled_from([30, 40, 90])) if lang != "hi" else n
                    s = spell.spell(lang, n)
                    first = gen.word_classes(lang, s)[0][0]
                if not gen.separate(end, first):
                    text += " zq"
                    want += " zq"
            glue = [" ", " ", " ", "  ", "\n"]
            if con:
                w = [c for c in con if c != "-"]
                glue += [f" {c} " for c in w] + [f" {c.upper()} " for c in w]
            g = draw(st.sampled_from(glue))
            if con and g.strip() and draw(st.booleans()):
                g = " " + " ".join(gen.connector_run(draw, lang, 3)) + " "
            if hyphens:
                g = draw(st.sampled_from(["-", " - ", " -"])) if lang == "en" else g
            text += g
            want += g if g.strip() and not text.endswith(" zq") else " " if not text[:-len(g)].endswith("zq") else g
        text += gen.case_variant(draw, s) if shape else s
        want += str(n)
        end = gen.word_classes(lang, s)[-1][0]
    if shape:
        text = draw(st.sampled_from(["", "", " ", "\n", "\t "])) + text + draw(st.sampled_from(["", "", " ", "\n", "\u3000"]))
    return {"lang": lang, "text": text, "want": want, "kind": f"{lang}:{size if size < 6 else 'long'}"}


def hyphened():
    return sequences(hyphens=True)


def pairs(tier):
    for lang in LANGS:
        for ws in gen.WS:
            for a, b in ((2, 3), (7, 12), (30, 40), (5, 60)):
                if lang != "hi" or a < 30:
                    yield {"lang": lang, "text": spell.spell(lang, a) + ws + spell.spell(lang, b), "want": f"{a} {b}",
                           "kind": lang + ":white space"}
        lx = LEX[lang]
        reps = {}
        for w, cv in lx.words.items():
            reps.setdefault(cv, []).append(w)
        for (c1, v1), w1 in reps.items():
            for (c2, v2), w2 in reps.items():
                if not gen.separate(c1, c2):
                    continue
                a, b = w1[v2 % len(w1)], w2[v1 % len(w2)]
                if lang == "hi" and tier == "quick" and (v1 * 7 + v2) % 4:
                    continue
                yield {"lang": lang, "text": f"{a} {b}", "want": f"{v1} {v2}", "kind": lang + ":pair"}
                if (v1 + v2) % 5 == 0:
                    for c in lx.connectors:
                        yield {"lang": lang, "text": f"{a} {c} {b}", "want": f"{v1} {c} {v2}",
                               "kind": lang + ":pair with connector"}
                    yield {"lang": lang, "text": f"{a} {b} {a} {b}" if gen.separate(c2, c1) else f"{a} {b}",
                           "want": f"{v1} {v2} {v1} {v2}" if gen.separate(c2, c1) else f"{v1} {v2}",
                           "kind": lang + ":pair"}


def contexts(tier):
    """The same pairs at the end of a larger number, and with the second word multiplied."""
    for lang in LANGS:
        lx = LEX[lang]
        reps = {}
        for w, cv in lx.words.items():
            reps.setdefault(cv, []).append(w)
        heads = {p: spell.spell(lang, p) for p in (1000, 2000, 13000, 3000000, 40000000) if p < spell.LIMIT[lang]}
        over = {p: spell.spell(lang, p) for p in (100, 300, 1200, 2000900) if p < spell.LIMIT[lang]}
        thousand = [w for w, cv in sorted(lx.words.items()) if cv == ("scale", 1000)][0]
        k = 0
        for (c1, v1), w1 in reps.items():
            fit = dict(heads) if c1 == "hundreds" else {**heads, **over}
            if c1 == "scale" or not v1:
                continue
            fit = sorted(fit.items())
            for (c2, v2), w2 in reps.items():
                if not gen.separate(c1, c2):
                    continue
                k += 1
                a, b = w1[v2 % len(w1)], w2[v1 % len(w2)]
                some = fit if lang != "hi" else [fit[k % len(fit)], fit[k // 2 % len(fit)]]
                for p, head in some if tier == "thorough" or k % 3 == 0 else [some[k % len(some)]]:
                    if lang == "hi" and gen.word_classes(lang, head)[-1][0] in ("unit", "direct"):
                        continue
                    yield {"lang": lang, "text": f"{head} {a} {b}", "want": f"{p + v1} {v2}", "kind": lang + ":in context"}
                    if v2 and k % 2:
                        yield {"lang": lang, "text": f"{head} {a} {b} {thousand}", "want": f"{p + v1} {v2 * 1000}",
                               "kind": lang + ":in context"}


TESTS = [Enum("pairs", pairs, exact), Enum("contexts", contexts, exact), Prop("sequences", sequences, exact, 6000),
         Prop("hyphens", hyphened, pieces, 2000)]
