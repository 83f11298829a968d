"""C08: a full stop or comma ends a number."""
import re

from hypothesis import strategies as st

from .. import gen, prose, spell, soup, words
from ..lexicon import LANGS, LEX
from ..runner import Enum, Prop
from ..target import call, expect, expect_parse, expect_undetected, show
from .c07 import PIECE

RULE = ("Concatenation: parse(a + separator + b) against parse(a), the separator and parse(b), for random texts a, b and "
        "chains of up to six parts; exactly where a ends in a word, and as sequences of words and symbols otherwise. "
        "Enumerated: every pair of number words around each separator. Non-trivial: a and b both hold a number word.")
SEP = re.compile(r"[.,]")


def has_number(lang, s):
    return any(LEX[lang].lookup(t) is not None for t in PIECE.findall(s))


def law(case):
    lang, parts, seps = case["lang"], case["parts"], case["seps"]
    text = parts[0] + "".join(s + p for s, p in zip(seps, parts[1:]))
    before, after = case.get("around", ("", ""))
    text = before + text + after
    outs = [call("parse", p, lang) for p in parts]
    got = call("parse", text, lang)
    want = outs[0] + "".join(s + o for s, o in zip(seps, outs[1:]))
    if case["exact"]:
        expect(got == want, lambda: f"parse({text!r}, {lang!r}) == {show(got, 2000)}, but the parts give {want!r}")
    else:
        expect(PIECE.findall(got) == PIECE.findall(want), lambda:
               f"parse({text!r}, {lang!r}) == {show(got, 2000)}, but the parts give {want!r}")
    expect_undetected("parse", text, lang, got)
    k = sum(has_number(lang, p) for p in parts)
    return f"{lang}:{min(k, 3)} parts with numbers" if k > 1 else f"-{lang}:{k} parts with numbers"


def known(case):
    expect_parse(case["text"], case["lang"], case["want"])
    return case["kind"]


@st.composite
def chains(draw):
    lang = draw(gen.LANG)
    parts = [draw(soup.soup(lang, max_size=7, shy=False)).strip() for _ in range(draw(st.integers(2, 6)))]
    seps = [draw(st.sampled_from([".", ",", ". ", ", ", " , ", " . ", "...", ",,", ". . "]))
            for _ in parts[1:]]
    return {"lang": lang, "parts": parts, "seps": seps, "exact": False}


@st.composite
def numbers(draw):
    lang = draw(gen.LANG)
    k = draw(st.integers(2, 5))
    parts = []
    for _ in range(k):
        n, s = draw(gen.numeral(lang))
        w = draw(st.sampled_from(["", "", "before", "after", "several"]))
        if w == "before":
            s = draw(gen.filler(lang)) + " " + s
        elif w == "after":
            s += " " + draw(gen.filler(lang))
        elif w == "several":
            s = draw(soup.number_words(lang))
        parts.append(s)
    seps = [draw(st.sampled_from([", ", ". ", ",", "."])) for _ in parts[1:]]
    case = {"lang": lang, "parts": parts, "seps": seps, "exact": True}
    if draw(st.integers(0, 2)) == 0:
        parts[0] = gen.case_variant(draw, parts[0])
        ws = draw(st.sampled_from(["\n", "\t", "\xa0", "  ", "\u3000"]))
        r = gen.rng(draw)
        case["parts"] = ["".join(r.choice([" ", ws]) if c == " " else c for c in p) for p in parts]
        case["seps"] = [s.replace(" ", r.choice([" ", ws])) for s in seps]
        case["around"] = [r.choice(["", ws]), r.choice(["", ws])]
    return case


@st.composite
def long_chains(draw):
    """Up to 150 parts, and long parts."""
    lang = draw(gen.LANG)
    r = gen.rng(draw)
    k = gen.length(draw, r, [3, 10, 40, 150], 2)
    fill = words.ALL_FILLERS[lang] if r.random() < 0.5 else ["zq", "x"]
    parts = []
    for _ in range(k):
        ws = []
        for _ in range(r.choice([1, 1, 2, 4, 8, 30 if k < 40 else 5])):
            q = r.random()
            ws.append(spell.spell(lang, r.randrange(10 ** r.randint(1, 8)), r.choice) if q < 0.4 else
                      r.choice(soup.ALLWORDS[lang]) if q < 0.6 else r.choice(fill))
        parts.append(" ".join(ws))
    seps = [r.choice([", ", ". ", ",", "."]) for _ in parts[1:]]
    return {"lang": lang, "parts": parts, "seps": seps, "exact": True}


@st.composite
def prosaic(draw):
    """Parts over one tiny vocabulary."""
    lang = draw(gen.LANG)
    r = gen.rng(draw)
    v = prose.vocabulary(lang, r)
    sizes = [2, 4, 8, 30]
    parts = [prose.make(lang, r, gen.length(draw, r, sizes), v) for _ in range(draw(st.sampled_from([2, 3, 4, 10])))]
    parts = [prose.text(p).strip() for p in parts if p and p[-1][0] in "wotd" and p[0][0] != "p"]
    if not parts:
        parts = [v["t"][0]]
    seps = [r.choice([", ", ". ", ",", "."]) for _ in parts[1:]]
    return {"lang": lang, "parts": parts, "seps": seps, "exact": True}


def pairs(tier):
    for lang in LANGS:
        lx = LEX[lang]
        reps = {}
        for w, cv in lx.words.items():
            reps.setdefault(cv, w)
        reps = list(reps.items())
        picks = [r for i, r in enumerate(reps) if r[0][0] == "scale" or i % (6 if tier == "quick" else 2) == 0]
        for (c1, v1), a in picks:
            for (c2, v2), b in picks:
                for s in (", ", ". ", ",", ".") if (v1 + v2) % 3 == 0 else (", ",):
                    yield {"lang": lang, "text": a + s + b, "want": f"{v1}{s}{v2}", "kind": lang + ":pair"}
        t = {n: spell.spell(lang, n) for n in (12, 20, 5, 1000, 200, 100)}
        for text, want in (
                (f"{t[12]},", "12,"), (f"{t[12]} ,", "12 ,"), (f"{t[12]}.", "12."), (f"{t[12]} .", "12 ."),
                (f"{t[12]}...", "12..."), (f",{t[12]}", ",12"), (f", {t[12]}", ", 12"),
                (f"{t[20]}, {t[5]}", "20, 5"), (f"{t[20]}. {t[5]}.", "20. 5."), (f"{t[5]},{t[1000]}", "5,1000"),
                (f"{t[200]} , {t[5]}", "200 , 5"), (f"{t[100]},, {t[5]}", "100,, 5"),
                (f"zq {t[20]}, zq, {t[5]} zq. {t[1000]}", "zq 20, zq, 5 zq. 1000"),
                (f"{t[5]}. {t[1000]}, {t[200]}. zq", "5. 1000, 200. zq")):
            yield {"lang": lang, "text": text, "want": want, "kind": lang + ":known"}
    for text, want in (("twenty first, second", "21, 2"), ("first. second.", "1. 2."),
                       ("one hundred and. five", "100 and. 5"), ("two and, three", "2 and, 3"),
                       ("one thousand. first", "1000. 1")):
        yield {"lang": "en", "text": text, "want": want, "kind": "en:known"}


TESTS = [Enum("pairs", pairs, known), Prop("random_parts", chains, law, 4000),
         Prop("number_lists", numbers, law, 5000),
         Prop("long_chains", long_chains, law, 400), Prop("prose", prosaic, law, 4000)]
