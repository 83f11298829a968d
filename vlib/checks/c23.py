"""C23: parts of a text separated by an ordinary word or symbol are read independently."""
from hypothesis import strategies as st

from .. import gen, prose, soup, spell, words
from ..lexicon import LANGS, LEX
from ..runner import Enum, Prop
from ..target import call, expect, expect_undetected, show
from .c07 import PIECE

RULE = ("parse(a + separator + b) against parse(a), the separator and parse(b), where the separator holds an ordinary word (then "
        "exactly) or a symbol (then as sequences of words and symbols) and a, b, ... are any texts: number words in any order, "
        "connectors, ordinals, words, digits, odd characters; up to 120 parts. Enumerated: number words and connectors around "
        "every ordinary word and symbol. Non-trivial: two parts or more with a number word.")


def law(case):
    lang, parts, sep = case["lang"], case["parts"], case["sep"]
    text = sep.join(parts)
    got = call("parse", text, lang)
    want = sep.join(call("parse", p, lang) for p in parts)
    if case["exact"]:
        expect(got == want.strip(), lambda: f"parse({text!r}, {lang!r}) == {show(got, 2000)}, but the parts give "
                                            f"{want.strip()!r}")
    else:
        expect(PIECE.findall(got) == PIECE.findall(want), lambda:
               f"parse({text!r}, {lang!r}) == {show(got, 2000)}, but the parts give {want!r}")
    expect_undetected("parse", text, lang, got)
    k = sum(any(LEX[lang].lookup(t) is not None for t in PIECE.findall(p)) for p in parts)
    return f"{lang}:{'exact' if case['exact'] else 'pieces'}, {min(k, 3)} parts with numbers" if k > 1 else f"-{lang}:{k} parts"


def plain(lang):
    return [w for w in words.FILLERS[lang] if w.isalpha() and w.isascii() or lang in ("hi", "ru")] or words.FILLERS[lang]


PLAIN = {lang: plain(lang) for lang in LANGS}
SYM = [s for s in words.SYMBOLS if s not in "'’"]


@st.composite
def texts(draw):
    lang = draw(gen.LANG)
    parts = [draw(soup.soup(lang, max_size=6, shy=False)).strip() for _ in range(draw(st.sampled_from([2, 2, 3, 4])))]
    if draw(st.integers(0, 2)):
        gap = draw(st.sampled_from([" ", " ", "\n", "  ", "\t", "\u00a0"]))
        sep = f" {draw(st.sampled_from(PLAIN[lang]))}{gap}"
        if draw(st.integers(0, 4)) == 0:
            sep = sep.rstrip() + draw(st.sampled_from(SYM)) + " "
        return {"lang": lang, "parts": parts, "sep": sep, "exact": True}
    gap = draw(st.sampled_from(["", "", " "]))
    return {"lang": lang, "parts": parts, "sep": gap + draw(st.sampled_from(SYM)) + gap, "exact": False}


@st.composite
def numbers(draw):
    lang = draw(gen.LANG)
    parts = []
    for _ in range(draw(st.integers(2, 4))):
        k = draw(st.sampled_from("nnwo"))
        s = draw(gen.numeral(lang))[1] if k == "n" else draw(gen.ordinal())[1] if k == "o" and lang == "en" \
            else draw(soup.number_words(lang))
        parts.append(gen.case_variant(draw, s))
    return {"lang": lang, "parts": parts, "sep": f" {draw(gen.filler(lang))} ", "exact": True}


@st.composite
def long_texts(draw):
    lang = draw(gen.LANG)
    r = gen.rng(draw)
    pool = soup.ALLWORDS[lang] + LEX[lang].connectors * 5
    parts = []
    for _ in range(gen.length(draw, r, [6, 20, 120], 3)):
        ws = [r.choice(pool) for _ in range(r.choice([1, 2, 3, 10]))]
        if r.random() < 0.4:
            ws = [spell.spell(lang, r.randrange(10 ** r.randint(1, 9)), r.choice)]
        if r.random() < 0.2:
            ws.insert(0, r.choice(PLAIN[lang]))
        parts.append(" ".join(ws))
    return {"lang": lang, "parts": parts, "sep": f" {r.choice(PLAIN[lang])} ", "exact": True}


@st.composite
def prosaic(draw):
    """Parts over one tiny vocabulary, so that the same things happen in several of them."""
    lang = draw(gen.LANG)
    r = gen.rng(draw)
    v = prose.vocabulary(lang, r)
    sizes = [2, 4, 8, 30]
    parts = [prose.text(prose.make(lang, r, gen.length(draw, r, sizes), v)).strip() for _ in range(draw(st.sampled_from([2, 2, 3, 8])))]
    if r.random() < .8:
        return {"lang": lang, "parts": parts, "sep": f" {r.choice(v['t'] + PLAIN[lang])} ", "exact": True}
    return {"lang": lang, "parts": parts, "sep": f" {r.choice(SYM)} ", "exact": False}


def around(tier):
    for lang in LANGS:
        by = {}
        for w, (c, v) in sorted(LEX[lang].words.items()):
            by.setdefault(c, []).append(w)
        few = [ws[0] for ws in by.values()] + [ws[-1] for ws in by.values()] + LEX[lang].connectors
        for i, f in enumerate(PLAIN[lang] + SYM):
            exact = i < len(PLAIN[lang])
            for a in few:
                b = few[(i + len(a)) % len(few)]
                yield {"lang": lang, "parts": [a, b], "sep": f" {f} ", "exact": exact}
                yield {"lang": lang, "parts": [b + " " + a, a + " " + b], "sep": f" {f} ", "exact": exact}


TESTS = [Enum("around", around, law), Prop("texts", texts, law, 5000), Prop("numbers", numbers, law, 4000),
         Prop("long", long_texts, law, 400), Prop("prose", prosaic, law, 5000)]
