"""C15: the four functions agree with each other."""
import re

from hypothesis import strategies as st

from .. import gen, prose, soup, words
from ..lexicon import LANGS, LEX
from ..runner import Enum, Prop
from ..target import call, expect, expect_undetected, show

RULE = ("Random texts of number words, connectors, ordinary words, symbols and digits of one language (ending in a word, without English "
        "ordinals): parse_number gives n exactly when parse gives str(n) alone; parse_ordinal gives the same; parse_fraction of "
        "two texts joined by '/' gives the two numbers. Non-trivial: two words or more.")


def oracle(case):
    lang, s, t = case["lang"], case["s"], case["t"]
    nums = []
    for x in (s, t):
        n = call("parse_number", x, lang)
        p = call("parse", x, lang)
        o = call("parse_ordinal", x, lang)
        nums.append(n)
        expect_undetected("parse_number", x, lang, n)
        expect_undetected("parse", x, lang, p)
        expect_undetected("parse_ordinal", x, lang, o)
        expect(o == n and type(o) is type(n), lambda: f"parse_ordinal({x!r}, {lang!r}) == {show(o)} but parse_number "
                                                      f"gives {show(n)}")
        whole = re.fullmatch(r"[0-9]+", p)
        if n is None:
            expect(not whole, lambda: f"parse({x!r}, {lang!r}) == {p!r} but parse_number gives None")
        else:
            expect(p == x.strip() and x.strip().isdecimal() or p == str(n), lambda:
                   f"parse({x!r}, {lang!r}) == {p!r} but parse_number gives {n}")
    f = call("parse_fraction", f"{s} / {t}", lang)
    want = None if None in nums else f"{nums[0]}/{nums[1]}"
    expect(f == want, lambda: f"parse_fraction({s + ' / ' + t!r}, {lang!r}) == {show(f)} but parse_number gives "
                              f"{show(nums)}")
    expect_undetected("parse_fraction", f"{s} / {t}", lang, f)
    if max(len(s.split()), len(t.split())) < 2:
        return "-one word"
    return f"{lang}:" + ("both" if None not in nums else "neither" if nums == [None, None] else "one")


@st.composite
def text(draw, lang):
    kind = draw(st.sampled_from(["numeral", "soup", "soup", "soup", "mixed", "mixed", "digits"]))
    con = LEX[lang].connectors
    if kind == "numeral":
        s = draw(gen.numeral(lang))[1]
        if con and draw(st.integers(0, 3)) == 0:
            toks = s.split(" ")
            toks.insert(draw(st.integers(0, len(toks) - 1)), " ".join(gen.connector_run(draw, lang)))
            return " ".join(toks)
        return gen.case_variant(draw, s)
    if kind == "soup":
        return draw(soup.number_words(lang, max_size=draw(st.sampled_from([3, 6, 6, 20]))))
    if kind == "digits":
        return draw(gen.digits_text())
    w = st.one_of(st.sampled_from(soup.ALLWORDS[lang]), st.sampled_from(soup.ALLWORDS[lang]),
                  st.sampled_from(words.FILLERS[lang]), st.sampled_from(words.NEAR[lang]), gen.digits_text(),
                  st.sampled_from(con or ["zq"]))
    ws = draw(st.lists(w, min_size=1, max_size=6))
    while ws and LEX[lang].is_connector(ws[-1]):
        ws.pop()
    return " ".join(ws)


@st.composite
def cases(draw):
    lang = draw(gen.LANG)
    return {"lang": lang, "s": gen.dress(draw, draw(text(lang))), "t": draw(text(lang))}


SYMBOLS = prose.SYM + [".", ",", "-", "--", "- ", " -", " - ", "_"]


@st.composite
def symbols(draw):
    """Symbols between, before and inside the words: most such texts are no number, for any of the functions."""
    lang = draw(gen.LANG)

    def spoil(s):
        parts = re.split("( )", s)
        for _ in range(draw(st.integers(1, 2))):
            i = draw(st.integers(0, len(parts) - 1))
            c = draw(st.sampled_from(SYMBOLS))
            parts[i] = draw(st.sampled_from([c + parts[i], c, parts[i] + c if i + 1 < len(parts) else c + parts[i]]))
        s = "".join(parts)
        end = s.rstrip().lower()
        return s + " ?" if any(end.endswith(c) for c in LEX[lang].connectors) else s
    s, t = draw(text(lang)), draw(text(lang))
    return {"lang": lang, "s": spoil(s), "t": t if draw(st.booleans()) else spoil(t)}


def pairs(tier):
    for lang in LANGS:
        ws = list(LEX[lang].words)
        con = LEX[lang].connectors
        step = 11 if tier == "quick" else 1
        k = 0
        for a in ws:
            for b in ws:
                k += 1
                if k % step:
                    continue
                g = [" ", " "] + [f" {c} " for c in con]
                yield {"lang": lang, "s": a + g[k % len(g)] + b, "t": b}
    for lang in LANGS:
        for k, a in enumerate(LEX[lang].words):
            if tier == "quick" and k % 3 != len(a) % 3:
                continue
            for c in [*SYMBOLS, *LEX[lang].connectors]:
                yield {"lang": lang, "s": c + a, "t": f"{c} {a}"}
                yield {"lang": lang, "s": a + c + a, "t": f"{a} {c} {ALL[lang][k % len(ALL[lang])]}"}


ALL = {lang: [*words.FILLERS[lang], *LEX[lang].words, "12"] for lang in LANGS}


TESTS = [Enum("pairs", pairs, oracle), Prop("texts", cases, oracle, 9000), Prop("symbols", symbols, oracle, 4000)]
