"""C16: parse converts every number word, and converting twice changes nothing."""
from hypothesis import strategies as st

from .. import gen, soup, spell, words
from ..lexicon import LANGS, LEX, ORDINALS, fold, tokens_of
from ..runner import Enum, Prop
from ..target import Violation, call, expect, expect_undetected, show
import re
import unicodedata

RULE = ("Random messy texts (number words of the language and of others in any case, ordinals, connectors, separators, symbols, "
        "digits, odd Unicode): the output of parse holds no number word of the language (nor an English ordinal), its digit "
        "runs include those of the input in order, and parsing it again returns it unchanged. Non-trivial: the text holds a "
        "number word.")


def words_in(lang, text):
    return [t for t in tokens_of(lang, text) if LEX[lang].lookup_strict(t) is not None
            or lang == "en" and fold(t) in ORDINALS]


def subsequence(a, b):
    it = iter(b)
    return all(x in it for x in a)


def oracle(case):
    lang, text = case["lang"], case["text"]
    out = call("parse", text, lang)
    left = words_in(lang, out)
    expect(not left, lambda: f"parse({text!r}, {lang!r}) == {show(out, 2000)} still has {left}")
    expect_undetected("parse", text, lang, out)
    again = call("parse", out, lang)
    expect(again == out, lambda: f"parse of its own output {out!r} ({lang}, from {text!r}) gives {show(again, 2000)}")
    a, b = re.findall(r"\d+", text.replace("\xad", "")), re.findall(r"\d+", out)
    expect(subsequence(a, b), lambda: f"parse({text!r}, {lang!r}) == {show(out, 2000)} lost digits")
    k = len(words_in(lang, text.replace("\xad", "")))
    return f"{lang}:{k if k < 4 else '4+'} number words" if k else f"-{lang}:no number word"


@st.composite
def texts(draw):
    lang = draw(gen.LANG)
    return {"lang": lang, "text": draw(soup.soup(lang))}


@st.composite
def long_texts(draw):
    lang = draw(gen.LANG)
    return {"lang": lang, "text": draw(soup.soup(lang, max_size=40, odd=False))}


def framed(tier):
    """Every number word between every kind of neighbour."""
    frames = ["{}", "({})", "\"{}\"", "{}!", "¿{}?", "{}-zq", "zq-{}", "{}/{}", "{}:{}", "'{}'", "’{}’", "{}'s", "{}\n{}",
              "{}\u00a0zq", "{};", "\u200b{}", "{}…", "№{}", "{}%", "{}, {}", "{}.{}", "{}, and {}", "{} {}", "zq {} zq",
              "{}-{}", "{}—{}", "{}\u2011{}", "$ {}", "*{}*", "_ {} _", "{}\t{}", "<b>{}</b>", "{}।", "«{}»",
              "{} & {}", "{}+{}", "@{}", "#{}", "{}={}", "http://{}.com", "{}@{}"]
    for lang in LANGS:
        for i, w in enumerate(list(LEX[lang].words) + (sorted(ORDINALS) if lang == "en" else [])):
            for j, f in enumerate(frames):
                if tier == "quick" and (i + j) % 3 and len(LEX[lang].words) > 60:
                    continue
                yield {"lang": lang, "text": f.replace("{}", w if (i + j) % 2 else w.upper())}


def symbols(tier):
    """Every symbol, punctuation mark, space and control character of Unicode directly between number words."""
    batch = []
    for cp in range(0x110000):
        c = chr(cp)
        if (unicodedata.category(c)[0] in "PSZ" or unicodedata.category(c) == "Cc") and not c.isalnum() and c not in "_'’":
            batch.append(c)
            if len(batch) == 60:
                for lang in (LANGS if cp < 0x3100 else [LANGS[cp % 5]]):
                    yield {"lang": lang, "chars": batch}
                batch = []
    yield {"lang": "en", "chars": batch}


def every_symbol(case):
    lang = case["lang"]
    a, b = spell.spell(lang, 3), spell.spell(lang, 7)

    def one(cs):
        text = " zq ".join(f"{a}{c}{b}" for c in cs)
        out = call("parse", text, lang)
        left = words_in(lang, out)
        expect(not left, lambda: f"parse({text!r}, {lang!r}) == {show(out, 2000)} still has {left[:4]}")
        got = out.split("zq")
        expect(len(got) == len(cs) and all(
            "".join(g.split()) == "".join(f"3{c}7".split()) for g, c in zip(got, cs)), lambda:
            f"parse({text!r}, {lang!r}) == {show(out, 2000)}")
    try:
        one(case["chars"])
    except Violation:
        for c in case["chars"]:
            one([c])
        raise
    return lang + ":symbols"


@st.composite
def very_long(draw):
    lang = draw(gen.LANG)
    r = gen.rng(draw)
    pool = soup.ALLWORDS[lang] + words.FILLERS[lang]
    sep = [" ", " ", " ", ", ", ". ", "! ", " - ", "\n", "; "] + ORD_GLUE[lang]
    k = gen.length(draw, r, [50, 200, 600], 20)
    return {"lang": lang, "text": "".join(r.choice(pool) + r.choice(sep) for _ in range(k))}


ORD_GLUE = {lang: [" first ", " second "] if lang == "en" else [" "] for lang in LANGS}
TESTS = [Enum("framed", framed, oracle), Enum("symbols", symbols, every_symbol), Prop("very_long", very_long, oracle, 300), Prop("texts", texts, oracle, 9000),
         Prop("long_texts", long_texts, oracle, 1500)]
