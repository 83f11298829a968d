"""C07: parse leaves alone everything that is not a number."""
import re

from hypothesis import strategies as st

from .. import gen, prose, soup, spell, words
from ..detect import numberless
from ..lexicon import LANGS, LEX, ORDINALS, fold, is_plain, maybe_ordinal, tokens_of
from ..runner import Enum, Prop
from ..target import call, expect, expect_parse, expect_undetected, show

RULE = ("Sentences assembled from numerals, ordinary words (near misses of number words and ordinal look-alikes included), "
        "symbols and connectors, so that the expected output is known piece by piece: compared exactly where the numeral is "
        "followed by one space, and as a sequence of words and symbols where symbols are glued to numerals. Also arbitrary "
        "text without number words, which must come back unchanged, and prose over tiny vocabularies against a reference model of parse. Non-trivial: there is something to keep.")
PIECE = re.compile(r"(?:[^\W]|[\u0300-\u036f\u0900-\u0903\u093a-\u094f\u0951-\u0957\u0962\u0963\u200c\u200d])+|\S")


def exact(case):
    expect_parse(case["text"], case["lang"], case["want"])
    return case["kind"]


def pieces(case):
    got = call("parse", case["text"], case["lang"])
    expect(PIECE.findall(got) == PIECE.findall(case["want"]),
           lambda: f"parse({case['text']!r}, {case['lang']!r}) == {show(got, 2000)}, expected the pieces of "
                   f"{case['want']!r}")
    expect_undetected("parse", case["text"], case["lang"], got)
    return case["kind"]


def verbatim(case):
    expect_parse(case["text"], case["lang"], case["text"].strip())
    if numberless(case["text"]):
        expect_parse(case["text"], None, case["text"].strip())
    return case["kind"] if case["text"].strip() else "-blank"


@st.composite
def sentence(draw):
    lang = draw(gen.LANG)
    con = LEX[lang].connectors
    text, want = "", ""
    prev = None          # kind of the previous piece
    kinds = set()
    for _ in range(draw(st.integers(1, 8))):
        kind = draw(st.sampled_from("nnwwsc"))
        if kind == "n" and (prev in ("n", "nc", "c")) or kind == "c" and not con:
            kind = "w"
        sep = ""
        if prev is not None:
            sep = " " if prev in ("n", "nc") else draw(
                st.sampled_from([" ", " ", " ", "  ", "\t", "\n", " \n ", "\u00a0"]))
        if kind == "n":
            n, s = draw(gen.numeral(lang))
            s = gen.case_variant(draw, s)
            out = str(n)
        elif kind == "w":
            s = out = draw(gen.filler(lang))
            if draw(st.integers(0, 4)) == 0:
                sym = draw(st.sampled_from(words.SYMBOLS))
                s = out = s + sym if draw(st.booleans()) else sym + s
        elif kind == "s":
            s = out = draw(st.sampled_from(words.SYMBOLS))
        else:
            s = out = " ".join(gen.connector_run(draw, lang))
            kind = "nc" if prev in ("n", "nc") else "c"
        text += sep + s
        want += sep + out
        kinds.add(kind)
        prev = kind
    ends = draw(st.sampled_from(["", "", " ", "\n", "\t "]))
    return {"lang": lang, "text": ends + text + ends, "want": want,
            "kind": f"{lang}:" + "+".join(sorted(kinds))}


@st.composite
def glued(draw):
    lang = draw(gen.LANG)
    out, want = [], []
    kinds = set()
    prev = None
    for _ in range(draw(st.integers(1, 7))):
        kind = draw(st.sampled_from("nnwss"))
        if kind == "n" and prev == "n":
            kind = "s"
        glue = "" if prev == "s" or kind == "s" else " "
        glue = draw(st.sampled_from([glue, glue, " ", "\n"]))
        if prev is None:
            glue = ""
        if kind == "n":
            n, s = draw(gen.numeral(lang))
            o = str(n)
        elif kind == "w":
            s = o = draw(gen.filler(lang))
        else:
            s = o = draw(st.sampled_from(words.SYMBOLS + [".", ","]))
        out += [glue, s]
        want += [glue, o]
        kinds.add(kind)
        prev = kind
    return {"lang": lang, "text": "".join(out), "want": "".join(want),
            "kind": f"{lang}:glued " + "+".join(sorted(kinds))}


def has_no_number(lang, text):
    return all(is_plain(lang, t) or LEX[lang].is_connector(t) or
               not any(c.isalpha() for c in t) for t in tokens_of(lang, text))


@st.composite
def plain_text(draw):
    lang = draw(gen.LANG)
    con = LEX[lang].connectors
    parts = draw(st.lists(st.one_of(
        gen.filler(lang), gen.filler(lang), st.sampled_from(words.NEAR[lang]), st.sampled_from(words.SYMBOLS),
        st.sampled_from(con or ["!"]), st.sampled_from([".", ",", "...", ", ", "'", "_", "-", "--", "\t"]),
        st.text(max_size=5), gen.digits_text(),
        st.text(alphabet="éñüçãöА́й́क्षö\u0301\u200d", min_size=1, max_size=3)), min_size=1, max_size=10))
    sep = draw(st.sampled_from([" ", " ", "", "  ", "\n"]))
    text = sep.join(parts).replace("\xad", "")
    return lang, text


def plain_cases():
    return plain_text().filter(lambda t: has_no_number(*t)).map(
        lambda t: {"lang": t[0], "text": t[1], "kind": t[0] + ":no number"})


def others(lang, text):
    """The words and symbols that are neither numbers, connectors nor ASCII digits, in order."""
    out = []
    for t in UNITS[lang].findall(text.replace("\xad", "")):
        if LEX[lang].lookup_strict(t) is not None or LEX[lang].is_connector(t) or t.isdecimal() and t.isascii():
            continue
        if lang == "en" and maybe_ordinal(t):
            if fold(t) in ORDINALS:
                continue
            if fold(t).endswith("th") and LEX[lang].lookup_strict(t[:-2]) is not None:
                return None     # "nineth": an ordinal or not, not claimed
        out.append(t)
    return out


W = PIECE.pattern[:-len("|\\S")]
assert PIECE.pattern == W + "|\\S"
UNITS = {lang: re.compile(W + "|\\S") for lang in LANGS}
UNITS["uk"] = re.compile(f"{W}(?:['’]{W})*|\\S")      # an apostrophe inside a word is part of it


def conserved(case):
    lang, text = case["lang"], case["text"]
    out = call("parse", text, lang)
    a, b = others(lang, text), others(lang, out)
    if a is None or b is None:
        return "-misspelled ordinal"
    expect(a == b, lambda: f"parse({text!r}, {lang!r}) == {show(out, 2000)}: the words and symbols {a} became {b}")
    expect_undetected("parse", text, lang, out)
    return f"{lang}:conserved" if a else "-nothing to keep"


@st.composite
def arbitrary(draw):
    lang = draw(gen.LANG)
    return {"lang": lang, "text": draw(soup.soup(lang, max_size=draw(st.sampled_from([4, 10, 10, 25]))))}


def near(tier):
    """Every ordinary word and near miss, alone and between numerals."""
    for lang in LANGS:
        three = spell.spell(lang, 3)
        con = LEX[lang].connectors
        seven = spell.spell(lang, 7)
        for w in words.ALL_FILLERS[lang] + words.NEAR[lang]:
            for v in (w, w.upper(), w.capitalize()):
                if not (is_plain(lang, v) or v.lower() in words.ORDINAL_LIKE[lang] or
                        v in words.ORDINAL_LIKE[lang]):
                    continue
                yield {"lang": lang, "text": v, "want": v, "kind": lang + ":word"}
                yield {"lang": lang, "text": f"{three} {v} {seven}", "want": f"3 {v} 7",
                       "kind": lang + ":between"}
        for c in con:
            for v in {c, c.upper(), c.capitalize()}:
                for a, b in ((v, v), (f"{three} {v}", f"3 {v}"), (f"{v} {three}", f"{v} 3"),
                             (f"zq {v} {three}", f"zq {v} 3"), (f"{three} {v} zq", f"3 {v} zq"),
                             (f"{three} {v} {v} zq", f"3 {v} {v} zq"),
                             (f"{three} {v} {seven}", f"3 {v} 7"), (f"zq {v} zq", f"zq {v} zq"),
                             (f"{three}, {v} {seven}", f"3, {v} 7"),
                             (f"{three} {v}, zq", f"3 {v}, zq" if v != "-" else f"3 {v} , zq"),
                             (f"{three} {v} {v} {seven} {v}", f"3 {v} {v} 7 {v}")):
                    yield {"lang": lang, "text": a, "want": b, "kind": lang + ":connector"}


def all_near(tier):
    """Every word within one edit of a number word (and two words of it glued), in batches."""
    for lang in LANGS:
        batch = []
        foreign = [] if lang == "en" else sorted(ORDINALS) + [w + e for w in LEX[lang].words for e in words.ENDINGS]
        for w in words.misses(lang) + words.alikes(lang) + [w for w in foreign if is_plain(lang, w)]:
            batch.append(w)
            if len(batch) == 150:
                yield {"lang": lang, "words": batch}
                batch = []
        yield {"lang": lang, "words": batch}


def unchanged(case):
    lang = case["lang"]
    text = " ".join(case["words"])
    if call("parse", text, lang) != text:
        for w in case["words"]:
            expect_parse(w, lang, w)
        expect_parse(text, lang, text)
    return lang + ":near misses" if case["words"] else "-none"


_pool = {}


def pool(lang):
    if not _pool:
        for c in near("quick"):
            if c["text"].strip() == c["text"]:
                _pool.setdefault(c["lang"], []).append((c["text"], c["want"]))
    return _pool[lang]


@st.composite
def long_sentences(draw):
    """Many short pieces with known results in one text."""
    lang = draw(gen.LANG)
    r = gen.rng(draw)
    k = gen.length(draw, r, [5, 15, 40, 120], 2)
    text, want = [], []
    for _ in range(k):
        if r.random() < 0.5:
            t, w = r.choice(pool(lang))
        else:
            n = r.randrange(10 ** r.randint(1, 9))
            t, w = spell.spell(lang, n, r.choice), str(n)
        text.append(t)
        want.append(w)
    sep = draw(st.sampled_from([" zq ", " Zq! ", " zq\n\nzq ", " (zq) ", " zq, "]))
    return {"lang": lang, "text": sep.join(text), "want": sep.join(want), "kind": lang + ":long"}


def modelled(case):
    from .c11 import Ambiguous, read
    lang, tokens = case["lang"], case["tokens"]
    try:
        want = prose.model(lang, tokens, read)
    except Ambiguous:
        return "-ambiguous"
    text = prose.text(tokens)
    expect_parse(text, lang, want.strip())
    kinds = {t[0] for t in tokens}
    return f"{lang}:prose of {len(kinds)} kinds" if len(kinds) > 1 else "-one kind"


@st.composite
def prosaic(draw):
    lang = draw(gen.LANG)
    r = gen.rng(draw)
    return {"lang": lang, "tokens": prose.make(lang, r, gen.length(draw, r, [3, 6, 10, 20, 40, 150], 2))}


TESTS = [
    Prop("prose", prosaic, modelled, 6000),
    Enum("words", near, exact), Prop("long_sentences", long_sentences, exact, 600),
    Enum("near_misses", all_near, unchanged),
    Prop("conserved", arbitrary, conserved, 6000),
    Prop("sentences", sentence, exact, 8000),
    Prop("glued_symbols", glued, pieces, 5000),
    Prop("no_numbers", plain_cases, verbatim, 5000),
]
