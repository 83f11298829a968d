"""Messy but bounded text: number words, ordinary words, symbols, digits, odd characters."""
from hypothesis import strategies as st

from . import literals, words
from .lexicon import LANGS, LEX, ORDINALS

ODD = ["\u0301", "\u200d", "\u200c", "\ufeff", "\u200b", "\u202e", "²", "½", "Ⅷ", "五", "๓", "٣", "१", "𝟘", "①",
       "İ", "ı", "ſ", "ß", "ﬁ", "ʼ", "'", "’", "\xad", "\x00", "\ud800", "🙂", "𐍈", "क्‍ष", "_", "ё", "й", "ї",
       "Ǆ", "ŉ", "K", "\u0345"]
SEPS = [".", ",", ". ", ", ", "...", " , ", " . ", "-", " - ", "--", "/", " / ", " over ", " by ",
        " divided by ", "and", " and ", " y ", " AND ", " Y "]
SPACES = [" ", " ", " ", "", "  ", "\n", "\t", "\u00a0", "\u3000"]
ORDS = sorted(ORDINALS) + ["th", "ieth", "secondth", "thirdth", "firsts"]
ALLWORDS = {lang: sorted(LEX[lang].words) for lang in LANGS}


# words of each language that share a part with a literal of the code
KNOWN = {lang: literals.related(ALLWORDS[lang]) or ALLWORDS[lang] for lang in LANGS}
DICTIONARY = [s for s in literals.strings() if len(s) <= 30]


def piece(lang, odd=True, shy=True):
    number = st.sampled_from(ALLWORDS[lang])
    options = [number, number, number,
               st.sampled_from(LEX[lang].connectors or ["and"]),
               st.sampled_from(words.RAW[lang]),
               st.sampled_from(words.NEAR[lang]),
               st.sampled_from(ORDS),
               st.sampled_from(SEPS),
               st.sampled_from(words.SYMBOLS),
               st.text(alphabet="0123456789", min_size=1, max_size=6),
               number.map(str.upper), number.map(str.title), st.sampled_from(KNOWN[lang]),
               st.sampled_from(LANGS).flatmap(lambda x: st.sampled_from(ALLWORDS[x]))]
    if odd:
        if DICTIONARY:
            options.append(st.sampled_from(DICTIONARY if shy else [s.replace("\xad", "") for s in DICTIONARY]))
        pool = ODD if shy else [c for c in ODD if c != "\xad"]
        options.append(st.sampled_from(pool))
        options.append(st.text(max_size=4) if shy else
                       st.text(max_size=4).map(lambda s: s.replace("\xad", "")))
    return st.one_of(options)


def soup(lang, max_size=12, odd=True, shy=True):
    return st.lists(st.tuples(piece(lang, odd, shy), st.sampled_from(SPACES)), max_size=max_size).map(
        lambda ps: "".join(a + b for a, b in ps))


def number_words(lang, min_size=1, max_size=8, connectors=True):
    """Number words of one language in any order, joined by white space or connectors."""
    glue = [" "] * 6 + ["  ", "\t"]
    if connectors:
        glue += [f" {c} " for c in LEX[lang].connectors]
        glue += [f" {c} {d} " for c in LEX[lang].connectors for d in LEX[lang].connectors]
        glue += [f" {c} {c} {c} " for c in LEX[lang].connectors[:1]]
        if "-" in LEX[lang].connectors:
            glue += ["-"]
    w = st.sampled_from(ALLWORDS[lang])
    return st.lists(st.tuples(w, st.sampled_from(glue)), min_size=min_size, max_size=max_size).map(
        lambda ps: "".join(a + b for a, b in ps[:-1]) + ps[-1][0])
