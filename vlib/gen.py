"""Hypothesis strategies shared by the checks."""
import random
import unicodedata

from hypothesis import strategies as st

from . import literals, spell, words
from .lexicon import LANGS, LEX, fold

LANG = st.sampled_from(LANGS)
LITERAL_SIZES = literals.sizes(700)
SMALL_SIZES = [k for k in LITERAL_SIZES if k <= 130]
WS = sorted(chr(c) for c in range(0x3001) if chr(c).isspace())


def integers_for(lang, limit=None):
    """Non-negative integers below the language's limit, of every magnitude and sparsity."""
    limit = limit or spell.LIMIT[lang]
    digits = len(str(limit - 1))

    @st.composite
    def sparse(draw):
        k = draw(st.integers(1, digits))
        ds = draw(st.lists(st.sampled_from("0000123456789"), min_size=k, max_size=k))
        return min(int("".join(ds)), limit - 1)

    @st.composite
    def dense(draw):
        k = draw(st.integers(1, digits))
        return min(draw(st.integers(0, 10 ** k - 1)), limit - 1)

    @st.composite
    def grouped(draw):
        n = 0
        step = {"hi": 2, "es": 3}.get(lang, 3)
        for _ in range(draw(st.integers(1, max(1, min(8, digits // step))))):
            e = draw(st.integers(0, (digits - 1) // step)) * step
            n += draw(st.sampled_from([1, 1, 2, 11, 20, 21, 99, 100, 101, 200, 999])) * 10 ** e
        return n % limit

    small = st.integers(0, min(limit - 1, 9999))
    known = literals.values(limit)
    if known:
        small = st.one_of(small, small, st.sampled_from(known))
    return st.one_of(st.integers(0, min(limit - 1, 120)), small, sparse(), grouped(), dense())


def length(draw, r, options, lo=1):
    """A size up to one of the options, or one that the code knows."""
    k = draw(st.sampled_from(options + options + ["lit"] if LITERAL_SIZES else options))
    if k == "lit":
        return max(lo, r.choice(SMALL_SIZES if SMALL_SIZES and r.random() < .8 else LITERAL_SIZES))
    return r.randint(lo, max(lo, k))


def picker(draw):
    if not draw(st.integers(0, 3)):
        def known(options):
            some = literals.related([o for o in options if type(o) is str]) or options
            return some[0] if len(some) == 1 else draw(st.sampled_from(some))
        return known
    return lambda options: options[0] if len(options) == 1 else draw(st.sampled_from(options))


@st.composite
def numeral(draw, lang, limit=None, lo=0):
    """(n, spelling)"""
    n = draw(integers_for(lang, limit))
    if n < lo:
        n = lo
    return n, spell.spell(lang, n, picker(draw))


@st.composite
def ordinal(draw, limit=None):
    n = draw(integers_for("en", limit))
    return n, spell.spell_ordinal(n, picker(draw))


def connector_run(draw, lang, most=4):
    """One to `most` connectors of the language, in any letter case."""
    k = draw(st.sampled_from([1, 1, 1, 1, 1, 2, 2, 3, most]))
    return [case_variant(draw, draw(st.sampled_from(LEX[lang].connectors))) for _ in range(k)]


def rng(draw):
    """For long texts, which would cost too much when every choice is Hypothesis's."""
    return random.Random(draw(st.integers(0, 2 ** 48)))


def random_word(lang):
    return (st.text(alphabet=words.ALPHABET[lang], min_size=1, max_size=9)
            .map(lambda w: w if words.is_plain(lang, w) and w.isalpha() else "zq" + w[:0]))


def filler(lang, ordinal_like=True):
    pool = words.ALL_FILLERS[lang] if ordinal_like else words.FILLERS[lang]
    base = st.one_of(st.sampled_from(pool), st.sampled_from(pool),
                     st.sampled_from(words.NEAR[lang]), random_word(lang))
    return st.tuples(base, st.sampled_from([0, 0, 0, 1, 2])).map(
        lambda t: t[0] if t[1] == 0 else t[0].capitalize() if t[1] == 1 else t[0].upper()).filter(
        lambda w: words.is_plain(lang, w) or w.lower() in pool)


def case_variant(draw, s):
    mode = draw(st.sampled_from(["same", "upper", "title", "cap", "mixed", "swap"]))
    if mode == "upper":
        return s.upper()
    if mode == "title":
        return " ".join(w[:1].upper() + w[1:] for w in s.split(" "))
    if mode == "cap":
        return s[:1].upper() + s[1:]
    if mode == "mixed":
        bits = draw(st.integers(0, 2 ** min(len(s), 40) - 1))
        return "".join(c.upper() if bits >> (i % 40) & 1 else c for i, c in enumerate(s))
    if mode == "swap":
        return "".join(c.upper() if i % 2 else c for i, c in enumerate(s))
    return s


def dress(draw, s):
    """The same numeral in other letter case, with other white space between the words and around them."""
    kind = draw(st.sampled_from(["plain", "case", "space", "both"]))
    if kind in ("case", "both"):
        s = case_variant(draw, s)
    if kind in ("space", "both"):
        r = rng(draw)
        own = r.choice([[" "], ["\n"], ["\t"], ["  "], ["\xa0"], [" ", r.choice(WS)], WS])
        s = "".join(r.choice(own) if c == " " else c for c in s)
        s = r.choice(["", *own]) + s + r.choice(["", *own])
    return s


SHIFT_ACCENT = ["\u0301", "\u0300", "\u0308", "\u0303", "\u0307"]


def digits_text():
    return st.one_of(
        st.integers(0, 10 ** 30).map(str),
        st.integers(0, 9999).map(str),
        st.text(alphabet="0123456789", min_size=1, max_size=25))


def wordish(n):
    return n


def norm_forms(s):
    return {f: unicodedata.normalize(f, s) for f in ("NFC", "NFD", "NFKC", "NFKD")}


# --- first/last word classes and which numerals can never combine -------------------

def word_classes(lang, s):
    """[(class, value)] of the number words of a spelled number, connectors dropped."""
    out = []
    for w in s.replace("-", " ").split():
        if LEX[lang].is_connector(w):
            continue
        cv = LEX[lang].lookup(w)
        assert cv is not None, (lang, w)
        out.append(cv)
    return out


def separate(last_cls, first_cls):
    """True if a word of class first_cls can never continue a number ending in last_cls."""
    if first_cls in ("unit", "direct") and last_cls in ("unit", "direct"):
        return True
    if first_cls == "direct" and last_cls == "tens":
        return True
    if first_cls == "tens" and last_cls in ("tens", "unit", "direct"):
        return True
    return first_cls == "hundreds" and last_cls != "scale"


def squeeze(s):
    """Drops all whitespace."""
    return "".join(s.split())


_ = fold
