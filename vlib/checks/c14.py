"""C14: without a language, the one most of the number words belong to is used."""
from hypothesis import strategies as st

from .. import gen, soup, spell, words
from ..lexicon import LANGS, LEX, ORDINALS, fold, is_plain
from ..runner import Enum, Prop
from ..target import call, expect, show

RULE = ("Texts whose words are known one by one: numerals and number words of one or several languages, ordinals, connectors and "
        "words that are no number anywhere. The words of each language are counted with the reviewed vocabulary; with a single "
        "best language all four functions must agree with the explicit language, with a tie they must agree with one of the "
        "tied languages, without any number word with English. Non-trivial: a number word occurs.")
FNS = ["parse", "parse_number", "parse_ordinal", "parse_fraction"]
NEUTRAL = [w for w in sorted({w for lang in LANGS for w in words.FILLERS[lang]})
           if all(is_plain(lang, w) for lang in LANGS) and "'" not in w and "’" not in w and "ʼ" not in w
           and "-" not in w and "’" not in w]


def count(tokens):
    out = {}
    for lang in LANGS:
        lx = LEX[lang]
        out[lang] = sum(1 for t in tokens if (lang == "uk" or not set("'’") & set(t)) and (
            lx.lookup_strict(t) is not None or fold(t) in lx.connectors
                        or (lang == "en" and fold(t) in ORDINALS)))
    return out


def oracle(case):
    toks = case["tokens"]
    text = case.get("text") or " ".join(toks)
    c = count(toks)
    best = max(c.values())
    langs = [lang for lang in LANGS if c[lang] == best] if best else ["en"]
    for fn in FNS:
        got = call(fn, text, None)
        want = [call(fn, text, lang) for lang in langs]
        expect(any(got == w and type(got) is type(w) for w in want), lambda:
               f"{fn}({text!r}) == {show(got)}, but with language {'/'.join(langs)} it is {show(want)} "
               f"(number words per language: {c})")
    if not best:
        return "-no number word"
    return f"{langs[0]} alone" if len(langs) == 1 and sum(map(bool, c.values())) == 1 else \
        f"{langs[0]} most" if len(langs) == 1 else "tie"


GLUE = {*words.SYMBOLS, *".,-/"} - set("'’")


def layout(draw, toks):
    """Any white space between the words and around the text, symbols with or without it."""
    kind = draw(st.sampled_from(["plain", "plain", "space", "glue", "both"]))
    if kind == "plain":
        return " ".join(toks)
    r = gen.rng(draw)
    own = [" ", r.choice(gen.WS)]
    out = r.choice(["", "", *own])
    for i, t in enumerate(toks):
        if i and not (kind != "space" and {t, toks[i - 1]} & GLUE and r.random() < 0.6):
            out += " " if kind == "glue" else r.choice([*own, "\n", "  ", r.choice(gen.WS)])
        out += t
    return out + r.choice(["", "", *own])


@st.composite
def numerals(draw):
    """One numeral of one language and neutral words: the language must be found."""
    lang = draw(gen.LANG)
    n, s = draw(gen.numeral(lang))
    s = gen.case_variant(draw, s)
    pre = draw(st.lists(st.sampled_from(NEUTRAL), max_size=4))
    post = draw(st.lists(st.sampled_from(NEUTRAL), max_size=4))
    toks = pre + s.replace("-", " - ").split() + post
    return {"tokens": toks, "text": layout(draw, [*pre, *s.split(" "), *post])}


@st.composite
def mixed(draw):
    a, b, c = draw(st.sampled_from(LANGS)), draw(st.sampled_from(LANGS)), draw(st.sampled_from(LANGS))
    w = st.one_of(*[st.sampled_from(soup.ALLWORDS[x]) for x in (a, a, a, b, b, c)],
                  st.sampled_from(NEUTRAL), st.sampled_from(["and", "y", "-", "AND", "Y"]),
                  st.sampled_from(sorted(ORDINALS)), st.sampled_from(["12", ".", ",", "/", "over"]))
    toks = draw(st.lists(w, min_size=1, max_size=9))
    if draw(st.integers(0, 2)) == 0:
        toks = [t.upper() if draw(st.booleans()) else t for t in toks]
    return {"tokens": toks, "text": layout(draw, toks)}


@st.composite
def weighted(draw):
    """k words of one language against k-1, k or k+1 words of another."""
    a = draw(st.sampled_from(LANGS))
    b = draw(st.sampled_from([x for x in LANGS if x != a]))
    k = draw(st.integers(1, 4))
    j = draw(st.sampled_from([k - 1, k - 1, k, k + 1]))
    pool_a = [w for w in soup.ALLWORDS[a] if LEX[b].lookup(w) is None]
    pool_b = [w for w in soup.ALLWORDS[b] if LEX[a].lookup(w) is None]
    toks = draw(st.lists(st.sampled_from(pool_a), min_size=k, max_size=k)) + \
        draw(st.lists(st.sampled_from(pool_b), min_size=j, max_size=j)) + \
        draw(st.lists(st.one_of(st.sampled_from(NEUTRAL), gen.digits_text(), st.sampled_from(words.SYMBOLS),
                                st.sampled_from(["1,000", "3.5", "over", "by", "divided", "th", "2nd", "१२३४", "٣", "½"])),
                      max_size=draw(st.sampled_from([3, 9]))))
    toks = draw(st.permutations(toks))
    return {"tokens": list(toks), "text": layout(draw, list(toks))}


@st.composite
def long_weighted(draw):
    """Many words of up to five languages, in blocks or shuffled."""
    r = gen.rng(draw)
    k = min(400, gen.length(draw, r, [6, 15, 40, 120], 2))
    toks = []
    for lang in r.sample(LANGS, r.randint(2, 5)):
        own = [w for w in soup.ALLWORDS[lang] if all(LEX[x].lookup(w) is None for x in LANGS if x != lang)]
        own = r.choice([own, r.sample(own, 3), [r.choice(own)]])
        toks += [r.choice(own) for _ in range(r.randint(k // 2, k))]
    toks += [r.choice(NEUTRAL + words.SYMBOLS + [str(r.randrange(10 ** r.randint(1, 12)))] * 40)
             for _ in range(r.randint(0, k))]
    if r.random() < 0.6:
        r.shuffle(toks)
    return {"tokens": toks, "text": layout(draw, toks)}


@st.composite
def fraction_texts(draw):
    lang = draw(gen.LANG)
    a, b = draw(gen.numeral(lang))[1], draw(gen.numeral(lang, lo=1))[1]
    toks = a.replace("-", " - ").split() + ["/"] + b.replace("-", " - ").split()
    return {"tokens": toks, "text": f"{a} / {b}"}


def single(tier):
    for lang in LANGS:
        for w in LEX[lang].words:
            for t in (w, w.upper()):
                yield {"tokens": [t]}
                yield {"tokens": ["zq", t, "zq"]}
        for n in range(0, 130, 3):
            s = spell.spell(lang, n)
            yield {"tokens": s.replace("-", " - ").split(), "text": s}
    for w in NEUTRAL + ["", "12", "and", "y", "-", "and and", "zq zq"]:
        yield {"tokens": w.split()}
    for o in sorted(ORDINALS):
        yield {"tokens": [o]}
        yield {"tokens": [o, "dos", "tres"]}
        yield {"tokens": ["dos", o, o.upper()]}


TESTS = [Enum("single", single, oracle), Prop("numerals", numerals, oracle, 3000),
         Prop("mixed", mixed, oracle, 2500), Prop("weighted", weighted, oracle, 2500),
         Prop("long", long_weighted, oracle, 500),
         Prop("fractions", fraction_texts, oracle, 800)]
