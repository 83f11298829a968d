"""C01: spelled integers convert back exactly."""
from hypothesis import strategies as st

from .. import gen, spell
from ..runner import Enum, Prop
from ..target import expect_number

RULE = ("Enumerated: the canonical spelling of every integer below a bound and of k*10^e, k*10^e+r on a grid, per "
        "language. Generated: integers of every magnitude and sparsity up to the language's limit, spelled by the "
        "check's own grammar with random optional parts (and, hyphens, gender), letter case and white space. Non-trivial: two or more words.")
ASSUMPTIONS = ["the spellers in vlib/spell.py write correct numerals"]


def oracle(case):
    lang, n, text = case["lang"], case["n"], case["text"]
    expect_number(text, lang, n)
    k = len(text.replace("-", " ").split())
    return f"{lang}:{'3+' if k > 2 else k} words" if k > 1 else f"-{lang}:1 word"


def grid(tier):
    top = 10000 if tier == "quick" else 100000
    tops = {"ru": top // 2, "uk": top // 2} if tier == "quick" else {}
    for lang in spell.LANGS:
        for n in range(tops.get(lang, top)):
            yield {"lang": lang, "n": n, "text": spell.spell(lang, n)}
        e = 3
        while 10 ** e < spell.LIMIT[lang]:
            for k in (1, 2, 9, 10, 11, 21, 30, 99, 100, 101, 115, 200, 345, 999):
                for r in (0, 1, 7, 10, 12, 20, 31, 100, 101, 500, 999, 1000, 1001, 21000, 100000, 345678,
                          10 ** (e - 1), 10 ** (e - 2) * 7, 2 * 10 ** (e - 3) + 1):
                    n = k * 10 ** e + r
                    if n < spell.LIMIT[lang]:
                        yield {"lang": lang, "n": n, "text": spell.spell(lang, n)}
            e += 1


def variants(tier):
    """Every integer below 1000 in its non-canonical spellings."""
    step = {"quick": 1000, "thorough": 20000}[tier]
    for lang in spell.LANGS:
        for n in range(step):
            yield {"lang": lang, "n": n, "text": spell.spell(lang, n, lambda o: o[-1])}


@st.composite
def cases(draw):
    lang = draw(gen.LANG)
    n, text = draw(gen.numeral(lang))
    return {"lang": lang, "n": n, "text": text}


@st.composite
def written(draw):
    lang = draw(gen.LANG)
    n, text = draw(gen.numeral(lang))
    return {"lang": lang, "n": n, "text": gen.dress(draw, text)}


@st.composite
def heads(draw):
    """A leading 'one' may be left out before hundred or a scale word (en, ru, uk, hi)."""
    lang = draw(st.sampled_from(["en", "hi", "ru", "uk"]))
    es = [e for e in range(2, len(str(spell.LIMIT[lang])) - 1)
          if 10 ** e in gen.LEX[lang].scales]
    e = draw(st.sampled_from(es))
    n = 10 ** e + draw(gen.integers_for(lang, 10 ** e))
    text = spell.spell(lang, n, gen.picker(draw))
    head, rest = text.split(" ", 1)
    ok = gen.LEX[lang].lookup(head) == ("unit", 1)
    return {"lang": lang, "n": n, "text": rest if ok else text}


TESTS = [
    Enum("grid", grid, oracle),
    Enum("variants", variants, oracle, shards=4),
    Prop("generated", cases, oracle, 16000),
    Prop("written", written, oracle, 4000),
    Prop("implicit_one", heads, oracle, 3000),
]
