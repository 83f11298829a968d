"""C12: English ordinals."""
from hypothesis import strategies as st

from .. import gen, soup, spell, words
from ..lexicon import LANGS, LEX, ORDINALS
from ..runner import Enum, Prop
from ..target import call, expect, expect_number, expect_parse, show

RULE = ("Ordinals of integers below 10^24 spelled by the check's own grammar with random optional parts and letter case, alone "
        "(parse_ordinal, and parse as a whole text) and inside sentences; sequences in which an ordinal must end its number; "
        "words that merely contain or end like an ordinal; and parse_ordinal against parse_number with every ordinal word "
        "replaced by its cardinal. Non-trivial: more than one word, or an ordinal look-alike.")


def alone(case):
    expect_number(case["text"], "en", case["n"], fn="parse_ordinal")
    expect_number(case["text"], None, case["n"], fn="parse_ordinal")
    expect_parse(case["text"], "en", str(case["n"]))
    expect_number(case["text"], "en", None)      # not a cardinal
    return "ordinal" if len(case["text"].replace("-", " ").split()) > 1 else "-one word"


def sentence(case):
    if case.get("loose"):
        got = call("parse", case["text"], "en")
        expect(got.split() == case["want"].split(), lambda: f"parse({case['text']!r}) == {got!r}, expected {case['want']!r}")
    else:
        expect_parse(case["text"], "en", case["want"])
    if "w" in case["kind"].split(":")[1]:
        expect_number(case["text"], "en", None, fn="parse_ordinal")
    return case["kind"]


def untouched(case):
    expect_parse(case["text"], "en", case["want"])
    return case["kind"]


def cardinalised(case):
    toks = case["tokens"]
    text = "".join(toks)
    card = "".join(ORDINALS.get(t.lower(), t) for t in toks)
    for lang in ("en", None):
        a = call("parse_ordinal", text, lang)
        b = call("parse_number", card, lang)
        expect(a == b and type(a) is type(b), lambda: f"parse_ordinal({text!r}, {lang!r}) == {show(a)}, but "
                                                      f"parse_number({card!r}, {lang!r}) == {show(b)}")
    k = sum(t.lower() in ORDINALS for t in toks)
    return ("cardinalised: " + ("number" if a is not None else "none")) if k and len(toks) > 1 else "-no ordinal"


def foreign(case):
    for w, n in case.get("numbers", ()):
        expect_number(w, case["lang"], n, fn="parse_ordinal")
    for w in case["words"]:
        expect_number(w, case["lang"], None, fn="parse_ordinal")
        expect_parse("zq " + w, case["lang"], "zq " + w)
    return case["lang"] + ":English endings" if case["words"] else "-none"


def other_languages(tier):
    """English ordinal words, and words with English endings, are nothing in another language."""
    for lang in LANGS:
        if lang != "en":
            ws = [w for w in sorted(ORDINALS) + [w + e for w in LEX[lang].words for e in words.ENDINGS]
                  if words.is_plain(lang, w)]
            for i in range(0, len(ws), 50):
                yield {"lang": lang, "words": ws[i:i + 50], "numbers": [[spell.spell(lang, n), n] for n in range(i, i + 50)]}


def grid(tier):
    top = 3000 if tier == "quick" else 60000
    for n in range(top):
        yield {"n": n, "text": spell.spell_ordinal(n)}
        if n < 1000:
            yield {"n": n, "text": spell.spell_ordinal(n, lambda o: o[-1])}
    for e in range(3, 24):
        for k in (1, 3, 10, 12, 20, 99, 100, 500, 999):
            for r in (0, 1, 2, 3, 5, 8, 9, 12, 15, 20, 21, 40, 80, 90, 100, 1000, 1003, 100000, 2000000):
                n = k * 10 ** e + r
                if n < spell.LIMIT["en"] and r < 10 ** e:
                    yield {"n": n, "text": spell.spell_ordinal(n)}


@st.composite
def ordinals(draw):
    n, s = draw(gen.ordinal())
    return {"n": n, "text": gen.dress(draw, s)}


@st.composite
def in_sentence(draw):
    text, want = [], []
    prev = None
    kinds = set()
    for _ in range(draw(st.integers(2, 7))):
        k = draw(st.sampled_from("oonwww"))
        if k != "w" and prev == "n":
            k = "w"
        if k == "o":
            n, s = draw(gen.ordinal())
            s = gen.case_variant(draw, s)
            o = str(n)
        elif k == "n":
            n, s = draw(gen.numeral("en"))
            o = str(n)
        else:
            s = draw(gen.filler("en"))
            if draw(st.integers(0, 3)) == 0:
                s += draw(st.sampled_from("!?;:)"))
            o = s
        text.append(s)
        want.append(o)
        prev = k
        kinds.add(k)
    glue = draw(st.sampled_from([" ", " ", ", ", ". ", "\n", "\t", "  "]))
    return {"text": glue.join(text), "want": glue.join(want), "loose": glue.isspace() and glue != " ", "kind": "sentence:" + "".join(sorted(kinds))}


def glued(tier):
    firsts = ["first", "second", "third", "fourth", "fifth", "ninth", "twelfth", "twentieth", "ninetieth",
              "hundredth", "thousandth", "millionth"]
    val = {o: LEX["en"].lookup(c)[1] for o, c in ORDINALS.items()}
    every = sorted(ORDINALS)
    for o in every:
        for form in (o, o.upper(), o.capitalize()):
            for text, want in (
                    (f"the {form} day", f"the {val[o]} day"), (f"{form},", f"{val[o]},"), (f"({form})", None),
                    (f"{form} place", f"{val[o]} place"), (f"on the {form}.", f"on the {val[o]}.")):
                if want:
                    yield {"text": text, "want": want, "kind": "sentence:o"}
        for p in firsts:
            yield {"text": f"{p} {o}", "want": f"{val[p]} {val[o]}", "kind": "ordinal ends number"}
        for c in ("one", "five", "twelve", "twenty", "hundred", "thousand", "million", "sextillion", "zero"):
            v = LEX["en"].lookup(c)[1]
            yield {"text": f"{o} {c}", "want": f"{val[o]} {v}", "kind": "ordinal ends number"}
            yield {"text": f"the {o} {c} x", "want": f"the {val[o]} {v} x", "kind": "ordinal ends number"}
            yield {"text": f"{o} and {c}", "want": f"{val[o]} and {v}", "kind": "ordinal ends number"}
    for u in range(1, 10):
        for t in range(20, 100, 10):
            a, b = spell.EN_TENS[t // 10], spell.spell_ordinal(u)
            for g in ("-", " "):
                yield {"text": f"his {a}{g}{b} try", "want": f"his {t + u} try", "kind": "sentence:o"}


def look_alikes(tier):
    three = "three"
    pool = words.EN_ORDINAL_LIKE + [w for w in words.NEAR["en"]]
    extra = []
    for o in sorted(ORDINALS):
        extra += [o + "s", o + "ly", o + "x", "x" + o, o[:-1], "re" + o, o + "ary", o + "er", o + o[-1]]
    for n in list(range(0, 130)) + [1000, 1001, 2023, 10 ** 6]:
        extra += [f"{n}{x}" for x in ("st", "nd", "rd", "th", "ths", "ieth")]
    for w in pool + extra:
        lw = w.lower()
        if lw in ORDINALS or LEX["en"].lookup(w):
            continue
        if lw.endswith("th") and LEX["en"].lookup(lw[:-2]):
            continue
        for form in (w, w.upper(), w.capitalize()):
            yield {"text": form, "want": form, "kind": "look-alike"}
            yield {"text": f"{three} {form} {three}", "want": f"3 {form} 3", "kind": "look-alike"}


def misspelled(tier):
    """Every word within one edit of an ordinal, in batches."""
    out = set()
    for o in sorted(ORDINALS):
        out |= words.edits(o, words.ALPHABET["en"])
        out |= {o + "s", o + "es", o + "ly", o + "ing", o + "ed", o + "ary", o + "ths", "un" + o}
        for p in sorted(ORDINALS):
            out.add(p + o)
    out = sorted(w for w in out if w not in ORDINALS and LEX["en"].lookup(w) is None and not
                 (w.endswith("th") and LEX["en"].lookup(w[:-2])) and w != "and")
    for i in range(0, len(out), 150):
        yield {"words": out[i:i + 150]}


def all_untouched(case):
    text = " ".join(case["words"])
    if call("parse", text, "en") != text:
        for w in case["words"]:
            expect_parse(w, "en", w)
        expect_parse(text, "en", text)
    for w in case["words"][::3]:
        expect_number(w, "en", None, fn="parse_ordinal")
    return "look-alike"


@st.composite
def token_soup(draw):
    toks = []
    for _ in range(draw(st.integers(1, 8))):
        w = draw(st.one_of(st.sampled_from(sorted(ORDINALS)), st.sampled_from(soup.ALLWORDS["en"]),
                           st.sampled_from(soup.ALLWORDS["en"]),
                           st.sampled_from(["and", "and", "hundred", "thousand", "million", "cats", "with", "12"])))
        w = draw(st.sampled_from([w, w, w, w.upper(), w.title()]))
        if toks:
            toks.append(draw(st.sampled_from([" ", " ", " ", "-", "  ", ", "] if
                                             draw(st.integers(0, 9)) == 0 else [" ", " ", "-"])))
        toks.append(w)
    if draw(st.integers(0, 2)) == 0:
        ws = draw(st.sampled_from([" ", "\n", "\xa0", "\t", "\u3000"]))
        toks = [t if t != " " else ws for t in toks]
        toks = draw(st.sampled_from([[], [ws]])) + toks + draw(st.sampled_from([[], [ws], ["."], [" cats", ws]]))
    return {"tokens": toks}


@st.composite
def almost(draw):
    """A numeral with one or two of its words made ordinal."""
    n, s = draw(gen.numeral("en"))
    toks = s.replace("-", " ").split(" ")
    back = {c: o for o, c in ORDINALS.items()}
    for i in draw(st.sets(st.integers(0, len(toks) - 1), min_size=1, max_size=2)):
        toks[i] = back.get(toks[i], toks[i])
    out = [toks[0]]
    for t in toks[1:]:
        out += [" ", t]
    return {"tokens": out}


TESTS = [Enum("other_languages", other_languages, foreign),
         Enum("grid", grid, alone, shards=6), Prop("ordinals", ordinals, alone, 6000),
         Enum("glued", glued, untouched, shards=4), Enum("look_alikes", look_alikes, untouched, shards=4),
         Enum("misspelled", misspelled, all_untouched), Prop("sentences", in_sentence, sentence, 4000), Prop("soup", token_soup, cardinalised, 4000),
         Prop("almost", almost, cardinalised, 4000)]
