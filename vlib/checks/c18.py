"""C18: an unsupported language is refused."""
import os

from hypothesis import strategies as st

from .. import gen, soup, target
from ..lexicon import LANGS, LEX
from ..runner import Enum, Prop
from ..target import REPO, Violation, expect, expect_number, show

RULE = ("Every language with a data file but no support, every case and locale variant of the supported codes, and random "
        "strings, with texts holding words: parse, parse_ordinal, parse_number and parse_fraction must raise ValueError, and a "
        "supported language must still work afterwards. Non-trivial: every case.")


def oracle(case):
    lang = case["lang"]
    for fn, text in (("parse", case["text"]), ("parse_number", case["word"]), ("parse_ordinal", case["word"]),
                     ("parse_fraction", case["word"] + " / " + case["word"])):
        try:
            r = getattr(target.load(), fn)(text, lang)
        except ValueError:
            pass
        except Exception as e:   # noqa: BLE001
            raise Violation(f"{fn}({text!r}, {lang!r}) raised {type(e).__name__}: {e}, expected ValueError") from None
        else:
            raise Violation(f"{fn}({text!r}, {lang!r}) == {show(r)}, expected ValueError")
    expect_number("twenty one", "en", 21)
    return case["kind"]


def known_bad(lang):
    return lang not in LANGS and lang is not None


def names(tier):
    stems = set()
    for d in ("number_parser/data", "number_parser_data/raw_cldr_translation_data"):
        p = os.path.join(REPO, d)
        if os.path.isdir(p):
            stems |= {f.rsplit(".", 1)[0] for f in os.listdir(p) if f.endswith((".py", ".json"))}
    for s in sorted(stems | {"root", "__init__"}):
        for v in {s, s.upper(), s.capitalize(), s.replace("-", "_"), s + " "}:
            if known_bad(v):
                yield {"lang": v, "text": "two hats", "word": "two", "kind": "data file"}
    extra = ["", " ", "xx", "english", "English", "spanish", "../data/en", "en.py", "en;", ".en", "en.", "data.en", "eng",
             "en\n", "\x00", "e", "n", "none", "None", "0", "e\xadn", "еn", "ｅｎ", "en\u0301", "en,es", "*"]
    for lang in LANGS:
        extra += [lang.upper(), lang.title(), " " + lang, lang + " ", lang + "-US", lang + "_US", lang + "-" + lang,
                  lang * 2, lang[::-1], lang[:1], lang + "\n"]
    for v in dict.fromkeys(extra):
        if known_bad(v):
            for i, x in enumerate(LANGS):
                w = sorted(LEX[x].words)[len(v) % 7]
                yield {"lang": v, "text": [w, "zq " + w, "", "12", "first", " "][(i + len(v)) % 6], "word": w,
                       "kind": "variant"}


@st.composite
def random_names(draw):
    lang = draw(st.one_of(st.text(max_size=5), st.text(alphabet="enshirukdftp-_ ENS", max_size=4)).filter(known_bad))
    x = draw(gen.LANG)
    word = st.sampled_from(soup.ALLWORDS[x]) if draw(st.booleans()) else gen.numeral(x).map(lambda t: t[1])
    return {"lang": lang, "text": draw(soup.soup(x, max_size=4)) * draw(st.sampled_from([1, 1, 1, 5, 60])), "word": draw(word),
            "kind": "random"}


TESTS = [Enum("names", names, oracle), Prop("random_names", random_names, oracle, 4000)]
_ = expect
