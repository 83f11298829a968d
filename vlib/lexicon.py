"""Frozen, reviewed vocabulary of the five languages (the oracle's own copy).

lexicon/<lang>.json maps each written form to its value; scale words are stored as
the exponent of ten.  The values were reviewed by hand (see DESIGN.md).
"""
import json
import os
import re
import unicodedata

HERE = os.path.dirname(os.path.abspath(__file__))
LANGS = ["en", "es", "hi", "ru", "uk"]
CLASSES = ["unit", "direct", "tens", "hundreds", "scale"]
LONG_SCALE = {"es"}

ORDINAL_ROOTS = ["first", "second", "third", "fifth", "eighth", "ninth", "twelfth"]


def fold(word):
    """Lower case, no combining marks, no apostrophes."""
    s = unicodedata.normalize("NFD", word.lower())
    return "".join(c for c in s if unicodedata.category(c) != "Mn" and c not in "'’ʼ\xad")


class Lexicon:
    def __init__(self, lang):
        self.lang = lang
        with open(os.path.join(HERE, "..", "lexicon", lang + ".json"), encoding="utf8") as f:
            raw = json.load(f)
        self.connectors = raw["connector"]
        self.words = {}       # written form -> (class, value)
        for cls in CLASSES:
            for w, v in raw[cls].items():
                self.words[w] = (cls, 10 ** v if cls == "scale" else v)
        self.folded = {fold(w): cv for w, cv in self.words.items()}
        self.strict = dict(self.folded)
        for w, cv in self.words.items():
            s = unicodedata.normalize("NFD", w)
            self.strict["".join(c for c in s if unicodedata.category(c) != "Mn"
                                and c not in "'’")] = cv
        self.forms = {}       # (class, value) -> sorted list of forms
        for w, cv in self.words.items():
            self.forms.setdefault(cv, []).append(w)
        for k in self.forms:
            self.forms[k].sort()
        self.scales = sorted({v for c, v in self.words.values() if c == "scale"})
        self.max_group = 10000 if lang in LONG_SCALE else 100

    def lookup(self, word):
        return self.folded.get(fold(word))

    def lookup_strict(self, token):
        """As the reader sees one token: a modifier apostrophe must be where it belongs."""
        s = unicodedata.normalize("NFD", token.lower())
        s = "".join(c for c in s if unicodedata.category(c) != "Mn" and c not in "'’")
        return self.strict.get(s)

    def is_connector(self, word):
        return fold(word) in self.connectors


LEX = {lang: Lexicon(lang) for lang in LANGS}

from . import spell as _spell  # noqa: E402

ORDINALS = {fold(o): c for c, o in _spell.ORDINAL_WORD.items()}   # ordinal -> cardinal


def maybe_ordinal(word):
    """Could a reader take this word for an English ordinal?  (deliberately generous)"""
    w = fold(word)
    return w.endswith("th") or any(r in w for r in ORDINAL_ROOTS)


def is_plain(lang, word):
    """Text that certainly contains no number, ordinal or connector of lang."""
    pieces = [word] + WORDISH.findall(word)
    return fold(word) != "" and not any(
        LEX[lang].lookup(p) is not None or LEX[lang].is_connector(p) or lang == "en" and maybe_ordinal(p)
        for p in pieces)


WORDISH = re.compile("(?:[^\\W]|[\u0300-\u036f\u0900-\u0903\u093a-\u094f\u0951-\u0957\u0962\u0963"
                     "\u200c\u200d])+")


def tokens_of(lang, text):
    """The words of a text (Ukrainian words may contain an apostrophe)."""
    if lang == "uk":
        w = WORDISH.pattern
        return re.findall(f"{w}(?:['’]{w})*", text)
    return WORDISH.findall(text)
