"""Texts of which it is certain whose number words they hold most of."""
import zlib

from .lexicon import LANGS, LEX, ORDINALS, fold, maybe_ordinal, tokens_of


def least(lang, text):
    """Words that certainly count for the language."""
    lx = LEX[lang]
    return sum(1 for t in tokens_of(lang, text)
               if lx.lookup_strict(t) is not None or t.lower() in lx.connectors or lang == "en" and fold(t) in ORDINALS)


def most(lang, text):
    """Words and symbols that might count for it."""
    lx = LEX[lang]
    return sum(1 for t in tokens_of(lang, text)
               if lx.lookup(t) is not None or lx.is_connector(t) or lang == "en" and maybe_ordinal(t)) + \
        sum(text.count(c) for c in lx.connectors if not c.isalnum())


def clear(lang, text):
    """Is the language the one that must be found?"""
    if set("'’\xad") & set(text):
        return False
    k = least(lang, text) or (0.5 if lang == "en" else 0)
    return all(k > most(x, text) for x in LANGS if x != lang)


def numberless(text):
    """Has the text no number word in any language?"""
    return not set("'’\xad") & set(text) and not any(most(x, text) for x in LANGS)


def chosen(text, one_in=8):
    """A fixed part of all texts: finding the language takes long."""
    return len(text) < 3000 and not zlib.crc32(text.encode("utf8", "surrogatepass")) % one_in


def also_undetected(lang, text, one_in=8):
    return lang is not None and chosen(text, one_in) and clear(lang, text)
