"""A small interpreter of CLDR's rule-based number formats (RBNF), for integers.

Runs the frozen rule sets in lexicon/cldr/, so that numbers spelled by CLDR's own grammar can be read back.
"""
import json
import os
import re

HERE = os.path.dirname(os.path.abspath(__file__))


class Unsupported(Exception):
    pass


def plural(lang, n):
    if lang in ("ru", "uk"):
        if n % 10 == 1 and n % 100 != 11:
            return "one"
        if n % 10 in (2, 3, 4) and n % 100 not in (12, 13, 14):
            return "few"
        return "many"
    return "one" if n == 1 else "other"


class Rbnf:
    def __init__(self, lang, rules=None):
        self.lang = lang
        if rules is None:
            with open(os.path.join(HERE, "..", "lexicon", "cldr", lang + ".json"), encoding="utf8") as f:
                rules = json.load(f)
        self.sets = {}
        for name, rs in rules.items():
            out = []
            for key, text in rs.items():
                m = re.fullmatch(r"(\d+)(?:/(\d+))?", key)
                if m:
                    base, radix = int(m[1]), int(m[2] or 10)
                    exp = 0
                    while base and radix ** (exp + 1) <= base:
                        exp += 1
                    text = text.rstrip(";")
                    out.append((base, radix ** exp, text[1:] if text.startswith("'") else text))
            self.sets[name] = sorted(out)

    def names(self, part):
        return [k for k in self.sets if part in k and not k.startswith("%%")]

    def format(self, name, n, depth=0):
        if depth > 60:
            raise Unsupported
        rs = self.sets.get(name)
        i = max((i for i, r in enumerate(rs or ()) if r[0] <= n), default=None)
        if i is None:
            raise Unsupported
        base, div, text = rs[i]
        if "<" in text and ">" in text and base % div and n % div == 0 and i:
            base, div, text = rs[i - 1]
        if n % div == 0 and base:
            text = re.sub(r"\[[^\]]*\]", "", text)
        text = text.replace("[", "").replace("]", "")
        out, pos = [], 0
        for m in re.finditer(r"\$\(cardinal,(.*?)\)\$|<([^<]*)<|>([^>]*)>|=([^=]*)=", text):
            out.append(text[pos:m.start()])
            pos = m.end()
            if m[1] is not None:
                forms = dict(re.findall(r"(\w+)\{(.*?)\}", m[1]))
                out.append(forms.get(plural(self.lang, n // div), forms["other"]))
                continue
            sub = m[2] if m[2] is not None else m[3] if m[3] is not None else m[4]
            k = n // div if m[2] is not None else n % div if m[3] is not None else n
            if sub.startswith(("#", "0")):
                raise Unsupported
            out.append(self.format(sub or name, k, depth + 1))
        out.append(text[pos:])
        return "".join(out)
