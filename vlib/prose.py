"""Dense prose over a tiny vocabulary, and a reference model of what parse makes of it.

A text is a list of tokens [kind, text, gap before]; kinds: w number word, c connector, o English ordinal word, t ordinary
word, d digits, s symbol, p full stop or comma.
"""
from . import soup, spell, words
from .lexicon import LEX, ORDINALS

DIGITS = ["7", "12", "2020", "007", "3", "100", "1000000", "44"]
SYM = [s for s in words.SYMBOLS if s not in "'’"]


def vocabulary(lang, r):
    lx = LEX[lang]
    v = {"t": [r.choice(words.ALL_FILLERS[lang] if r.random() < .7 else words.NEAR[lang]) for _ in range(r.randint(1, 3))],
         "w": [r.choice(soup.ALLWORDS[lang] if r.random() < .8 else soup.KNOWN[lang]) for _ in range(r.randint(1, 4))],
         "n": [spell.spell(lang, r.randrange(10 ** r.randint(1, 10)), r.choice) for _ in range(r.randint(1, 3))],
         "d": [r.choice(DIGITS) for _ in range(2)], "s": [r.choice(SYM) for _ in range(2)],
         "p": [r.choice([",", "."]), r.choice([",", ".", " ,", " ."])],
         "c": [r.choice([str, str, str.upper, str.capitalize])(r.choice(lx.connectors)) for _ in range(2)] if lx.connectors else []}
    if r.random() < .5:
        v["t"] = [r.choice([str, str.capitalize, str.upper])(w) for w in v["t"]]
    if r.random() < .3:
        v["w"] = [r.choice([str, str.capitalize, str.upper])(w) for w in v["w"]]
    if lang == "en":
        v["o"] = [r.choice(sorted(ORDINALS)) for _ in range(2)]
        v["m"] = [spell.spell_ordinal(r.randrange(10 ** r.randint(1, 7)), r.choice)]
    kinds = [k for k in v if v[k]]
    weights = [r.choice([0, 1, 1, 2, 5]) for _ in kinds]
    if not any(weights):
        weights[0] = 1
    v["_"] = (kinds, weights)
    return v


def split(lang, s):
    """The tokens of a spelled number (hyphens are connectors in English)."""
    out = []
    for i, part in enumerate(s.split(" ")):
        sub = part.split("-") if "-" in LEX[lang].connectors and len(part) > 1 else [part]
        for j, w in enumerate(sub):
            if j:
                out.append(["c", "-", ""])
            gap = "" if j or not i else " "
            kind = "c" if LEX[lang].is_connector(w) else "w" if LEX[lang].lookup(w) is not None else "o"
            out.append([kind, w, gap])
    return out


def make(lang, r, size, v=None):
    """Tokens; single spaces follow numbers and connectors, other gaps vary."""
    v = v or vocabulary(lang, r)
    kinds, weights = v["_"]
    out = []
    for k in r.choices(kinds, weights, k=size):
        x = r.choice(v[k])
        if k in "nm":
            new = split(lang, x)
        elif k == "p":
            if not out or out[-1][1] == "-" or out[-1][0] == "p" or "-" in LEX[lang].connectors and len(out) > 1 and \
                    out[-1][0] == "c" and any(t[1] == "-" for t in out[-6:]):
                continue
            new = [["p", x.strip(), " " if x[0] == " " else ""]]
        else:
            new = [[k, x, ""]]
        if out and k != "p":
            new[0][2] = " " if out[-1][0] in "wcop" else r.choice([" "] * 5 + ["  ", "\n", "\t", " \n"])
        out += new
    return out


def text(tokens):
    return "".join(g + t for k, t, g in tokens)


def model(lang, tokens, read):
    """What parse must return; `read` is the composition rule of C11."""
    lx = LEX[lang]
    out, run = [], []
    gap = ""

    def flush():
        if run:
            out.append(gap + " ".join(map(str, read(lang, run))))
            run.clear()
    for k, t, g in tokens:
        if k in "wo" or k == "c" and run:
            if not run:
                gap = g
            if k == "w":
                run.append(("w",) + lx.lookup(t))
            elif k == "o":
                run.append(("w",) + lx.lookup(ORDINALS[t.lower()]))
                flush()
            else:
                run.append(("c", t))
        else:
            flush()
            out.append(g + t)
    flush()
    return "".join(out)
