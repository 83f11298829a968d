"""C11: any sequence of number words is read by one composition grammar."""
from hypothesis import strategies as st

from .. import gen, target
from ..lexicon import LANGS, LEX
from ..runner import Enum, Prop
from ..target import expect, expect_number, expect_parse
from .c07 import PIECE

RULE = ("A reference reader (vlib/checks/c11.py, Reader) decides where one number ends and the next begins and what each is "
        "worth. Enumerated: all pairs and triples over representatives of every class and scale. Generated: sequences of up to "
        "14 words of one language with connectors anywhere. Sequences on which the grammar itself is ambiguous (a scale word "
        "directly after an equal group, or after a zero word) are skipped and counted as trivial. Non-trivial: two words or more.")


class Ambiguous(Exception):
    pass


class Reader:
    """whole = closed + group; a scale word multiplies the whole number so far when it is larger than it, else the
    current group, which it then closes."""

    def __init__(self, lang):
        self.top = LEX[lang].max_group
        self.out = []
        self.reset()

    def reset(self):
        self.closed = self.group = 0
        self.last_scale = None
        self.prev = None

    def flush(self):
        self.out.append(self.closed + self.group)
        prev = self.prev
        self.reset()
        return prev

    def word(self, cls, v):
        """True if the word starts a new number."""
        whole = self.closed + self.group
        new = False
        if cls == "scale":
            if self.group == v or (self.prev and self.prev[1] == 0):
                raise Ambiguous
            if whole > 0 and v > whole and v != 100:
                self.closed, self.group, self.last_scale = whole * v, 0, v
                self.prev = (cls, v)
                return False
            joins = self.prev is None or (v >= self.group and not (
                self.closed and self.last_scale and v >= self.last_scale))
            if not joins:
                self.flush()
                new = True
            self.group = max(self.group, 1) * v
            if v > self.top:
                self.closed += self.group
                self.group = 0
                self.last_scale = v
        else:
            if self.prev is not None and self.prev[0] != "scale" and gen.separate(self.prev[0], cls):
                self.flush()
                new = True
            self.group += v
        self.prev = (cls, v)
        return new


def read(lang, items):
    """items: ('w', cls, value) or ('c', connector) -> list of ints and retained connectors."""
    r = Reader(lang)
    out, pending = [], []
    started = False
    for it in items:
        if it[0] == "c":
            (pending if started else out).append(it[1])
            continue
        n0 = len(r.out)
        if r.word(it[1], it[2]):
            out.append(r.out[n0])
            out += pending
        pending = []
        started = True
    if started:
        r.flush()
        out.append(r.out[-1])
    return out + pending


def oracle(case):
    lang, words = case["lang"], case["words"]
    items = []
    for w in words:
        cv = LEX[lang].lookup(w)
        items.append(("w",) + cv if cv else ("c", w))
    try:
        want = read(lang, items)
    except Ambiguous:
        return "-ambiguous"
    text = " ".join(words)
    expect_parse(text, lang, " ".join(map(str, want)))
    ints = [x for x in want if type(x) is int]
    if items[0][0] == "c" or not ints:
        expect_number(text, lang, None)
    elif len(ints) > 1:
        expect_number(text, lang, None)
    elif items[-1][0] == "w":
        expect_number(text, lang, ints[0])
    k = len(words)
    return f"{lang}:{len(ints)} of {k if k < 6 else '6+'}" if k > 1 else f"-{lang}:1 word"


def reps(lang):
    lx = LEX[lang]
    by = {}
    for w, (c, v) in lx.words.items():
        by.setdefault(c, {}).setdefault(v, w)
    out = []
    for c, vs in by.items():
        vals = sorted(vs)
        if c == "scale":
            keep = [v for v in vals if v <= 10 ** 12]
            keep = keep[:6] + vals[-1:]
        elif c in ("unit", "direct"):
            keep = [v for v in vals if v in (0, 1, 2, 9, 10, 12, 21)] + vals[-1:]
        else:
            keep = [vals[0], vals[-1]]
        out += [vs[v] for v in dict.fromkeys(keep)]
    return out


def short(tier):
    for lang in LANGS:
        words = list(LEX[lang].words)
        rs = reps(lang)
        con = LEX[lang].connectors
        for a in words:
            for b in words if tier == "thorough" else rs:
                yield {"lang": lang, "words": [a, b]}
        for a in rs:
            for b in rs:
                for c in rs:
                    yield {"lang": lang, "words": [a, b, c]}
                for c in con:
                    yield {"lang": lang, "words": [a, c, b]}
                    yield {"lang": lang, "words": [c, a, b, c]}
        if tier == "thorough":
            for a in rs:
                for b in rs:
                    for c in rs:
                        for d in rs:
                            yield {"lang": lang, "words": [a, b, c, d]}


@st.composite
def sequences(draw, only=None):
    lang = draw(gen.LANG)
    lx = LEX[lang]
    by = {}
    for w, (c, v) in lx.words.items():
        by.setdefault(c, []).append(w)
    cls = st.sampled_from(sorted(by) + ["scale", "unit"])
    if only:
        w = st.sampled_from([x for x in lx.words if lx.words[x][0] in only])
    else:
        w = cls.flatmap(lambda c: st.sampled_from(by[c]))
    if lx.connectors:
        w = st.one_of(w, w, w, w, st.sampled_from([c for c in lx.connectors]))
    return {"lang": lang, "words": draw(st.lists(w, min_size=1, max_size=14))}


@st.composite
def long_sequences(draw):
    lang = draw(gen.LANG)
    lx = LEX[lang]
    r = gen.rng(draw)
    by = {}
    for w, (c, v) in lx.words.items():
        by.setdefault(c, []).append(w)
    kinds = sorted(by) + (["con"] if lx.connectors else [])
    weights = [r.choice([0, 1, 1, 3, 8]) for _ in kinds]
    if not any(weights):
        weights[0] = 1
    k = gen.length(draw, r, [20, 60, 200], 15)
    ws = [r.choice(lx.connectors if c == "con" else by[c]) for c in r.choices(kinds, weights, k=k)]
    # no scale word after a zero or an equal group, where the reading is not claimed
    return {"lang": lang, "words": [w for w in ws if lx.lookup(w) is None or lx.lookup(w)[1]]}


def scale_heavy():
    return sequences(only=("scale", "unit", "hundreds"))


@st.composite
def rendered(draw):
    """The same with other white space, letter case, and hyphens glued to the words."""
    case = draw(sequences())
    lang, words = case["lang"], case["words"]
    text = ""
    for i, w in enumerate(words):
        if w != "-":
            w = gen.case_variant(draw, w)
        if i:
            gap = draw(st.sampled_from([" ", " ", "  ", "\n", "\t", "\u00a0", "\u3000"]))
            if "-" in (w, words[i - 1]) and draw(st.integers(0, 3)):
                gap = ""
            text += gap
        text += w
    return dict(case, text=draw(st.sampled_from(["", "", " ", "\n"])) + text + draw(st.sampled_from(["", "", " ", "\t"])))


def pieces(case):
    lang = case["lang"]
    items = []
    for w in case["words"]:
        cv = LEX[lang].lookup(w)
        items.append(("w",) + cv if cv else ("c", w))
    try:
        want = read(lang, items)
    except Ambiguous:
        return "-ambiguous"
    got = target.parse(case["text"], lang)
    expect([x.casefold() for x in PIECE.findall(got)] == [str(x).casefold() for x in want], lambda:
           f"parse({case['text']!r}, {lang!r}) == {got!r}, expected the pieces {want}")
    ints = [x for x in want if type(x) is int]
    if items[-1][0] == "w":
        expect_number(case["text"], lang, ints[0] if len(ints) == 1 and items[0][0] == "w" else None)
    return f"{lang}:{len(ints)} numbers rendered" if len(items) > 1 else f"-{lang}:1 word"


TESTS = [Enum("short", short, oracle), Prop("rendered", rendered, pieces, 5000), Prop("sequences", sequences, oracle, 6000),
         Prop("scale_heavy", scale_heavy, oracle, 5000),
         Prop("long", long_sequences, oracle, 800)]
_ = (target, expect)
