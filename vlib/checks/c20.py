"""C20: what the generator takes out of spell-out rules."""
import json
import random
import re

from hypothesis import strategies as st

from .. import generator as g
from .. import literals
from ..runner import Enum, Prop
from ..target import expect

RULE = ("Random source languages in CLDR's JSON layout: rule sets of every kind of name, with rules for single words, compounds "
        "and multipliers (plain, with plural forms, with other delimiters), rules that must be ignored, soft hyphens, and a "
        "supplementary file that adds and overrides words. The expected vocabulary follows from how each rule was made. "
        "The committed CLDR sources, and files recombined from their rule sets, against a second extractor. "
        "Non-trivial: a language with at least three rules.")
SUFFIX = ["", "", "-masculine", "-year", "-verbose", "-feminine-genitive", "-x", "-native", "-financial", "-tens", "-old", "-neuter",
          "-reale", "-alternate2", "-with-article", "-m"]
STRINGS, INTS = literals.collect(literals.GENERATOR)      # a dictionary for the names, words and values
PARTS = [s.strip("-% ") for s in STRINGS if s.replace("-", "").strip("% ").isalpha() and s.islower() and len(s) < 20]
PARTS = sorted({p for p in PARTS if p and "cents" not in p and "cardinal" not in p and "numbering" not in p})
SUFFIX += ["-" + p for p in PARTS]
GOOD = st.builds(lambda p, s, x, y: p + s + x + y, st.sampled_from(["%", "%", "%%"]),
                 st.sampled_from(["spellout-cardinal", "spellout-numbering"]), st.sampled_from(SUFFIX),
                 st.sampled_from([""] * 12 + SUFFIX))
BAD = st.builds(lambda p, s, x: p + s + x, st.sampled_from(["%", "%%"]), st.sampled_from(
    ["spellout-ordinal", "and", "lenient-parse", "digits-ordinal", "commas", "cents", "spellout-numbering-cents",
     "spellout-cardinal-cents", "spellout-prefixed", "spellout", "cardinal", "numbering", "2d", "hundreds", "tens", "ord"]),
    st.sampled_from(SUFFIX))
WORD = st.one_of(
    st.text(alphabet="abcdefghijklmnopqrstuvwxyzéüßабвгдежзийकখगचतपनाि-", min_size=1, max_size=7).filter(
        lambda w: w.strip("-") == w),
    st.text(alphabet="abcdefghijklmnopqrstuvwxyzéüßабвгдежзийكखগचतपनाि-'’ʼABÉЖ一二千〇ٱأ", min_size=1, max_size=45).filter(
        lambda w: w.strip("-") == w),
    st.builds(lambda a, w, b: a + w + b, st.sampled_from(["", "x", "un-", "é"]),
              st.sampled_from(["true", "false", "null", "ERROR", "True", "error", "info", "and"] + PARTS),
              st.sampled_from(["", "", "s", "be", "-x", "न"])).filter(lambda w: w != "ERROR"))


@st.composite
def rule(draw, word):
    """(key, text, [(section, word, value)])"""
    kind = draw(st.sampled_from(["unit", "direct", "tens", "hundreds", "scale", "plural", "unit", "scale",
                                 "compound1", "glued", "equal", "error", "noninteger", "big word", "tenscale"]))
    w = word()
    rest = draw(st.sampled_from(["[ >>]", "[->>]", "[>>]", ">>", "[ and >>]", "[ >%spellout-x>]", " >>"]))
    text_w = w
    if draw(st.integers(0, 3)) == 0:
        text_w = "".join(c + "\xad" * draw(st.sampled_from([0, 1, 1, 2])) for c in w)
    quot = draw(st.sampled_from(["<<", "<%spellout-cardinal-feminine<", "<%%x<"]))
    if kind == "unit":
        n = draw(st.integers(0, 9))
        return str(n), text_w + ";", [("UNIT_NUMBERS", w, n)]
    if kind == "direct":
        n = draw(st.integers(10, 99))
        return str(n), text_w + ";", [("DIRECT_NUMBERS", w, n)]
    if kind == "tens":
        n = draw(st.integers(2, 9)) * 10
        return str(n), text_w + rest + ";", [("TENS", w, n)]
    if kind == "hundreds":
        n = draw(st.integers(2, 9)) * 100
        return str(n), text_w + rest + ";", [("HUNDREDS", w, n)]
    e = draw(st.integers(2, 18))
    k = draw(st.sampled_from([1, 1, 1, 2, 3]))
    if kind == "scale":
        return str(k * 10 ** e), f"{quot} {text_w}{rest};", [("BIG_POWERS_OF_TEN", w, 10 ** e)]
    if kind == "plural":
        forms = [w] + [word() for _ in range(draw(st.integers(0, 2)))]
        names = ["one", "few", "other"] if len(forms) == 3 else ["one", "other"] if len(forms) == 2 else ["other"]
        body = "".join(f"{a}{{{b}}}" for a, b in zip(names, forms))
        return str(k * 10 ** e), f"{quot} $(cardinal,{body})${rest};", \
            [("BIG_POWERS_OF_TEN", f, 10 ** e) for f in forms]
    if kind == "tenscale":
        return "10", f"{quot} {w}{rest};", []
    if kind == "compound1":
        return str(draw(st.sampled_from([10, 100, 1000, 11, 21, 35, 2000, 30000]))), w + rest + ";", []
    if kind == "glued":
        return str(k * 10 ** e), f"{quot}{w}{rest};", []
    if kind == "equal":
        return str(draw(st.sampled_from([0, 2, 20, 100]))), draw(st.sampled_from(
            ["=%spellout-cardinal=;", w + " =%x=;", "=#,##0=;"])), []
    if kind == "error":
        return str(draw(st.integers(0, 99))), draw(st.sampled_from(["ERROR;", ";"])), []
    if kind == "noninteger":
        return draw(st.sampled_from(["-x", "x.x", "Inf", "NaN", "100000/1000", "x,x"])), w + ";", []
    return str(draw(st.sampled_from([100, 200, 1000, 10 ** 6]))), w + ";", []


@st.composite
def language(draw):
    used = set()

    def word():
        w = draw(WORD)
        while w in used:
            w += "x"
        used.add(w)
        return w

    rules, want, earlier = {}, {k: {} for k in g.SECTIONS}, []
    count = 0
    for good, name in draw(st.lists(st.one_of(*[GOOD.map(lambda x: (True, x))] * 2, BAD.map(lambda x: (False, x))),
                                    min_size=1, max_size=draw(st.sampled_from([5, 5, 5, 12])), unique=True)):
        rs = {}
        if good and earlier and draw(st.integers(0, 2)) == 0:
            # the same words again, as in the other genders and cases
            for key, text, adds in draw(st.lists(st.sampled_from(earlier), max_size=6)):
                rs.setdefault(key, text)
        for _ in range(draw(st.integers(0, draw(st.sampled_from([7, 7, 7, 30]))))):
            key, text, adds = draw(rule(word))
            if key in rs:
                continue
            rs[key] = text
            count += 1
            if good:
                earlier.append((key, text, adds))
                for sec, w, v in adds:
                    want[sec][w] = v
        rules[name] = rs
    supp = g.supplementary(USE_LONG_SCALE=draw(st.booleans()),
                           SKIP_TOKENS=draw(st.lists(st.sampled_from(["and", "-", "y", "und", "Z", "и"]), unique=True)))
    for _ in range(draw(st.integers(0, 4))):
        sec = draw(st.sampled_from(g.SECTIONS))
        v = draw(st.integers(0, 9)) if sec != "BIG_POWERS_OF_TEN" else 10 ** draw(st.integers(2, 15))
        w = draw(st.sampled_from(sorted(want[sec]))) if want[sec] and draw(st.booleans()) else word()
        supp[sec][w] = float(v) if draw(st.booleans()) else v
        want[sec][w] = v
    info = {k: dict(sorted(want[k].items(), key=lambda x: (x[1], x[0]))) for k in g.SECTIONS}
    info["SKIP_TOKENS"] = sorted(supp["SKIP_TOKENS"])
    info["USE_LONG_SCALE"] = supp["USE_LONG_SCALE"]
    missing = draw(st.integers(0, 9)) == 0
    raw = {"rbnf": {"identity": {"language": "x"}, "rbnf": {"OrdinalRules": {}} if missing else {"SpelloutRules": rules}}}
    return {"raw": raw, "supp": supp, "info": None if missing else info, "rules": count}


@st.composite
def trees(draw):
    langs = draw(st.lists(language(), min_size=1, max_size=8))
    names = draw(st.permutations(["aa", "en", "zz", "de-CH", "x1", "ru", "b", "es"]))
    return {"langs": {n: x for n, x in zip(names, langs)}, "skipped": draw(st.booleans())}


def oracle(case):
    with g.Scratch() as s:
        for name, x in case["langs"].items():
            s.put(g.RAW, name + ".json", x["raw"])
            s.put(g.SUPP, name + ".json", x["supp"])
        if case["skipped"]:
            for name in g.SKIPPED:
                s.put(g.RAW, name, {"rbnf": {"rbnf": {"SpelloutRules": {"%spellout-cardinal": {"1": "nope;"}}}}})
        s.run()
        out = s.outputs()
    want = {n + ".py" for n, x in case["langs"].items() if x["info"]}
    expect(set(out) == want, lambda: f"wrote {sorted(out)}, expected {sorted(want)}")
    for n, x in case["langs"].items():
        if not x["info"]:
            continue
        got = g.load_info(out[n + ".py"], n)
        expect(set(got) == set(x["info"]), lambda: f"{n}: sections {sorted(got)}")
        for k, b in x["info"].items():
            a = got[k]
            same = a == b and type(a) is type(b)
            if isinstance(b, dict) and same:
                same = list(a.items()) == list(b.items()) and all(type(v) is int for v in a.values())
            expect(same, lambda: f"{n} {k}: generated {a}, expected {b}")
    return "languages" if max(x["rules"] for x in case["langs"].values()) >= 3 else "-few rules"


# --- real rules: the committed sources, and recombinations of them, against a second extractor ---
def extract(rule_sets):
    """{section: {word: possible values}}; a word that several rules define may have the value of any of them."""
    out = {k: {} for k in g.SECTIONS}

    def add(section, word, value):
        out[section].setdefault(word, set()).add(value)
    for name, rules in rule_sets.items():
        if not ("spellout-cardinal" in name or "spellout-numbering" in name) or "cents" in name:
            continue
        for key, text in rules.items():
            text = text.replace("\xad", "").replace(";", "")
            if not key.isdecimal() or "=" in text:
                continue
            n, shape = int(key), (text.count("<"), text.count(">"))
            if shape == (0, 0):
                if text not in ("", "ERROR") and n < 100:
                    add("UNIT_NUMBERS" if n < 10 else "DIRECT_NUMBERS", text, n)
            elif shape == (0, 2):
                word = re.split(r"[\[>]", text)[0].strip()
                if word and n in range(20, 100, 10):
                    add("TENS", word, n)
                elif word and n in range(200, 1000, 100):
                    add("HUNDREDS", word, n)
            elif shape == (2, 2):
                rest = text[text.rindex("<") + 1:]
                zeros = len(key) - len(key.rstrip("0"))
                if rest.startswith(" ") and zeros >= 2:
                    found = re.findall("{([^}]*)}", rest) if "$" in rest else [re.split(r"[\[>]", rest)[0].strip()]
                    for word in found:
                        add("BIG_POWERS_OF_TEN", word, 10 ** zeros)
    return out


def compare(name, text, rule_sets, supp):
    got = g.load_info(text, name)
    want = extract(rule_sets)
    for k in g.SECTIONS:
        want[k].update({w: {int(v)} for w, v in supp[k].items()})
        a = got.get(k)
        expect(isinstance(a, dict) and set(a) == set(want[k]), lambda: f"{name} {k}: generated {sorted(set(a) - set(want[k]))[:5]} "
               f"too many, {sorted(set(want[k]) - set(a))[:5]} too few")
        for w, v in a.items():
            expect(type(v) is int and v in want[k][w], lambda: f"{name} {k}: {w!r} is {v!r}, the rules give {sorted(want[k][w])}")
        expect(list(a) == sorted(a, key=lambda w: (a[w], w)), lambda: f"{name} {k} is not sorted")
    expect(got.get("SKIP_TOKENS") == sorted(supp["SKIP_TOKENS"]), lambda: f"{name}: connectors {got.get('SKIP_TOKENS')}")
    expect(got.get("USE_LONG_SCALE") == supp.get("USE_LONG_SCALE"), lambda: f"{name}: long scale {got.get('USE_LONG_SCALE')}")


_real = {}


def real_rules():
    if not _real:
        for name in g.sources():
            rules = json.loads(g.read(g.RAW, name))["rbnf"]["rbnf"].get("SpelloutRules")
            if name not in g.SKIPPED and rules is not None:
                _real[name[:-5]] = rules
    return _real


def real(case):
    with g.Scratch() as s:
        for name in case["langs"]:
            s.put(g.RAW, name + ".json", g.read(g.RAW, name + ".json"))
            s.put(g.SUPP, name + ".json", g.read(g.SUPP, name + ".json"))
        s.run()
        out = s.outputs()
    for name in case["langs"]:
        expect(name + ".py" in out, f"nothing was written for {name}")
        compare(name, out[name + ".py"], real_rules()[name], json.loads(g.read(g.SUPP, name + ".json")))
    return "real sources"


def real_languages(tier):
    names = sorted(real_rules())
    for i in range(0, len(names), 8):
        yield {"langs": names[i:i + 8]}
    for n in names:
        yield {"langs": [n]}


@st.composite
def recombined(draw):
    """Rule sets of several languages in one file, some renamed, some rules moved to another number or hyphenated."""
    r = random.Random(draw(st.integers(0, 2 ** 40)))
    rules, files = real_rules(), {}
    for name in r.sample(["aa", "en", "zz", "de-CH", "x1", "ru", "b", "es"], r.randint(1, 3)):
        sets = {}
        for _ in range(r.randint(1, 6)):
            source = rules[r.choice(sorted(rules))]
            key = r.choice(sorted(source))
            new = dict(source[key])
            for _ in range(r.choice([0, 0, 1, 3, 8])):
                k = r.choice(sorted(new))
                change = r.random()
                if change < 0.4:
                    n = r.choice([r.randint(0, 99), r.randint(1, 9) * 10 ** r.randint(1, 3), 10 ** r.randint(2, 22)])
                    new[str(n)] = new[k]
                elif change < 0.7:
                    new[k] = "".join(c + "\xad" * (r.random() < 0.3) if c.isalpha() else c for c in new[k])
                else:
                    new.pop(k) if len(new) > 1 else None
            sets[r.choice([key, key, draw(GOOD), draw(BAD)])] = new
        supp = g.supplementary(USE_LONG_SCALE=r.random() < 0.5, SKIP_TOKENS=r.sample(["and", "-", "y", "und", "и"], r.randint(0, 3)))
        files[name] = {"sets": sets, "supp": supp}
    return {"files": files}


def mixture(case):
    with g.Scratch() as s:
        for name, x in case["files"].items():
            s.put(g.RAW, name + ".json", {"rbnf": {"identity": {"language": name}, "rbnf": {"SpelloutRules": x["sets"]}}})
            s.put(g.SUPP, name + ".json", x["supp"])
        s.run()
        out = s.outputs()
    words = 0
    for name, x in case["files"].items():
        expect(name + ".py" in out, f"nothing was written for {name}")
        compare(name, out[name + ".py"], x["sets"], x["supp"])
        words += sum(len(v) for v in extract(x["sets"]).values())
    return "recombined rules" if words >= 3 else "-few words"


GUIDED = False      # every case runs in processes of its own
TESTS = [Prop("trees", trees, oracle, 1000), Enum("real", real_languages, real, shards=4),
         Prop("recombined", recombined, mixture, 400)]
