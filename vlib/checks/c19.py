"""C19: the data modules are what the generator makes of the sources."""
import json

from hypothesis import strategies as st

from .. import generator as g
from ..runner import Enum, Prop
from ..target import expect

RULE = ("Enumerated: every committed data module against the one the generator script makes from the committed sources in a "
        "scratch copy, under several hash seeds, in an ASCII locale, from another working directory and over old output. Generated: the same with the supplementary file edited (entries in another "
        "order, new words, changed values, connectors): exactly the edited entries may change. Non-trivial: every module "
        "compared, and every edit that changes the sources.")
_made = {}


def regenerate(seed, way="plain"):
    """way: plain, ascii (locale), elsewhere (working directory), again (over old, longer output)"""
    if (seed, way) not in _made:
        with g.Scratch() as s:
            for name in g.sources():
                s.put(g.RAW, name, g.read(g.RAW, name))
                try:
                    s.put(g.SUPP, name, g.read(g.SUPP, name))
                except FileNotFoundError:
                    pass
            if way == "again":
                s.run(seed)
                for name in list(s.outputs()):
                    s.put(g.OUT, name, s.outputs()[name] + "# old\n" * 500)
            s.run(seed, way == "ascii", "/" if way == "elsewhere" else None)
            _made[seed, way] = s.outputs()
    return _made[seed, way]


def ordered(info):
    """Comparable contents: sections with their entries in order, and value types."""
    out = {}
    for k, v in info.items():
        out[k] = [(w, type(x).__name__, x) for w, x in v.items()] if isinstance(v, dict) else (type(v).__name__, v)
    return out


def committed(case):
    made = regenerate(case["hashseed"], case.get("way", "plain"))
    name = case["module"]
    expect(name in made, f"the generator writes no {name}")
    first = regenerate(0)[name]
    expect(made[name] == first, f"{name} differs between runs of the generator")
    a, b = g.load_info(g.read(g.OUT, name), name), g.load_info(made[name], name)
    if ordered(a) != ordered(b):
        def minus(x, y, k):
            return sorted(set(map(str, x.get(k, {}).items())) - set(map(str, y.get(k, {}).items())))[:3]
        diff = [f"{k}: committed {minus(a, b, k)} generated {minus(b, a, k)}" for k in g.SECTIONS if a.get(k) != b.get(k)]
        diff += [f"{k}: committed {a.get(k)} generated {b.get(k)}" for k in ("SKIP_TOKENS", "USE_LONG_SCALE")
                 if a.get(k) != b.get(k)]
        expect(False, f"{name} is not what the sources generate: " + ("; ".join(diff) or "the order differs"))
    return "module" if case.get("way", "plain") == "plain" else "module, " + case["way"]


def modules(tier):
    import os
    from ..target import REPO
    names = {n.rsplit(".", 1)[0] + ".py" for n in g.sources() if n not in g.SKIPPED}
    names |= {n for n in os.listdir(os.path.join(REPO, g.OUT)) if n.endswith(".py") and n not in ("__init__.py", "root.py")}
    for hs in [0] if tier == "quick" else [0, 1, 2, 3]:
        for n in sorted(names):
            yield {"module": n, "hashseed": hs}
    for n in ("en.py", "es.py", "hi.py", "ru.py", "uk.py", "fr.py", "de.py"):
        yield {"module": n, "hashseed": 5}
    for way in ("ascii", "elsewhere", "again"):
        for n in sorted(names):
            yield {"module": n, "hashseed": 2, "way": way}


def edited(case):
    with g.Scratch() as s:
        want = {}
        for e in case["edits"]:
            name = e["lang"] + ".json"
            supp = json.loads(g.read(g.SUPP, name))
            info = g.load_info(g.read(g.OUT, e["lang"] + ".py"), e["lang"])
            for section, word, value in e["set"]:
                supp[section][word] = value
                info[section][word] = value
            supp["SKIP_TOKENS"] = supp["SKIP_TOKENS"] + e["connectors"]
            info["SKIP_TOKENS"] = sorted(info["SKIP_TOKENS"] + e["connectors"])
            if e["reverse"]:
                supp = {k: dict(reversed(v.items())) if isinstance(v, dict) else v[::-1] if isinstance(v, list) else v
                        for k, v in reversed(supp.items())}
            if e["flip"] and "USE_LONG_SCALE" in info:
                supp["USE_LONG_SCALE"] = info["USE_LONG_SCALE"] = not info["USE_LONG_SCALE"]
            for k in g.SECTIONS:
                info[k] = dict(sorted(info[k].items(), key=lambda x: (x[1], x[0])))
            s.put(g.RAW, name, g.read(g.RAW, name))
            s.put(g.SUPP, name, supp)
            want[e["lang"] + ".py"] = info
        s.run(case["hashseed"])
        out = s.outputs()
    expect(set(out) == set(want), lambda: f"generated {sorted(out)}, expected {sorted(want)}")
    for name, info in want.items():
        got = g.load_info(out[name], name)
        for k in info:
            a, b = got.get(k), info[k]
            same = list(a.items()) == list(b.items()) if isinstance(b, dict) and isinstance(a, dict) else a == b
            expect(same, lambda: f"{name} {k}: generated {a}, expected {b} after the edit")
    return "edit" if any(e["set"] or e["connectors"] or e["flip"] or e["reverse"] for e in case["edits"]) else "-none"


VALUES = {"UNIT_NUMBERS": range(10), "DIRECT_NUMBERS": range(10, 100), "TENS": range(20, 100, 10),
          "HUNDREDS": range(100, 1000, 100), "BIG_POWERS_OF_TEN": [10 ** k for k in range(2, 22)]}
_langs = []


def languages():
    if not _langs:
        _langs.extend(n[:-5] for n in g.sources() if n not in g.SKIPPED)
    return _langs


@st.composite
def edits(draw):
    out = []
    for lang in draw(st.lists(st.sampled_from(languages()), min_size=1, max_size=4, unique=True)):
        sets = []
        info = g.load_info(g.read(g.OUT, lang + ".py"), lang)
        for _ in range(draw(st.integers(0, 4))):
            sec = draw(st.sampled_from(g.SECTIONS))
            v = draw(st.sampled_from(list(VALUES[sec])))
            old = list(info[sec])
            word = draw(st.sampled_from(old)) if old and draw(st.booleans()) else \
                "q" + draw(st.text(alphabet="abzйéнक'- ", max_size=6)) + "q"
            sets.append([sec, word, v])
        con = draw(st.lists(st.sampled_from(["et", "und", "и", "zz", "+", "aa"]), max_size=3, unique=True))
        con = [c for c in con if c not in info["SKIP_TOKENS"]]
        out.append({"lang": lang, "set": sets, "connectors": con, "reverse": draw(st.booleans()),
                    "flip": draw(st.integers(0, 4)) == 0})
    return {"edits": out, "hashseed": draw(st.sampled_from([0, 1, 9]))}


GUIDED = False      # every case runs in processes of its own
TESTS = [Enum("committed", modules, committed, shards=4), Prop("edits", edits, edited, 700)]
