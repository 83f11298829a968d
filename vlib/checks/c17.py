"""C17: results depend on the arguments only."""
import json
import os
import resource
import signal
import subprocess
import sys
import tempfile
import threading

from hypothesis import strategies as st

from .. import gen, sched, soup, words
from ..lexicon import LANGS
from ..runner import Enum, Prop
from ..target import REPO, Violation, expect, load

RULE = ("Histories of up to 12 calls of the four functions (every language, detection, unsupported languages, odd text): each "
        "result must equal that of the same call as the first one in a fresh process image, also when the history is run in "
        "several threads at once (freely or under a generated schedule), reversed, repeated, after calls that failed or were interrupted at any line, or in a process with another string-hash seed, locale, directory or interpreter options. Non-trivial: the history "
        "holds two different calls.")
ASSUMPTIONS = ["forking right after import gives a fresh process image; schedules are controlled by line or byte code: one preemption at every line is enumerated, more are sampled"]
FNS = ["parse", "parse_number", "parse_ordinal", "parse_fraction"]
UNSUPPORTED = ["fr", "xx", "EN", ""]


def outcome(fn, text, lang, omit=False):
    f = getattr(load(), fn)
    try:
        r = f(text) if omit else f(text, lang)
        return [type(r).__name__, str(r)]
    except Exception as e:   # noqa: BLE001
        return ["raised " + type(e).__name__, str(e)]


def in_child(work):
    """Runs work() in a forked child; returns its JSON result."""
    load()
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            resource.setrlimit(resource.RLIMIT_CPU, (120, 120))
            signal.alarm(300)      # a deadlock
            with os.fdopen(w, "w", encoding="ascii") as f:
                json.dump(work(), f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, encoding="ascii") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise Violation("the process died or hung during these calls")
    return json.loads(data)


_fresh = {}


def fresh(c):
    k = json.dumps(c)
    if k not in _fresh:
        if len(_fresh) > 20000:
            _fresh.clear()
        _fresh[k] = in_child(lambda: outcome(*c))
    return _fresh[k]


def threaded(calls, k):
    sys.setswitchinterval(1e-6)
    res = [[None] * len(calls) for _ in range(k)]
    start = threading.Barrier(k)

    def run(i):
        start.wait()
        order = range(len(calls)) if i % 2 == 0 else reversed(range(len(calls)))
        for j in order:
            res[i][j] = outcome(*calls[j])
    ts = [threading.Thread(target=run, args=(i,)) for i in range(k)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return res


def oracle(case):
    calls, mode = case["calls"], case["mode"]
    k = case.get("probes")     # a long history compares its first and last k calls
    want = [fresh(c) if not k or i < k or i >= len(calls) - k else None for i, c in enumerate(calls)]
    if mode == "threads":
        runs = in_child(lambda: threaded(calls, 3))
    elif mode == "reversed":
        runs = [in_child(lambda: [outcome(*c) for c in reversed(calls)])[::-1]]
    elif mode == "repeated":
        runs = in_child(lambda: [[outcome(*c) for c in calls] for _ in range(5)])
    else:
        runs = [in_child(lambda: [outcome(*c) for c in calls])]
    for got in runs:
        for c, g, w in zip(calls, got, want):
            expect(w is None or g == w, lambda: f"{c[0]}({c[1]!r}, {c[2]!r}) gave {g} ({mode} history of {len(calls)} calls), but {w} "
                                   "as the first call")
    return mode if len({json.dumps(c) for c in calls}) > 1 else "-one call"


def scheduled(case):
    """Threads under a given schedule (see vlib/sched.py)."""
    threads = case["threads"]
    got = in_child(lambda: sched.run(threads, case["plan"], case["opcodes"], outcome))
    for calls, res in zip(threads, got):
        for c, g in zip(calls, res):
            w = fresh(c)
            expect(g == w, lambda: f"{c[0]}({c[1]!r}, {c[2]!r}) gave {g} while other threads ran under the schedule, but {w} "
                                   "alone")
    return "schedule" if len({json.dumps(c) for t in threads for c in t}) > 1 else "-one call"


def interrupted(case):
    """A call that is interrupted (KeyboardInterrupt) at some line is a failed call like any other."""
    a, after = case["call"], case["after"]
    got = in_child(lambda: sched.interrupted(a, case["at"], after, outcome))
    if got is None:
        return "-waits for ever"
    for c, g in zip(after, got):
        w = fresh(c)
        expect(g == w, lambda: f"{c[0]}({c[1]!r}, {c[2]!r}) gave {g} after {a[0]}({a[1]!r}, {a[2]!r}) was interrupted at its line "
                               f"event {case['at']}, but {w} as the first call")
    return "interrupted"


def hash_seeds(case):
    calls = case["calls"]
    prog = ("import sys, json; sys.dont_write_bytecode = True; sys.path.insert(0, sys.argv[1]); sys.path.insert(0, sys.argv[2])\n"
            "from vlib.checks.c17 import outcome\n"
            "print(json.dumps([outcome(*c) for c in json.load(sys.stdin)]))")
    root = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    env = dict(os.environ, PYTHONHASHSEED=str(case["hashseed"]), **case.get("env", {}))
    with tempfile.TemporaryDirectory() as cwd:
        p = subprocess.run([sys.executable, *case.get("options", []), "-c", prog, REPO, root], input=json.dumps(calls), env=env,
                           capture_output=True, text=True, encoding="ascii", cwd=cwd)
    if p.returncode:
        raise Violation("the process failed: " + p.stderr[-300:])
    got = json.loads(p.stdout)
    for c, g in zip(calls, got):
        w = fresh(c)
        expect(g == w, lambda: f"{c[0]}({c[1]!r}, {c[2]!r}) gave {g} in a process with PYTHONHASHSEED={case['hashseed']} "
                               f"{case.get('env', {})} {case.get('options', [])}, but {w} in this one")
    return "hash seed"


@st.composite
def call(draw):
    lang = draw(gen.LANG)
    kind = draw(st.sampled_from(["numeral", "soup", "words", "ordinal", "fraction"]))
    if kind == "numeral":
        text = draw(gen.numeral(lang, 10 ** 9))[1]
    elif kind == "soup":
        text = draw(soup.soup(lang, max_size=6))
    elif kind == "words":
        text = draw(soup.number_words(lang, max_size=5)) + " " + draw(gen.filler(lang))
    elif kind == "ordinal":
        text = draw(gen.ordinal(10 ** 6))[1]
    else:
        text = draw(gen.numeral(lang, 1000))[1] + draw(st.sampled_from([" / ", " over ", " by "])) + \
            draw(gen.numeral(lang, 1000))[1]
    use = draw(st.sampled_from([lang] * 5 + [None] * 3 + LANGS + ["fr", "xx", "EN", ""]))
    if draw(st.integers(0, 15)) == 0:     # a call that fails
        if draw(st.booleans()):
            text = draw(st.sampled_from(ODD))
        else:
            use = draw(st.sampled_from([5, ["en"], {"en": "en"}, True, "\ud800"]))
    return [draw(st.sampled_from(FNS)), text, use]


@st.composite
def histories(draw):
    calls = draw(st.lists(call(), min_size=2, max_size=12))
    if draw(st.booleans()):
        # the same text again, with other languages and functions
        c = draw(st.sampled_from(calls))
        calls.append([draw(st.sampled_from(FNS)), c[1], draw(st.sampled_from([None] + LANGS))])
        calls.append([c[0], c[1], draw(st.sampled_from([None] + LANGS))])
    return {"calls": calls, "mode": draw(st.sampled_from(["plain", "plain", "reversed", "repeated", "threads"]))}


@st.composite
def schedules(draw):
    n = draw(st.integers(2, 3))
    pool = draw(st.lists(call(), min_size=2, max_size=4))
    threads = [draw(st.lists(st.sampled_from(pool), min_size=1, max_size=2)) for _ in range(n)]
    steps = st.one_of(st.integers(1, 30), st.integers(1, 400), st.integers(100, 12000))
    plan = draw(st.lists(st.tuples(st.integers(0, n - 1), steps).map(list), min_size=1, max_size=10))
    return {"threads": threads, "plan": plan, "opcodes": draw(st.booleans())}


PAIRS = [(["parse", "two cats and three dogs, five", "en"], ["parse", "dos gatos y tres", "es"]),
         (["parse", "dos gatos y tres", None], ["parse", "п'ять котів двісті два", "uk"]),
         (["parse_number", "two hundred and five", "en"], ["parse_number", "doscientos dos mil y uno", "es"]),
         (["parse_number", "двести пять", None], ["parse_number", "दो सौ पाँच", None]),
         (["parse_ordinal", "twenty first", "en"], ["parse_ordinal", "one hundred and fifth", "en"]),
         (["parse_fraction", "one over two", "en"], ["parse_fraction", "two hundred / three", "en"]),
         (["parse", "seven and eight", "en"], ["parse_number", "uno", "xx"])]


def preempted(tier):
    """One thread is stopped at every line it runs (first, second, middle and last time), another one runs in between."""
    for a, b in PAIRS + [(b, a) for a, b in PAIRS]:
        where = {}
        for i, line in enumerate(in_child(lambda a=a: sched.lines(a, outcome))):
            where.setdefault(tuple(line), []).append(i)
        for line in sorted(where):
            at = where[line]
            picks = {0, 1, len(at) // 2, len(at) - 1} if tier == "quick" else set(range(0, len(at), max(1, len(at) // 40)))
            for k in sorted(picks & set(range(len(at)))):
                yield {"threads": [[a], [b]], "plan": [[0, at[k] + 1], [1, 1 << 40]], "opcodes": False}


def interrupts(tier):
    """The first call is interrupted at every line it runs (first, second, middle and last time)."""
    for a, b in PAIRS + [(b, a) for a, b in PAIRS]:
        where = {}
        for i, line in enumerate(in_child(lambda a=a: sched.lines(a, outcome))):
            where.setdefault(tuple(line), []).append(i)
        for line in sorted(where):
            at = where[line]
            picks = {0, 1, len(at) // 2, len(at) - 1} if tier == "quick" else set(range(0, len(at), max(1, len(at) // 40)))
            for k in sorted(picks & set(range(len(at)))):
                yield {"call": a, "at": at[k] + 1, "after": [a, b, a]}


ODD = [None, 5, 2.5, True, ["two"], {"two": 2}, "two\x00", "\ud800 two"]


PREFIXES = ["", "On 2020-05-01 ", "zq zq zq zq zq zq zq zq zq zq ", "12 34 56 78 90 12 34 56 78 90 12 34 56 78 ", "#1: " * 20, "x" * 200 + " "]


@st.composite
def related(draw):
    """Texts that a careless cache could confuse: a common start or end, the same words or length, another case."""
    head, tail = draw(st.sampled_from(PREFIXES)), draw(st.sampled_from([""] + PREFIXES))
    tail = " " + tail if tail else ""
    fn = draw(st.sampled_from(["parse"] * 3 + FNS))
    use = draw(st.sampled_from([None, None, None] + LANGS))
    calls = []
    kind = draw(st.sampled_from(["ends", "permuted", "case", "length", "marks"]))
    if kind == "ends":
        for lang in draw(st.lists(st.sampled_from(LANGS), min_size=2, max_size=5)):
            calls.append([fn, head + draw(gen.numeral(lang, 10 ** 6))[1] + tail, use])
    elif kind == "permuted":
        ws = draw(st.lists(st.sampled_from(soup.ALLWORDS["en"] + soup.ALLWORDS["es"]), min_size=2, max_size=5))
        for _ in range(4):
            calls.append([fn, head + " ".join(draw(st.permutations(ws))) + tail, use])
    elif kind == "case":
        lang = draw(gen.LANG)
        t = draw(gen.numeral(lang, 10 ** 6))[1] + " " + draw(gen.filler(lang))
        calls = [[fn, head + x + tail, use] for x in (t, t.upper(), t.title(), t.swapcase(), t.lower(), t)]
    elif kind == "length":
        for lang in draw(st.lists(st.sampled_from(LANGS), min_size=3, max_size=6)):
            calls.append([fn, (head + draw(gen.numeral(lang, 1000))[1]).ljust(60, draw(st.sampled_from(" .!"))), use])
    else:
        t = draw(gen.numeral("es", 10 ** 6))[1]
        calls = [[fn, head + x + tail, use] for x in (t, t.replace(" ", "-"), t.replace(" ", ", "), t + " y", t + "s",
                                                      t.replace(" ", "  "), t)]
    return {"calls": calls, "mode": draw(st.sampled_from(["plain", "plain", "reversed", "threads"]))}


def same_ends(tier):
    texts = ["two cats and three dogs", "dos gatos y tres perros", "दो बिल्ली तीन कुत्ते", "два кота три собаки",
             "двісті котів п'ять собак", "twenty first of one hundred"]
    for head in PREFIXES:
        for tail in [""] + PREFIXES:
            for k in range(len(texts)):
                order = texts[k:] + texts[:k]
                for fn in ("parse", "parse_number") if head or tail else FNS:
                    yield {"calls": [[fn, head + t + (" " + tail if tail else ""), None] for t in order], "mode": "plain"}


def language_pairs(tier):
    """Every ordered pair of languages, alternating."""
    texts = ["two hundred and five cats", "dos y tres", "दो सौ पाँच", "двести пять", "двісті п'ять", "twenty first",
             "one over two", "doscientos dos mil y un", "five hundred", "cien mil"]
    langs = [None] + LANGS + ["fr"]
    for a in langs:
        for b in langs:
            calls = []
            for i, t in enumerate(texts):
                calls += [[FNS[i % 4], t, a], [FNS[(i + 1) % 4], t, b], [FNS[0], t, a]]
            for mode in ("plain", "reversed", "threads"):
                yield {"calls": calls, "mode": mode}


def long_history(tier):
    """One process, thousands of different calls (fills any cache), then the first ones again."""
    probe = [["parse", "two hundred and five cats", "en"], ["parse_number", "doscientos dos", "es"],
             ["parse", "п'ять котів", "uk"], ["parse_number", "twenty five", None], ["parse_ordinal", "fifth", "en"],
             ["parse", "un gato y dos", None], ["parse_fraction", "one over two", "en"], ["parse", "двести", None],
             ["parse", "zzz", "fr"], ["parse_number", "चौदह लाख", "hi"]]
    from .. import spell
    for start in range(4 if tier == "quick" else 24):
        calls = list(probe)
        for i in range(1500):
            lang = LANGS[i % 5]
            n = (i * 7919 + start * 104729) % 999983
            calls.append([FNS[i % 4], spell.spell(lang, n), lang if i % 3 else None])
        yield {"calls": calls + probe + calls[10:110], "mode": "plain", "probes": 110}


SETTINGS = [({"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}, []), ({}, ["-O"]),
            ({"LC_ALL": "tr_TR.UTF-8", "LANGUAGE": "es", "LANG": "es_ES.UTF-8"}, []), ({}, ["-OO", "-X", "dev"]),
            ({"LANG": "hi_IN", "TZ": "Asia/Kolkata"}, ["-I"])]


def seeds(tier):
    from .. import spell
    for hs in [1, 2, 3, 7] if tier == "quick" else range(1, 25):
        calls = []
        for i in range(300):
            lang = LANGS[i % 5]
            other = LANGS[(i // 5) % 5]
            calls.append([FNS[i % 4], spell.spell(lang, i * 37 % 1009) + " " + spell.spell(other, i * 91 % 977),
                          None if i % 2 else lang])
        for t in ("один", "dos one", "два twenty", "y and", "сто", "three y", "три", "", "-", "uno and", "одна двісті"):
            for fn in FNS:
                calls.append([fn, t, None])
        yield {"calls": calls, "hashseed": hs}
        env, options = SETTINGS[hs % len(SETTINGS)]
        yield {"calls": calls, "hashseed": 0, "env": env, "options": options}


GUIDED = False      # every case runs in processes of its own
TESTS = [Enum("language_pairs", language_pairs, oracle), Enum("long_history", long_history, oracle, shards=4),
         Enum("hash_seeds", seeds, hash_seeds, shards=4), Prop("histories", histories, oracle, 1100),
         Enum("same_ends", same_ends, oracle), Prop("related", related, oracle, 900),
         Enum("preempted", preempted, scheduled),
         Enum("interrupts", interrupts, interrupted), Prop("schedules", schedules, scheduled, 1500)]
_ = words
