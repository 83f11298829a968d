"""Runs the tests of one property in parallel, shrinks failures, writes evidence."""
import hashlib
import importlib
import json
import multiprocessing
import os
import random
import resource
import subprocess
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = max(2, min(8, os.cpu_count() or 2))
SAMPLES = 4
MEMORY = 6 << 30
GUIDED_RUNS = 15000


class Prop:
    """Hypothesis-generated cases: strategy() -> cases; oracle(case) -> label or None.

    The oracle raises Violation when the property fails.  It returns the class of the case: a string that
    names a non-trivial class, or None / a label starting with '-' for a trivial one.
    """

    def __init__(self, name, strategy, oracle, quick, thorough=None, shards=None):
        self.name, self.strategy, self.oracle = name, strategy, oracle
        self.n = {"quick": quick, "thorough": thorough or quick * 15}
        self.shards = shards
        self.kind = "generated"

    def nshards(self, tier):
        return self.shards or max(1, min(WORKERS, self.n[tier] // 100))


class Enum:
    """Systematically enumerated cases: cases(tier) -> iterator."""

    def __init__(self, name, cases, oracle, shards=WORKERS):
        self.name, self.cases, self.oracle, self.shards = name, cases, oracle, shards
        self.kind = "enumerated"

    def nshards(self, tier):
        return self.shards


def canon(case):
    return json.dumps(case, ensure_ascii=True, sort_keys=True, default=str)


def digest(case):
    return hashlib.blake2b(canon(case).encode(), digest_size=8).digest()


class Recorder:
    def __init__(self, test, quota=SAMPLES):
        self.test = test
        self.evaluations = 0
        self.classes = {}
        self.seen = set()
        self.samples = []
        self.failure = None
        self.first_failure = None
        self.known = []
        self.known_hit = set()

    def run(self, case):
        from .target import Violation, guarded
        self.evaluations += 1
        try:
            label = guarded(self.test.oracle, case)
        except Violation as v:
            for known, desc in self.known:
                if canon(known) == canon(case):
                    self.known_hit.add(desc)
                    self.classes["-known finding"] = self.classes.get("-known finding", 0) + 1
                    return
            self.failure = {"test": self.test.name, "case": case, "message": str(v)}
            if self.first_failure is None:
                self.first_failure = self.failure
            raise
        label = label or "-trivial"
        self.classes[label] = self.classes.get(label, 0) + 1
        if not label.startswith("-"):
            d = digest(case)
            if d not in self.seen:
                self.seen.add(d)
                k = len(self.seen)
                if k in (1, 7, 40, 200) and len(self.samples) < SAMPLES:
                    c = canon(case)
                    self.samples.append({"test": self.test.name, "class": label,
                                         "case": case if len(c) < 1500 else c[:1500] + "... (cut)"})


def _job(args):
    prop, tname, shard, nshards, tier, seed = args
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))     # too much memory is an error, not the end of the check
    try:
        if shard == "guided":
            return _guided_job(prop, tname, seed)
        return _job_inner(prop, tname, shard, nshards, tier, seed)
    except BaseException:   # noqa: BLE001 - any harness failure is reported as an error
        return {"error": f"{tname}[{shard}]: " + traceback.format_exc()}


def tests_of(prop):
    return importlib.import_module("vlib.checks." + prop.lower()).TESTS


def _job_inner(prop, tname, shard, nshards, tier, seed):
    from . import known, target
    target.load()
    test = next(t for t in tests_of(prop) if t.name == tname)
    rec = Recorder(test)
    rec.known = known.load(prop)
    t0 = time.time()
    if test.kind == "enumerated":
        for i, case in enumerate(test.cases(tier)):
            if i % nshards == shard:
                try:
                    rec.run(case)
                except target.Violation:
                    break
    else:
        _hypothesis(test, rec, shard, nshards, tier, seed)
    failure = rec.failure
    return {"test": tname, "evaluations": rec.evaluations, "classes": rec.classes,
            "seen": rec.seen, "samples": rec.samples, "failure": failure, "known": sorted(rec.known_hit),
            "s": time.time() - t0}


def _hypothesis(test, rec, shard, nshards, tier, seed):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    import hypothesis.internal.conjecture.engine as engine
    from .target import Violation
    engine.MAX_SHRINKING_SECONDS = float(os.environ.get("VERIF_SHRINK_S", "25"))
    n = -(-test.n[tier] // nshards)
    hseed = int.from_bytes(hashlib.sha256(
        f"{seed}/{test.name}/{shard}".encode()).digest()[:6], "big")

    @hypothesis.seed(hseed)
    @settings(database=None, deadline=None, max_examples=n, print_blob=False,
              phases=(Phase.generate, Phase.shrink), report_multiple_bugs=False,
              suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large,
                                     HealthCheck.large_base_example])
    @given(test.strategy())
    def go(case):
        rec.run(case)

    try:
        go()
    except Violation:
        pass
    except hypothesis.errors.Flaky:
        if rec.first_failure is None:
            raise
        rec.failure = dict(rec.first_failure, note="did not fail again when rerun")
    except BaseException:
        if rec.failure is None:
            raise


def _guided_job(prop, tname, seed):
    """Coverage-guided search for one test, in a process of its own (libFuzzer cannot run twice in one)."""
    t0 = time.time()
    with tempfile.TemporaryDirectory() as d:
        out = os.path.join(d, "out.json")
        p = subprocess.run([sys.executable, os.path.join(ROOT, "check.py"), "--guided", prop, tname, str(seed), out], cwd=d,
                           capture_output=True, text=True, errors="replace")
        if not os.path.exists(out):
            return {"error": f"{tname}[guided]: {p.stderr[-1500:]}"}
        with open(out, encoding="ascii") as f:
            r = json.load(f)
    return {"test": tname + " (coverage-guided)", "evaluations": r["evaluations"], "classes": r["classes"],
            "seen": {bytes.fromhex(x) for x in r["seen"]}, "samples": r["samples"], "failure": r["failure"], "known": r["known"],
            "s": time.time() - t0}


def guided(prop, tname, seed, out):
    """libFuzzer mutates the bytes from which Hypothesis builds a case, guided by coverage of the code under test."""
    import atheris
    with atheris.instrument_imports(include=["number_parser"]):
        from . import target
        target.load()
        for lang in ("en", "es", "hi", "ru", "uk"):
            importlib.import_module("number_parser.data." + lang)
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis.database import InMemoryExampleDatabase
    from . import known
    test = next(t for t in tests_of(prop) if t.name == tname)
    rec = Recorder(test)
    rec.known = known.load(prop)

    @settings(database=InMemoryExampleDatabase(), deadline=None, max_examples=1, print_blob=False,
              phases=(Phase.reuse, Phase.shrink), report_multiple_bugs=False, suppress_health_check=list(HealthCheck))
    @given(test.strategy())
    def go(case):
        rec.run(case)

    def finish():
        with open(out, "w", encoding="ascii") as f:
            json.dump({"evaluations": rec.evaluations, "classes": rec.classes, "seen": [x.hex() for x in rec.seen],
                       "samples": rec.samples, "failure": rec.failure, "known": sorted(rec.known_hit)}, f, default=str)
        os._exit(0)

    def one(data):
        try:
            go.hypothesis.fuzz_one_input(data)
        except target.Violation:
            try:
                go()                # from the database: shrinks
            except (target.Violation, hypothesis.errors.HypothesisException):
                pass
            rec.failure = rec.failure or rec.first_failure
            finish()
        one.runs += 1
        if one.runs >= GUIDED_RUNS or time.time() - t0 > 600:
            finish()
    one.runs, t0 = 0, time.time()
    r = random.Random(f"{seed}/{tname}")
    os.mkdir("corpus")
    for i in range(300):            # enough bytes for cases of all sizes
        with open(os.path.join("corpus", str(i)), "wb") as f:
            f.write(r.randbytes(r.choice([30, 100, 400, 1500])))
    atheris.Setup([sys.argv[0], "corpus", f"-seed={r.randrange(1, 2 ** 31)}", "-max_len=4000", "-len_control=0", "-rss_limit_mb=0",
                   "-timeout=100000"], one)
    atheris.Fuzz()
    finish()


def run_property(prop, tier, seed):
    sys.path.insert(0, ROOT)
    t0 = time.time()
    mod = importlib.import_module("vlib.checks." + prop.lower())
    jobs = []
    for t in mod.TESTS:
        k = t.nshards(tier)
        jobs += [(prop, t.name, s, k, tier, seed) for s in range(k)]
        if tier == "thorough" and t.kind == "generated" and getattr(mod, "GUIDED", True):
            jobs.append((prop, t.name, "guided", 1, tier, seed))
    failure, errors, known_hit = None, [], set()
    evaluations, seen, classes, samples, per_test = 0, set(), {}, [], {}
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(WORKERS, maxtasksperchild=None) as pool:
        for res in pool.imap_unordered(_job, jobs, chunksize=1):
            if "error" in res:
                errors.append(res["error"])
                continue
            evaluations += res["evaluations"]
            seen |= res["seen"]
            known_hit |= set(res["known"])
            for k, v in res["classes"].items():
                classes[k] = classes.get(k, 0) + v
            pt = per_test.setdefault(res["test"], {"evaluations": 0, "cpu_s": 0.0, "samples": []})
            pt["evaluations"] += res["evaluations"]
            pt["cpu_s"] = round(pt["cpu_s"] + res["s"], 2)
            if len(pt["samples"]) < 3:
                pt["samples"] += res["samples"][:3]
            if res["failure"] and (failure is None or
                                   len(canon(res["failure"])) < len(canon(failure))):
                failure = res["failure"]
            if failure and not errors:
                # let the shards of the same test finish shrinking only if they are quick
                pool.terminate()
                break
    for pt in per_test.values():
        samples += pt.pop("samples")
    wall = time.time() - t0
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(seen),
            "rule": mod.RULE,
            "samples": samples,
            "classes": dict(sorted(classes.items())),
            "per_test": per_test,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": 1 if failure else 0,
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w", encoding="utf8") as f:
        json.dump(evidence, f, ensure_ascii=True, indent=1, default=str)
        f.write("\n")
    for desc in sorted(known_hit):
        print(f"KNOWN-FINDING: property={prop} {desc}")
    if failure:
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        path = os.path.join("replays", f"{prop}-{digest(failure).hex()}.json")
        with open(os.path.join(ROOT, path), "w", encoding="utf8") as f:
            json.dump(dict(failure, property=prop), f, ensure_ascii=True, indent=1)
            f.write("\n")
        print(f"{failure['test']}: {failure['message']}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors:
        print("ERROR in the check:", errors[0], file=sys.stderr)
        return 2
    need = getattr(mod, "REQUIRED_CLASSES", [])
    missing = [c for c in need if not classes.get(c)]
    if missing:
        print("ERROR: generator never produced", missing, file=sys.stderr)
        return 2
    print(f"{prop} held: {evaluations} cases, {len(seen)} distinct non-trivial, {wall:.1f} s")
    return 0


def replay(path):
    sys.path.insert(0, ROOT)
    with open(path, encoding="utf8") as f:
        r = json.load(f)
    from . import target
    target.load()
    test = next(t for t in tests_of(r["property"]) if t.name == r["test"])
    try:
        target.guarded(test.oracle, r["case"])
    except target.Violation as v:
        print(v)
        print(f"VIOLATION property={r['property']} replay={path}")
        return 1
    print("held on this case")
    return 0
