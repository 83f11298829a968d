"""Access to the code under test (always the working tree in /repo)."""
import os
import signal
import sys

from .detect import also_undetected

REPO = os.environ.get("NP_REPO", "/repo")
CPU_LIMIT = 30.0      # seconds of this process's CPU time for one case


class Violation(Exception):
    """The property does not hold for the current case."""


class HarnessError(Exception):
    """The check itself cannot work."""


class _CpuLimit(BaseException):
    pass


_mod = None


def load():
    global _mod
    if _mod is None:
        sys.dont_write_bytecode = True
        sys.pycache_prefix = "/nonexistent-pycache"   # never read stale bytecode
        sys.path.insert(0, REPO)
        import number_parser
        real = os.path.realpath(number_parser.__file__)
        if not real.startswith(os.path.realpath(REPO) + os.sep):
            raise HarnessError("number_parser imported from " + real)
        _mod = number_parser
        # The README documents parse_ordinal as part of the package's interface.
    return _mod


def show(x, limit=300):
    r = repr(x)
    return r if len(r) <= limit else r[:limit] + "...<%d chars>" % len(r)


def call(name, *args):
    """Calls a public function; any exception on these (valid) inputs is a violation."""
    fn = getattr(load(), name)
    try:
        return fn(*args)
    except Exception as e:   # noqa: BLE001 - reported as the violation itself
        raise Violation(f"{name}{show(args)} raised {type(e).__name__}: {e}") from None


def parse_number(s, lang=None):
    return call("parse_number", s, lang)


def parse_ordinal(s, lang=None):
    return call("parse_ordinal", s, lang)


def parse_fraction(s, lang=None):
    return call("parse_fraction", s, lang)


def parse(s, lang=None):
    return call("parse", s, lang)


def same_int(got, want):
    return type(got) is int and got == want


def expect(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


def expect_number(s, lang, want, fn="parse_number"):
    got = call(fn, s, lang)
    if want is None:
        if got is not None:
            raise Violation(f"{fn}({s!r}, {lang!r}) == {show(got)}, expected None")
    elif type(got) is not int or got != want:
        raise Violation(f"{fn}({s!r}, {lang!r}) == {show(got)}, expected {want}")
    expect_undetected(fn, s, lang, got)


def expect_parse(s, lang, want):
    got = call("parse", s, lang)
    if got != want or type(got) is not str:
        raise Violation(f"parse({s!r}, {lang!r}) == {show(got, 2000)}, expected {want!r}")
    expect_undetected("parse", s, lang, got)


def expect_undetected(fn, s, lang, want):
    """On some of the texts whose language is certain: the same without naming it."""
    if also_undetected(lang, s):
        got = call(fn, s, None)
        if got != want or type(got) is not type(want):
            raise Violation(f"{fn}({s!r}) == {show(got, 2000)}, expected {show(want, 2000)} as with language {lang!r}")


def guarded(oracle, case):
    """Runs one case with a CPU limit, which only a hanging call can reach."""
    def onlimit(*_):
        raise _CpuLimit()
    old = signal.signal(signal.SIGVTALRM, onlimit)
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
    try:
        return oracle(case)
    except _CpuLimit:
        raise Violation(f"did not finish within {CPU_LIMIT:.0f} s of CPU time") from None
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)
