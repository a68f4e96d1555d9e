"""Harness core: cases are generated by Hypothesis, observed on the real trikit
in /repo, judged against an oracle, shrunk, and written out as replay files."""
import hashlib
import json
import math
import os
import signal
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    """The observed behaviour contradicts the property."""


class Skip(Exception):
    """The case lies outside the property's domain (counted, never judged)."""


class Prop:
    """One property. Subclasses define strategy(tier), expect(case), check(case, exp)."""
    id = None
    quick = 400           # cases in the quick tier
    thorough = 8000       # cases in the thorough tier
    rule = ""
    assumptions = []

    def strategy(self, tier):
        raise NotImplementedError

    def fixed(self):
        """Hand-picked cases run before the generated ones."""
        return []

    def expect(self, case):
        """Oracle values computed without trikit. May raise Skip."""
        return None

    def check(self, case, exp):
        """Observe trikit and compare. Returns the set of class tags of the case."""
        raise NotImplementedError

    def nontrivial(self, case, tags):
        return "trivial" not in tags


def canon(case):
    return json.dumps(case, sort_keys=True)


def digest(case):
    return hashlib.sha1(canon(case).encode()).hexdigest()[:16]


def violate(fmt, *args):
    raise Violation(fmt.format(*args) if args else fmt)


def fail_text(exc):
    """Message for any exception raised while observing trikit."""
    if isinstance(exc, Violation):
        return str(exc)
    tb = traceback.extract_tb(exc.__traceback__)
    where = ["{}:{}".format(os.path.basename(f.filename), f.lineno) for f in tb][-3:]
    return "raised {}: {} (at {})".format(type(exc).__name__, str(exc)[:300], " < ".join(reversed(where)))


CASE_SECONDS = 150


def _no_answer(signum, frame):
    violate("no answer within {} s", CASE_SECONDS)


def evaluate(prop, case):
    """Returns ("ok", tags) | ("skip", reason) | ("fail", message). Harness errors propagate."""
    signal.signal(signal.SIGALRM, _no_answer)
    signal.alarm(CASE_SECONDS)
    try:
        return _evaluate(prop, case)
    finally:
        signal.alarm(0)


def _evaluate(prop, case):
    try:
        exp = prop.expect(case)
    except Skip as s:
        return "skip", str(s)
    try:
        tags = prop.check(case, exp)
    except Skip as s:
        return "skip", str(s)
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except Exception as e:
        return "fail", fail_text(e)
    return "ok", set(tags or ())


# ---------------------------------------------------------------- comparison

def isnan(x):
    return isinstance(x, float) and math.isnan(x)


def num(x, what="value"):
    """A plain number, or a violation."""
    try:
        return float(x)
    except (TypeError, ValueError):
        violate("{}: not a number: {!r}", what, x)


def same(got, want, what, rtol=1e-9, atol=0.0):
    """Numeric agreement (NaN equals NaN, infinities by sign)."""
    g, w = num(got, what), float(want)
    if math.isnan(w) or math.isnan(g):
        if not (math.isnan(w) and math.isnan(g)):
            violate("{}: got {!r}, expected {!r}", what, g, w)
        return
    if math.isinf(w) or math.isinf(g):
        if g != w:
            violate("{}: got {!r}, expected {!r}", what, g, w)
        return
    if abs(g - w) > atol + rtol * max(abs(g), abs(w)):
        violate("{}: got {!r}, expected {!r}", what, g, w)


def same_list(got, want, what):
    g = [plain(x) for x in got]
    w = [plain(x) for x in want]
    if g != w:
        violate("{}: got {!r}, expected {!r}", what, g, w)


def plain(x):
    """Python scalar for labels (np.int64(3) -> 3, '3' stays '3')."""
    if hasattr(x, "item") and not isinstance(x, (str, bytes)):
        try:
            x = x.item()
        except Exception:
            return x
    if isinstance(x, float) and x.is_integer():
        return int(x)
    return x


def same_vec(got, want, what, rtol=1e-9, atol=0.0, labels=None):
    got, want = list(got), list(want)
    if len(got) != len(want):
        violate("{}: {} values, expected {}", what, len(got), len(want))
    for k, (g, w) in enumerate(zip(got, want)):
        same(g, w, "{}[{}]".format(what, labels[k] if labels is not None else k), rtol, atol)


def same_series(got, labels, want, what, rtol=1e-9, atol=0.0):
    same_list(list(got.index), labels, what + " labels")
    same_vec(got.values, want, what, rtol, atol, labels)


def same_frame(got, rows, cols, want, what, rtol=1e-9, atol=0.0):
    """want[i][j], NaN/None for missing."""
    same_list(list(got.index), rows, what + " row labels")
    same_list(list(got.columns), cols, what + " column labels")
    vals = got.values
    for i, r in enumerate(rows):
        for j, c in enumerate(cols):
            w = want[i][j]
            w = float("nan") if w is None else w
            g = vals[i][j]
            same(float("nan") if g is None else g, w, "{}[{}, {}]".format(what, r, c), rtol, atol)
