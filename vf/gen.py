"""Hypothesis strategies producing JSON-able cases."""
import random
from hypothesis import strategies as st

NAN = float("nan")

def sizes(lo, hi, large=True):
    """Triangle sizes, small ones first but not dominating; about 1 in 10 is larger than hi."""
    base = [lo] + [k for k in range(lo + 1, hi + 1) for _ in range(2)]
    big = sorted({hi + 1, max(hi + 2, 13), max(hi + 2, 14), max(hi + 2, 16), max(hi + 2, 24)}) if large else []
    return st.sampled_from(base * max(1, -(-9 * len(big) // len(base))) + big)


def many(draw, m, elems, pick):
    """m values: drawn one by one, or for large triangles all from one drawn seed."""
    if m <= 60:
        return draw(st.lists(elems, min_size=m, max_size=m))
    rnd = random.Random(draw(st.integers(0, 2 ** 40)))
    return [pick(rnd) for _ in range(m)]


NAMES = [("origin", "dev", "value")] * 4 + [
    ("acc_year", "age", "loss"), ("AY", "DEV", "AMT"), ("o", "d", "v"), ("Accident Year", "Dev Period", "Paid Loss"),
    ("value", "origin", "dev"), ("dev", "origin", "value"), ("year", "lag", "cum"), ("index", "columns", "data"),
    ("cum", "incr", "latest"), ("latest", "maturity", "triind"), ("x", "variable", "cumval"), ("origin", "dev", "index"),
]


def origin_labels(n, plain=False):
    years = st.builds(lambda a: [a + k for k in range(n)], st.integers(1981, 2015))
    if plain:
        return years
    spaced = st.builds(lambda a, s: [a + s * k for k in range(n)],
                       st.sampled_from([1, 0, -4, 5, 1990, 199001, 20200101]), st.sampled_from([1, 1, 2, 3, 10]))
    uneven = st.builds(lambda a, g: [a + sum(g[:k]) for k in range(n)],
                       st.sampled_from([0, 1, 1988, 200101]),
                       st.lists(st.integers(1, 9), min_size=n, max_size=n))
    return st.one_of(years, years, spaced, uneven)


def dev_labels(n, plain=False):
    std = st.just([k + 1 for k in range(n)])
    if plain:
        return std
    spaced = st.builds(lambda a, s: [a + s * k for k in range(n)],
                       st.sampled_from([0, 1, 2, 3, 6, 12, 24, 100, 365, 997, 9990, 120000]),
                       st.sampled_from([1, 1, 2, 3, 6, 12, 365]))
    uneven = st.builds(lambda a, g: [a + sum(g[:k]) for k in range(n)],
                       st.sampled_from([0, 1, 3, 12]), st.lists(st.integers(1, 12), min_size=n, max_size=n))
    return st.one_of(std, std, spaced, uneven)


def label_pair(n, plain=False):
    return st.tuples(origin_labels(n, plain), dev_labels(n, plain))


UNITS = st.sampled_from([1, 1, 1, 1, 0.01, 0.001, 1000, 1e6, 0.25, 1e9, 1 / 3, 7.123456789e-5, 1e-6, 1e-6])


@st.composite
def cum_rows(draw, n, monotone=False):
    """Staircase of positive cumulative amounts, row i has n - i cells."""
    m = n * (n + 1) // 2
    fam = draw(st.sampled_from(["ratio", "ratio", "realistic", "realistic", "ints", "ties", "free"]))
    unit = draw(UNITS)
    rows = []
    if fam == "ratio":
        xs = many(draw, m, st.integers(0, 4000), lambda r: r.randint(0, 4000))
        k = 0
        for i in range(n):
            row = [float(1 + xs[k] * 5)]
            k += 1
            for j in range(1, n - i):
                lo = 1000 if monotone else 700
                r = (lo + xs[k] / (1 + j)) / 1000.0
                row.append(max(1.0, round(row[-1] * r)))
                k += 1
            rows.append(row)
    elif fam == "realistic":
        xs = many(draw, m, st.integers(-300, 300), lambda r: r.randint(-300, 300))
        base = draw(st.integers(1000, 90000))
        k = 0
        for i in range(n):
            lvl = base * (1 + xs[k] / 1000.0)
            k += 1
            row = [round(lvl, 2)]
            for j in range(1, n - i):
                f = 1 + 2.0 / (j * j + 0.5) * (1 + xs[k] / 350.0)
                if not monotone:
                    f += xs[k] / 6000.0
                row.append(round(row[-1] * f, 2))
                k += 1
            rows.append(row)
    elif fam == "ints":
        xs = many(draw, m, st.integers(0, 999), lambda r: r.randint(0, 999))
        k = 0
        for i in range(n):
            run, row = 1, []
            for j in range(n - i):
                run += xs[k]
                row.append(float(run))
                k += 1
            rows.append(row)
    elif fam == "ties":
        xs = many(draw, m, st.sampled_from([1, 1, 2, 2, 4, 3]), lambda r: r.choice([1, 1, 2, 2, 4, 3]))
        k = 0
        for i in range(n):
            row = [float(64 * xs[k])]
            k += 1
            for j in range(1, n - i):
                row.append(row[-1] * xs[k])
                k += 1
            rows.append(row)
    else:
        xs = [x / 100 for x in many(draw, m, st.integers(1, 200000), lambda r: r.randint(1, 200000))]
        k = 0
        for i in range(n):
            row = []
            for j in range(n - i):
                row.append(xs[k])
                k += 1
            if monotone:
                row.sort()
            rows.append(row)
    return [[v * unit for v in r] for r in rows], fam


@st.composite
def cum_case(draw, lo, hi, monotone=False, plain=False, names=False):
    """{"n", "origins", "devs", "cum": rows} - complete square cumulative triangle."""
    n = draw(sizes(lo, hi))
    o, d = draw(label_pair(n, plain))
    rows, fam = draw(cum_rows(n, monotone))
    case = {"n": n, "origins": o, "devs": d, "cum": rows, "family": fam}
    if names:
        case["names"] = list(draw(st.sampled_from(NAMES)))
    return case


@st.composite
def flat_tail(draw, case):
    """Sometimes: no development after period n - k (factors exactly 1)."""
    n = case["n"]
    if draw(st.integers(0, 5)) == 5:
        k = draw(st.integers(1, n - 2))
        for row in case["cum"]:
            for j in range(n - k, len(row)):
                row[j] = row[j - 1]
        case["family"] += "+flat-tail"
    return case


@st.composite
def cut_late(draw, rows, low):
    """Drop the newest amounts of some origins; lengths stay non-increasing."""
    out = [rows[0]]
    for i, r in enumerate(rows[1:], 1):
        size = min(len(r), len(out[-1])) - draw(st.integers(0, 2)) * draw(st.integers(0, 1))
        out.append(r[:max(size, 2 if i < low else 1)])
    return out


@st.composite
def trap_case(draw, n_lo, hi, complete=False, narrow=False):
    """A cut of the square triangle of size S: its R oldest origins, its first n periods.
    "older": n < S = R (several fully developed origins); "dropped": R < S = n (newest origins
    missing); "both": R, n < S; "late": the newest diagonals of some origins are missing.
    complete: full rectangles allowed; narrow: 2 ratios or more in the first period."""
    kind = draw(st.sampled_from(["older", "dropped", "both", "late"]))
    if draw(st.integers(0, 19)) == 19:
        hi = max(hi + 2, 14)
    least = n_lo
    low = 3 if narrow else 2
    if kind == "older":
        n = draw(sizes(least, hi - 1, False))
        S = R = draw(st.integers(n + 1, hi))
    elif kind == "dropped":
        S = n = draw(sizes(max(least, low + 1), hi, False))
        R = draw(st.integers(low, S - 1))
    elif kind == "late":
        S = R = n = draw(sizes(max(least, low + 1), hi, False))
    else:
        n = draw(sizes(least, hi - 1, False))
        S = draw(st.integers(n + 1, hi))
        R = draw(st.integers(min(low, S - 1), S - 1))
        if not complete:
            R = max(R, S - n + 2)            # the newest origin is not fully developed
            if R >= S:
                kind = "older"
                R = S
    o, d = draw(st.tuples(origin_labels(R), dev_labels(n)))
    rows, fam = draw(cum_rows(S))
    rows = [r[:n] for r in rows[:R]]
    if kind == "late" or draw(st.integers(0, 3)) == 3:
        rows = draw(cut_late(rows, low))
        if kind != "late":
            kind += "+late"
    case = {"n": n, "origins": o, "devs": d, "cum": rows, "family": fam, "shape": kind}
    if draw(st.integers(0, 2)) == 0:
        case["names"] = list(draw(st.sampled_from(NAMES)))
    return case


def matrix(rows, n):
    return [list(r) + [NAN] * (n - len(r)) for r in rows]


@st.composite
def excl_cells(draw, n, most=6):
    """Cells (i, j) of the link-ratio triangle."""
    cells = [(i, j) for j in range(n - 1) for i in range(n - 1 - j)]
    k = draw(st.integers(0, min(most, len(cells))))
    return [list(c) for c in draw(st.lists(st.sampled_from(cells), min_size=k, max_size=k, unique=True))]


@st.composite
def q_spec(draw, edge=True):
    """{"ppm": [probabilities in millionths], "kind": container}"""
    base = [st.integers(1, 99).map(lambda v: v * 10000), st.integers(1, 999).map(lambda v: v * 1000),
            st.integers(1, 999999), st.sampled_from([750000, 950000, 500000, 110000, 120000, 130000, 10000, 20000,
                                                      30000, 990000, 995000, 210000, 111000, 910000, 920000]),
            st.sampled_from([110000, 120000, 130000, 740000, 760000, 780000, 111000, 112000, 113000, 211000, 312000])]
    if edge:
        base.append(st.sampled_from([0, 1000000, 1, 999999]))
    kind = draw(st.sampled_from(["float", "list", "list", "tuple", "array"]))
    k = 1 if kind == "float" else draw(st.integers(1, 5))
    return {"ppm": draw(st.lists(st.one_of(base), min_size=k, max_size=k)), "kind": kind}


DEFAULT_Q = {"ppm": [750000, 950000], "kind": "list"}
DOCUMENTED = {
    "base_cl": {"sel": "all-weighted", "tail": 1.0},
    "mack_cl": {"alpha": 1, "tail": 1.0, "dist": "lognorm", "q": [.75, .95], "two_sided": False},
    "boot_cl": {"sims": 1000, "q": [.75, .95], "procdist": "gamma", "parametric": False, "two_sided": False,
                "interpolation": "linear"},
}


def given(case, name, kw):
    """The arguments to spell out: with case["omit"], those equal to the documented default are left out."""
    if not case.get("omit"):
        return kw
    same = lambda a, b: type(a) is type(b) and a == b
    return {k: v for k, v in kw.items() if not (k in DOCUMENTED[name] and same(v, DOCUMENTED[name][k]))}


def q_value(spec):
    import numpy as np
    v = [p / 1e6 for p in spec["ppm"]]
    if spec["kind"] == "float":
        return v[0]
    return {"list": list, "tuple": tuple, "array": np.array}[spec["kind"]](v)


def q_expected(spec, two_sided=False):
    """[(half-ppm integer, probability)] ascending and unique; probability = h / 2e6."""
    hs = set()
    for p in spec["ppm"]:
        if two_sided:
            hs.update([1000000 - p, 1000000 + p])
        else:
            hs.add(2 * p)
    return [(h, h / 2e6) for h in sorted(hs)]


def pct(h):
    """Percentage text of h half-millionths, exact: 1500000 -> '75'."""
    txt = "{}.{:05d}".format(h // 20000, (h % 20000) * 5)
    return txt.rstrip("0").rstrip(".")


def ordinal(txt):
    if "." in txt:
        return txt + "th"
    if txt in ("11", "12", "13"):
        return txt + "th"
    return txt + {"1": "st", "2": "nd", "3": "rd"}.get(txt[-1], "th")
