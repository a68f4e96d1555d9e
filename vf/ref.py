"""Reference model, written independently of trikit: plain Python/NumPy on
staircase triangles. Row i = i-th oldest origin, column j = j-th development
period; every row is observed up to some period, NaN beyond. Square triangles
hold C[i][j] for i + j <= n - 1; others are one diagonal cut of a larger one."""
import math
import numpy as np
from scipy import stats, special

NAN = float("nan")


def totals(records):
    """{(origin, dev): exact sum} of records (origin, dev, value)."""
    cells = {}
    for o, d, v in records:
        cells.setdefault((o, d), []).append(v)
    return {k: math.fsum(v) for k, v in cells.items()}


def incr_matrix(cells, origins, devs):
    """Incremental triangle: cell totals, NaN where unobserved; first-period amounts <= 0 become 1."""
    out = []
    for o in origins:
        row = [cells.get((o, d), NAN) for d in devs]
        if not math.isnan(row[0]) and row[0] <= 0:
            row[0] = 1.0
        out.append(row)
    return out


def raw_cum(cells, origins, devs):
    """Running totals at the observed cells."""
    out = []
    for o in origins:
        run, row = [], []
        for d in devs:
            if (o, d) in cells:
                run.append(cells[(o, d)])
                row.append(math.fsum(run))
            else:
                row.append(NAN)
        out.append(row)
    return out


def last_origin(M):
    """Per column, the index of the last row holding an amount."""
    n = len(M)
    return [max(i for i in range(n) if not math.isnan(M[i][j])) for j in range(len(M[0]))]


def complete_cum(raw):
    """Cumulative triangle from running totals: first-period <= 0 -> 1, gaps carried forward."""
    M = [list(r) for r in raw]
    last = last_origin(M)
    for i, row in enumerate(M):
        if not math.isnan(row[0]) and row[0] <= 0:
            row[0] = 1.0
        if math.isnan(row[0]) and i <= last[0]:
            row[0] = 1.0
        for j in range(1, len(row)):
            if math.isnan(row[j]) and i <= last[j]:
                row[j] = row[j - 1]
    return M


# ------------------------------------------------------------- link ratios

def divide(a, b):
    """IEEE quotient: a/0 is infinite, 0/0 is NaN."""
    with np.errstate(all="ignore"):
        return float(np.float64(a) / np.float64(b))


def link_ratios(C):
    """F[i][j] = C[i][j+1] / C[i][j] where both observed (NaN otherwise); (n-1) x (n-1)."""
    n, m = len(C), len(C[0])
    F = [[NAN] * (m - 1) for _ in range(n)]
    for i in range(n):
        for j in range(m - 1):
            if not math.isnan(C[i][j]) and not math.isnan(C[i][j + 1]):
                F[i][j] = divide(C[i][j + 1], C[i][j])
    return F


def ratio_rows(F, j):
    """Rows holding a link ratio in column j."""
    return [i for i in range(len(F)) if not math.isnan(F[i][j])]


def window(C, F, j, k, excluded):
    """(ratio, from, to) of the k most recent ratios of column j (k = 0: all), exclusions dropped."""
    rows = [i for i in range(len(C)) if not math.isnan(F[i][j])]
    if k:
        rows = rows[-k:]
    return [(F[i][j], C[i][j], C[i][j + 1]) for i in rows if (i, j) not in excluded]


def average(kind, win):
    if not win:
        return NAN
    r = [w[0] for w in win]
    if kind == "simple" or len(r) <= 2:
        if kind in ("simple", "medial") and math.inf in r and -math.inf in r:
            return NAN
    if kind == "weighted":
        return divide(math.fsum(w[2] for w in win), math.fsum(w[1] for w in win))
    if kind == "simple":
        return math.fsum(r) / len(r)
    if kind == "geometric":
        if min(r) <= 0:
            return NAN if min(r) < 0 or max(r) == math.inf else 0.0
        return math.exp(math.fsum(math.log(x) for x in r) / len(r))
    if kind == "medial":
        if len(set(r)) == 1:
            return r[0]
        if len(r) <= 2:
            return math.fsum(r) / len(r)
        lo, hi = min(r), max(r)
        mid = [x for x in r if lo < x < hi]
        return math.fsum(mid) / len(mid) if mid else NAN
    raise ValueError(kind)


KINDS = ("simple", "geometric", "medial", "weighted")


def avg_labels(n):
    """Rows of the averages table of a triangle with n - 1 origins holding ratios."""
    out = {}
    for kind in KINDS:
        for k in range(1, n - 1):
            out["{}-{}".format(kind, k)] = (kind, k)
        out["all-" + kind] = (kind, 0)
    return out


def avg_row(C, label, excluded=()):
    F = link_ratios(C)
    kind, k = avg_labels(1 + sum(1 for r in F if any(x == x for x in r)))[label]
    return [average(kind, window(C, F, j, k, excluded)) for j in range(len(C[0]) - 1)]


# ------------------------------------------------------------- chain ladder

def cum_factors(ldfs):
    """Age-to-ultimate factors; ldfs includes the tail."""
    out = [1.0] * len(ldfs)
    run = 1.0
    for j in reversed(range(len(ldfs))):
        run *= ldfs[j]
        out[j] = run
    return out


def last_dev(C):
    """Index of each origin's latest observed development period."""
    return [max(j for j in range(len(r)) if not math.isnan(r[j])) for r in C]


def project(C, ldfs):
    """Chain ladder: dict of per-origin results and the squared triangle incl. ultimate."""
    cld = cum_factors(ldfs)
    last = last_dev(C)
    latest = [C[i][last[i]] for i in range(len(C))]
    cldf = [cld[last[i]] for i in range(len(C))]
    ult = [latest[i] * cldf[i] for i in range(len(C))]
    res = [ult[i] - latest[i] for i in range(len(C))]
    sq = []
    for i, r in enumerate(C):
        row = list(r)
        for j in range(last[i] + 1, len(row)):
            row[j] = row[j - 1] * ldfs[j - 1]
        row.append(row[-1] * ldfs[-1])
        sq.append(row)
    return {"last": last, "latest": latest, "cldf": cldf, "emergence": [divide(1, c) for c in cldf],
            "ultimate": ult, "reserve": res, "square": sq}


# ------------------------------------------------------------- Mack

def mack(C, alpha, excluded=()):
    n, R = len(C[0]), len(C)
    f, s2, v2 = [], [], []
    W = []
    F = link_ratios(C)
    for j in range(n - 1):
        seen = ratio_rows(F, j)
        rows = [i for i in seen if (i, j) not in excluded]
        if not rows:
            raise ZeroDivisionError("no ratio left")
        W.append(math.fsum(C[i][j] ** alpha for i in rows))
        if all(C[i][j + 1] == C[i][j] for i in rows):
            f.append(1.0)
        else:
            f.append(math.fsum(C[i][j] ** (alpha - 1) * C[i][j + 1] for i in rows) / W[j])
        if len(seen) > 1:
            s2.append(math.fsum(
                C[i][j] ** alpha * (C[i][j + 1] / C[i][j] - f[j]) ** 2 for i in rows) / (len(seen) - 1))
        else:
            if j < 2:
                raise ZeroDivisionError("no two preceding variances")
            a, b = s2[-1], s2[-2]
            s2.append(min(a * a / b, min(a, b)) if b > 0 else min(a, b))
    v2 = [s2[j] / W[j] for j in range(n - 1)]
    proj = project(C, f + [1.0])
    S = proj["square"]
    last = proj["last"]
    pe, qe = [0.0] * R, [0.0] * R
    for i in range(R):
        p = q = 0.0
        for k in range(last[i], n - 1):       # from column k to k+1
            c = S[i][k]
            p = f[k] ** 2 * p + c ** (2 - alpha) * s2[k]
            q = f[k] ** 2 * q + c ** 2 * v2[k] + v2[k] * q
        pe[i], qe[i] = p, q
    mse = [pe[i] + qe[i] for i in range(R)]
    tot = 0.0
    U = proj["ultimate"]
    for i in range(R):
        cross = math.fsum(2 * v2[k] / f[k] ** 2 for k in range(last[i], n - 1))
        tot += mse[i] + U[i] * math.fsum(U[i + 1:]) * cross
    proj.update({"f": f, "s2": s2, "v2": v2, "process": pe, "parameter": qe, "mse": mse,
                 "se": [math.sqrt(m) for m in mse], "total_se": math.sqrt(tot), "W": W})
    return proj


def dist_quantile(dist, mean, sd, p):
    if dist == "norm":
        return mean + sd * special.ndtri(p)
    s2 = math.log1p((sd / mean) ** 2)
    with np.errstate(over="ignore"):
        return mean * math.exp(-s2 / 2) * np.exp(math.sqrt(s2) * special.ndtri(p))


def ranks(x):
    """Average ranks, 1-based."""
    out = []
    for v in x:
        less = sum(1 for u in x if u < v)
        eq = sum(1 for u in x if u == v)
        out.append(less + (eq + 1) / 2)
    return out


def spearman_tables(C):
    """[(k, s ranks, r ranks)] comparing column k-1 (s, its oldest origins) with column k (r)."""
    F = link_ratios(C)
    out = []
    for k in range(2, len(C[0])):            # 1-based development period of r
        rows = ratio_rows(F, k - 1)
        if len(rows) > 1:
            out.append((k, ranks([F[i][k - 2] for i in rows]), ranks([F[i][k - 1] for i in rows])))
    return out


def spearman_total(C):
    numer = denom = 0.0
    for k, s, r in spearman_tables(C):
        m = len(s)
        T = 1 - 6 * sum((a - b) ** 2 for a, b in zip(s, r)) / (m ** 3 - m)
        numer += (m - 1) * T
        denom += m - 1
    return numer / denom


def spearman_weight(C):
    """Inverse variance of the correlation statistic; (n - 2)(n - 3) / 2 for square triangles."""
    return sum(len(s) - 1 for _, s, _ in spearman_tables(C))


def median(x):
    x = sorted(x)
    h = len(x) // 2
    return x[h] if len(x) % 2 else (x[h - 1] + x[h]) / 2


def signs(F):
    """{(i, j): -1, 0, 1} - ratio below, at or above the median of its column."""
    sign = {}
    for j in range(len(F[0])):
        rows = ratio_rows(F, j)
        m = median([F[i][j] for i in rows])
        for i in rows:
            sign[(i, j)] = (F[i][j] > m) - (F[i][j] < m)
    return sign


def cy_test(C):
    """(Z, mean, variance) of Mack's calendar-year statistic."""
    F = link_ratios(C)
    sign = signs(F)
    Z = E = V = 0.0
    for d in range(1, 1 + max(i + j for i, j in sign)):
        S = sum(1 for (i, j), v in sign.items() if i + j == d and v < 0)
        L = sum(1 for (i, j), v in sign.items() if i + j == d and v > 0)
        k = S + L
        Z += min(S, L)
        if k:
            # exact moments of min(X, k - X), X ~ Binomial(k, 1/2), by enumeration
            e1 = sum(math.comb(k, x) * min(x, k - x) for x in range(k + 1)) / 2 ** k
            e2 = sum(math.comb(k, x) * min(x, k - x) ** 2 for x in range(k + 1)) / 2 ** k
            E += e1
            V += e2 - e1 * e1
    return Z, E, V


# ------------------------------------------------------------- bootstrap fit

def boot_fit(C, excluded=()):
    """(factors, fitted cumulative, fitted increments, actual increments); fitted values are NaN
    beyond each origin's latest period."""
    n, R = len(C[0]), len(C)
    F = link_ratios(C)
    f = []
    for j in range(n - 1):
        rows = [i for i in ratio_rows(F, j) if (i, j) not in excluded]
        f.append(math.fsum(C[i][j + 1] for i in rows) / math.fsum(C[i][j] for i in rows))
    fit = [[NAN] * n for _ in range(R)]
    for i, last in enumerate(last_dev(C)):
        fit[i][last] = C[i][last]
        for j in reversed(range(last)):
            fit[i][j] = fit[i][j + 1] / f[j]
    inc = [[(fit[i][j] - (fit[i][j - 1] if j else 0.0)) for j in range(n)] for i in range(R)]
    act = [[(C[i][j] - (C[i][j - 1] if j else 0.0)) for j in range(n)] for i in range(R)]
    return f, fit, inc, act
