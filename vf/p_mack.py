"""C10-C14: the Mack estimator and its two hypothesis tests."""
import math
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from scipy import special
from core import Prop, Skip, violate, same, same_list, same_vec, same_frame, same_series, plain, num
import gen
import obs
import ref
from p_ratio import build, size_tags, has_ties, ratio_grid, check_summary, check_square
from p_tri import degenerate_mack

NAN = float("nan")


@st.composite
def mack_case(draw, hi, excl=False, lo=4, **kw):
    case = draw(gen.cum_case(lo, hi, names=draw(st.integers(0, 3)) == 0, **kw))
    case = draw(gen.flat_tail(case))
    case["alpha"] = draw(st.sampled_from([1, 0, 2]))
    case["dist"] = draw(st.sampled_from(["norm", "lognorm"]))
    case["tail"] = draw(st.sampled_from([1.0, 1.0, 1.05, 0.9]))
    case["omit"] = draw(st.integers(0, 3)) == 3          # leave out arguments that equal the documented default
    if excl:
        case["excl"] = []
        if draw(st.integers(0, 2)) != 0:
            n = case["n"]          # at least one ratio stays in every development period
            keep = [draw(st.integers(0, n - 2 - j)) for j in range(n - 1)]
            case["excl"] = [e for e in draw(gen.excl_cells(n)) if e[0] != keep[e[1]]]
    return case


def run(case, tri, **kw):
    """(result, cells, reference) of a non-degenerate case."""
    C = obs.cells(tri)
    excl = {tuple(e) for e in case.get("excl", ())}
    if degenerate_mack(C, case["alpha"], excl):
        raise Skip("degenerate variances")
    for i, j in excl:
        tri.a2aind = (case["origins"][i], case["devs"][j], 0)
    r = tri.mack_cl(**gen.given(case, "mack_cl", dict(kw, alpha=case["alpha"], dist=case["dist"])))
    return r, C, ref.mack(C, case["alpha"], excl)


class C10(Prop):
    id = "C10"
    quick, thorough = 600, 9000
    rule = ("a case is a square cumulative triangle (4+ periods), alpha, distribution, tail argument and excluded link ratios; "
            "the whole result is recomputed from Mack's factors; non-trivial = every judged case")

    def strategy(self, tier):
        return mack_case(8 if tier == "quick" else 14, excl=True)

    def check(self, case, exp):
        tri, _ = build(case)
        o, d, n = case["origins"], case["devs"], case["n"]
        before = obs.frame_state(tri)
        r, C, m = run(case, tri, tail=case["tail"])
        f = m["f"] + [1.0]
        p = check_summary(r, C, o, d, f, "mack_cl alpha={}".format(case["alpha"]))
        cols = [plain(c) for c in r.trisqrd.columns]
        check_square(r.trisqrd, C, o, d, p, "mack_cl", ultimate="ultimate" in cols)
        F = ref.link_ratios(C)
        excl = {tuple(e) for e in case["excl"]}
        for j in range(n - 1):
            w = [F[i][j] for i in ref.ratio_rows(F, j) if (i, j) not in excl]
            if not min(w) * (1 - 1e-9) <= num(r.ldfs.iloc[j]) <= max(w) * (1 + 1e-9):
                violate("Mack factor {} = {} outside its ratios", d[j], r.ldfs.iloc[j])
        if case["alpha"] in (0, 1):
            b = tri.base_cl(sel="all-weighted" if case["alpha"] else "all-simple")
            same_series(r.ldfs, d, b.ldfs.values, "Mack vs chain ladder factors")
            for c in ("latest", "cldf", "emergence", "ultimate", "reserve"):
                same_vec(r.summary[c].values, b.summary[c].values, "Mack vs chain ladder " + c,
                         atol=1e-11 * max(p["ultimate"]) * n, labels=list(o) + ["total"])
        obs.unchanged(before, tri, "the triangle")
        t = size_tags(case) | {"alpha:%d" % case["alpha"]}
        if excl:
            t.add("excluded")
        return t


class C11(Prop):
    id = "C11"
    quick, thorough = 900, 9000
    rule = ("a case is a square cumulative triangle with resolvable variances, alpha and excluded link ratios; variances, process "
            "and parameter error, standard errors by origin and in total are recomputed; non-trivial = every judged case")

    def strategy(self, tier):
        return mack_case(8 if tier == "quick" else 14, excl=True)

    def check(self, case, exp):
        tri, _ = build(case)
        o, d, n = case["origins"], case["devs"], case["n"]
        r, C, m = run(case, tri)
        T, big, a = 1e-7, max(m["ultimate"]), case["alpha"]
        tiny = 1e-25 * big * big
        same_series(r.devpvar, d[:-1], m["s2"], "devpvar", T, 1e-25 * min(min(x for x in q if x == x) for q in C) ** a)
        same_series(r.ldfvar, d[:-1], m["v2"], "ldfvar", T, 1e-25)
        same_series(r.process_error, o, m["process"], "process_error", T, tiny)
        same_series(r.parameter_error, o, m["parameter"], "parameter_error", T, tiny)
        want = m["se"] + [m["total_se"]]
        same_series(r.std_error, list(o) + ["total"], want, "std_error", T, 1e-12 * big)
        same_vec(r.summary["std_error"].values, want, "summary std_error", T, 1e-12 * big, labels=list(o) + ["total"])
        same_series(r.mse, list(o) + ["total"], [w * w for w in want], "mse", T, tiny)
        done = [i for i in range(len(o)) if m["last"][i] == n - 1]
        for i in done:
            same(num(r.std_error.iloc[i]), 0.0, "standard error of the fully developed origin {}".format(o[i]))
        for i in range(len(o)):
            same(num(r.process_error.iloc[i]) + num(r.parameter_error.iloc[i]), num(r.mse.iloc[i]),
                 "process + parameter error vs mse [{}]".format(o[i]), 1e-9, tiny)
        cv = list(r.summary["cv"].values)
        res = list(r.summary["reserve"].values)
        for i in done:
            same(cv[i], NAN, "cv of the fully developed origin {}".format(o[i]))
        for i in range(len(done), len(o) + 1):
            if abs(res[i]) > 1e-9 * big:
                same(cv[i], want[i] / res[i], "cv[{}]".format((list(o) + ["total"])[i]), T)
        same_list([repr(x) for x in r.cv.values], [repr(x) for x in cv], ".cv")
        t = size_tags(case) | {"alpha:%d" % case["alpha"]}
        if case["excl"]:
            t.add("excluded")
        if len(ref.ratio_rows(ref.link_ratios(C), n - 2)) > 1:
            t.add("last-variance:direct")
        elif m["s2"][-2] == 0:
            t.add("extrapolated:zero")
        elif m["s2"][-1] == m["s2"][-2] ** 2 / m["s2"][-3]:
            t.add("extrapolated:ratio")
        else:
            t.add("extrapolated:min")
        return t


class C12(Prop):
    id = "C12"
    quick, thorough = 900, 9000
    rule = ("a case is a square cumulative triangle in any currency unit, a distribution and probabilities (scalar or container, "
            "unsorted, duplicated, 0 and 1, or invalid); non-trivial = at least one origin with positive reserve")

    def strategy(self, tier):
        hi = 7 if tier == "quick" else 12

        @st.composite
        def s(draw):
            case = draw(mack_case(hi, excl=True))
            k = draw(st.sampled_from([1, 1, 1, 1e-6, 1e-3, 1e6]))
            case["cum"] = [[v * k for v in r] for r in case["cum"]]
            case["q"] = draw(gen.q_spec())
            case["q2"] = draw(gen.q_spec())
            if case["omit"] and draw(st.integers(0, 2)):
                case["q"] = gen.DEFAULT_Q
            case["two"] = draw(st.booleans())
            case["bad"] = draw(st.one_of(st.none(), st.sampled_from([-0.1, 1.1, 75, -1e-9, 1.0000001, 95.0])))
            return case
        return s()

    def check(self, case, exp):
        tri, _ = build(case)
        o, n = case["origins"], case["n"]
        q, q2 = gen.q_value(case["q"]), gen.q_value(case["q2"])
        keep, keep2 = obs.snap(q), obs.snap(q2)
        r, C, m = run(case, tri, q=q, two_sided=case["two"])
        labels = list(o) + ["total"]
        mean = [num(v) for v in r.summary["reserve"].values]
        sd = [num(v) for v in r.summary["std_error"].values]
        big = max(m["ultimate"])
        same_vec(mean[:-1], m["reserve"], "reserve", atol=1e-11 * big)
        same_vec(sd, m["se"] + [m["total_se"]], "std_error", 1e-7, 1e-12 * big)
        tags = size_tags(case) | {"dist:" + case["dist"], "q:" + case["q"]["kind"]}

        def column(vals, prob, what):
            for i, lab in enumerate(labels):
                w = "{} [{}]".format(what, lab)
                if i < len(o) and m["last"][i] == n - 1:
                    same(vals[i], NAN, w)
                elif sd[i] <= 1e-9 * big:
                    continue
                elif case["dist"] == "norm":
                    same(vals[i], ref.dist_quantile("norm", mean[i], sd[i], prob), w, 1e-9, atol=1e-9 * sd[i])
                elif mean[i] > 1e-9 * big:
                    same(vals[i], ref.dist_quantile("lognorm", mean[i], sd[i], prob), w, 1e-7)
                    tags.add("lognormal-judged")

        got = [c for c in r.summary.columns if str(c).endswith("%")]
        want = gen.q_expected(case["q"], case["two"])
        same_list(got, [gen.pct(h) + "%" for h, _ in want], "summary quantile columns")
        for c, (h, prob) in zip(got, want):
            column(list(r.summary[c].values), prob, "summary " + c)
        if case["two"]:
            tags.add("two-sided")
        for spec, val in ((case["q2"], q2), (case["q"], q)):
            g = r.get_quantiles(val)
            want2 = gen.q_expected(spec)
            same_list(g.columns, [gen.ordinal(gen.pct(h)) for h, _ in want2], "get_quantiles columns")
            same_list(g.index, labels, "get_quantiles rows")
            for c, (h, prob) in zip(g.columns, want2):
                column(list(g[c].values), prob, "get_quantiles " + c)
                if gen.pct(h) + "%" in got:
                    same_vec(g[c].values, r.summary[gen.pct(h) + "%"].values, "summary vs get_quantiles " + c, 1e-9,
                             atol=1e-12 * big)
        for i in range(1, len(labels)):
            if sd[i] > 1e-9 * big and (case["dist"] == "norm" or mean[i] > 1e-9 * big):
                rv = r.rvs[labels[i]]
                same(rv.mean(), mean[i], "rvs[{}].mean()".format(labels[i]), 1e-8)
                same(rv.std(), sd[i], "rvs[{}].std()".format(labels[i]),
                     max(1e-4, 1e-15 * (mean[i] / sd[i]) ** 2))       # log(1 + cv^2) loses digits of a tiny cv
        if obs.snap(q) != keep or obs.snap(q2) != keep2:
            violate("the caller's probabilities were modified")
        if case["bad"] is not None:
            b = case["bad"]
            obs.raises(lambda: r.get_quantiles(b), "get_quantiles({})".format(b))
            obs.raises(lambda: r.get_quantiles([0.5, b]), "get_quantiles([0.5, {}])".format(b))
            obs.raises(lambda: tri.mack_cl(dist=case["dist"], q=[b, 0.75], two_sided=case["two"]), "mack_cl(q=[{}, .75])".format(b))
        if case["dist"] == "lognorm" and "lognormal-judged" not in tags:
            tags.add("trivial")
        return tags


def near_ties(C, center=False):
    """Ratios of one development period (or ratio and median) equal but for rounding."""
    F = ref.link_ratios(C)
    for j in range(len(F[0])):
        col = sorted(F[i][j] for i in ref.ratio_rows(F, j))
        pairs = list(zip(col, col[1:]))
        if center:
            med = ref.median(col)
            pairs += [(min(x, med), max(x, med)) for x in col]
        for a, b in pairs:
            if a != b and b - a <= 1e-11 * b:
                return True
    return False


PROBS = st.one_of(st.integers(1, 99).map(lambda v: v / 100), st.integers(1, 9999).map(lambda v: v / 10000))


@st.composite
def test_case(draw, hi):
    case = draw(gen.cum_case(4, hi, names=draw(st.integers(0, 3)) == 0))
    if draw(st.integers(0, 3)) == 0:           # late factors very close to one another
        case["cum"] = [[1e6 * (1 + i) + 3.0 * j + draw(st.integers(0, 9)) for j in range(case["n"] - i)]
                       for i in range(case["n"])]
        case["family"] = "flat"
    case["p"] = draw(PROBS)
    case["alpha"] = draw(st.sampled_from([0, 1, 2]))
    case["excl"] = []
    if draw(st.integers(0, 3)) == 3:           # marked as excluded, one ratio stays in every period
        n = case["n"]
        keep = [draw(st.integers(0, n - 2 - j)) for j in range(n - 1)]
        case["excl"] = [e for e in draw(gen.excl_cells(n)) if e[0] != keep[e[1]]]
    return case


def exclude(tri, case):
    for i, j in case.get("excl", ()):
        tri.a2aind = (case["origins"][i], case["devs"][j], 0)


class C13(Prop):
    id = "C13"
    quick, thorough = 900, 14000
    rule = ("a case is a square cumulative triangle (incl. tied ratios) and a probability; statistic, interval and rank table are "
            "recomputed; non-trivial = every judged case")

    def strategy(self, tier):
        return test_case(9 if tier == "quick" else 14)

    def check(self, case, exp):
        tri, C = build(case)
        o, n, p = case["origins"], case["n"], case["p"]
        if near_ties(C):
            raise Skip("ratios tied up to rounding")
        if not ref.spearman_weight(C):
            raise Skip("no two adjacent periods with two ratios each")
        exclude(tri, case)                     # the tests are of all observed ratios
        r = tri.mack_cl(alpha=1, dist="norm")
        np.random.seed(12345)
        s0 = np.random.get_state()
        (lb, ub), T = r.devp_corr_test(p)
        s1 = np.random.get_state()
        if not (s0[0] == s1[0] and (s0[1] == s1[1]).all() and s0[2:] == s1[2:]):
            violate("devp_corr_test disturbed the global random state")
        weight = ref.spearman_weight(C)
        z = special.ndtri((1 + p) / 2) / math.sqrt(weight)
        same(lb, -z, "lower bound p={}".format(p))
        same(ub, z, "upper bound p={}".format(p))
        same(T, ref.spearman_total(C), "correlation statistic", atol=1e-12)
        np.random.seed(999)
        again = r.devp_corr_test(p=p)
        if obs.snap(again) != obs.snap(((lb, ub), T)):
            violate("devp_corr_test gave {} then {}", ((lb, ub), T), again)
        (l5, u5), T5 = r.devp_corr_test()
        same(u5, special.ndtri(0.75) / math.sqrt(weight), "default interval")
        same(T5, T, "default statistic")
        R = tri.ranked_a2a
        tabs = ref.spearman_tables(C)
        cols = [c for k, _, _ in tabs for c in ("s_%d" % k, "r_%d" % k)]
        same_list(R.columns, cols, "ranked_a2a columns")
        for k, s, rr in tabs:
            for name, want in (("s_%d" % k, s), ("r_%d" % k, rr)):
                col = R[name].dropna()
                same_series(col, o[:len(want)], want, "ranked_a2a " + name)
        t = size_tags(case)
        if has_ties(C):
            t.add("tied-ratios")
        if case.get("excl"):
            t.add("excluded")
        return t


class C14(Prop):
    id = "C14"
    quick, thorough = 900, 14000
    rule = ("a case is a square cumulative triangle (incl. tied ratios, any labels) and a significance level; statistic, interval "
            "and high/low table are recomputed by enumeration of the binomial null; non-trivial = every judged case")

    def strategy(self, tier):
        return test_case(10 if tier == "quick" else 14)

    def check(self, case, exp):
        tri, C = build(case)
        o, d, n, p = case["origins"], case["devs"], case["n"], case["p"]
        if near_ties(C, center=True):
            raise Skip("ratios tied up to rounding")
        exclude(tri, case)                     # the tests are of all observed ratios
        r = tri.mack_cl(alpha=1, dist="norm")
        Z, E, V = ref.cy_test(C)
        for level, call in ((p, lambda: r.cy_effects_test(p)), (0.05, lambda: r.cy_effects_test())):
            (lb, ub), z = call()
            h = abs(special.ndtri(level / 2)) * math.sqrt(max(V, 0.0))
            same(z, Z, "calendar-year statistic")
            same(lb, E - h, "lower bound p={}".format(level), 1e-8, atol=1e-6)
            same(ub, E + h, "upper bound p={}".format(level), 1e-8, atol=1e-6)
        F, R = ratio_grid(C)
        A = tri.a2a_assignment
        sign = ref.signs(F)
        want = [[sign.get((i, j), NAN) for j in range(n - 1)] for i in range(R)]
        same_frame(A, o[:R], d[:-1], want, "a2a_assignment")
        t = size_tags(case)
        if has_ties(C):
            t.add("tied-ratios")
        if case.get("excl"):
            t.add("excluded")
        return t
