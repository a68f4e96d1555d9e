"""C15-C18, C25: the bootstrap estimator."""
import math
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from core import Prop, Skip, violate, same, same_list, same_vec, same_frame, same_series, plain, num
import gen
import obs
import ref
from p_ratio import build, size_tags, check_square
from p_tri import degenerate_boot, flat_from

NAN = float("nan")


@st.composite
def boot_case(draw, hi, sims=(1, 12), **kw):
    case = draw(gen.cum_case(3, hi, names=draw(st.integers(0, 3)) == 0, **kw))
    case = draw(gen.flat_tail(case))
    case["sims"] = draw(st.integers(*sims))
    if sims[1] > 6 and draw(st.integers(0, 29)) == 29:
        case["sims"] = draw(st.integers(100, 300))
    case["seed"] = draw(st.one_of(st.integers(0, 1000), st.integers(0, 2 ** 32 - 1)))
    case["parametric"] = draw(st.booleans())
    case["omit"] = draw(st.integers(0, 3)) == 3          # leave out arguments that equal the documented default
    case["excl"] = []
    if draw(st.integers(0, 4)) == 4:
        n = case["n"]              # at least one ratio stays in every development period
        keep = [draw(st.integers(0, n - 2 - j)) for j in range(n - 1)]
        case["excl"] = [e for e in draw(gen.excl_cells(n)) if e[0] != keep[e[1]]]
    return case


def start(case):
    """(triangle, cells, fit) of a case inside the bootstrap's domain."""
    tri, C = build(case)
    excl = {tuple(e) for e in case.get("excl", ())}
    if degenerate_boot(C, excl):
        raise Skip("degenerate residuals")
    for i, j in sorted(excl):
        tri.a2aind = (case["origins"][i], case["devs"][j], 0)
    return tri, C, ref.boot_fit(C, excl)


def boot(case, tri, **kw):
    args = gen.given(case, "boot_cl", dict(kw, sims=case["sims"], parametric=case["parametric"]))
    return tri.boot_cl(random_state=case["seed"], **args)


def boot_tags(case, fit):
    t = size_tags(case) | {"parametric" if case["parametric"] else "resampled"}
    if any(x < 0 for row in fit[2] for x in row):
        t.add("negative-fitted-increment")
    if case.get("excl"):
        t.add("excluded")
    t.discard("trivial")
    return t


def seen_cells(C):
    return [(i, j) for i in range(len(C)) for j in range(len(C[0])) if C[i][j] == C[i][j]]


def resampled(C, A):
    """Adjusted residuals that are drawn from: not zero, and not of a lone observation of an
    origin or period, which is fitted exactly."""
    rows = [sum(1 for x in row if x == x) for row in C]
    cols = [sum(1 for row in C if row[j] == row[j]) for j in range(len(C[0]))]
    return [float(A[i, j]) for i, j in seen_cells(C) if rows[i] > 1 and cols[j] > 1 and A[i, j] == A[i, j] and A[i, j] != 0]


def residuals(C, fit):
    """Unscaled residuals (NaN where nothing develops), degrees of freedom, cells, scale parameter."""
    R, n = len(C), len(C[0])
    f, cum, inc, act = fit
    us = [[NAN] * n for _ in range(R)]
    for i, j in seen_cells(C):
        if not (j and flat_from(C, j)):
            us[i][j] = (act[i][j] - inc[i][j]) / math.sqrt(abs(inc[i][j]))
    cells = len(seen_cells(C))
    dof = cells - (n - 1) + R
    scale = math.fsum(x * x for r in us for x in r if not math.isnan(x)) / dof
    return us, dof, cells, scale


class C15(Prop):
    id = "C15"
    quick, thorough = 560, 9000
    rule = ("a case is a square cumulative triangle (3+ periods, negative increments and fully developed tails included); fitted "
            "triangles, residuals, scale parameter, sampling distribution and summary statistics are recomputed; non-trivial = "
            "every judged case")

    def strategy(self, tier):
        return boot_case(8 if tier == "quick" else 14, sims=(1, 3))

    def check(self, case, exp):
        tri, C, fit = start(case)
        o, d, n = case["origins"], case["devs"], case["n"]
        before = obs.frame_state(tri)
        r = boot(case, tri)
        f, cum, inc, act = fit
        big = max(max(x for x in row if x == x) for row in C)
        at = 1e-11 * big
        same_series(r.ldfs, d, f + [1.0], "bootstrap ldfs")
        same_frame(r.fitted_tri_cum, o, d, cum, "fitted_tri_cum")
        same_frame(r.fitted_tri_incr, o, d, inc, "fitted_tri_incr", atol=at)
        check_square(r.trisqrd, C, o, d, ref.project(C, f + [1.0]), "boot_cl", ultimate="ultimate" in list(r.trisqrd.columns))
        us, dof, cells, scale = residuals(C, fit)
        # rounding of a residual: increments are differences of amounts up to `big`
        small = min(abs(inc[i][j]) for i, j in seen_cells(C) if not (j and flat_from(C, j)))
        ra = 1e-13 * big / math.sqrt(small) * 10
        T = 1e-6
        same_frame(r.unscaled_residuals, o, d, us, "unscaled_residuals", T, ra)
        k = math.sqrt(cells / dof)
        same_frame(r.adjusted_residuals, o, d, [[v * k for v in row] for row in us], "adjusted_residuals", T, ra)
        same(r.dof, dof, "dof")
        same(r.scale_param, scale, "scale_param", T, ra * ra)
        U, A = r.unscaled_residuals, r.adjusted_residuals
        uv = [num(v) for v in np.asarray(U.values, dtype=float).ravel() if v == v]
        av = [num(v) for v in np.asarray(A.values, dtype=float).ravel() if v == v]
        same(r.scale_param, math.fsum(x * x for x in uv) / dof, "scale_param vs residuals")
        same_vec(av, [x * k for x in uv], "adjusted vs unscaled residuals")
        tags = boot_tags(case, fit)
        if case["parametric"]:
            if r.sampling_dist is not None or r.residuals_detail is not None:
                violate("parametric run reports a sampling distribution")
        else:
            want = sorted(resampled(C, np.asarray(A.values, dtype=float)))
            got = sorted(num(v) for v in np.ravel(r.sampling_dist))
            same_vec(got, want, "sampling_dist")
            det = r.residuals_detail
            for col, vals in (("unscaled", uv), ("adjusted", av)):
                self.stats(det[col], [v for v in vals if v != 0], col)
        obs.unchanged(before, tri, "the triangle")
        return tags

    def stats(self, got, x, what):
        N = len(x)
        m = math.fsum(x) / N
        m2 = math.fsum((v - m) ** 2 for v in x) / N
        m3 = math.fsum((v - m) ** 3 for v in x) / N
        m4 = math.fsum((v - m) ** 4 for v in x) / N
        s = sorted(x)
        size = max(abs(v) for v in x)
        one = {"size": N, "sum": math.fsum(x), "sum_of_squares": math.fsum(v * v for v in x), "minimum": s[0],
               "maximum": s[-1], "mean": m, "variance": m2 * N / (N - 1),
               "standard_deviation": math.sqrt(m2 * N / (N - 1)), "median": ref.median(s)}
        for k, v in one.items():
            same(got[k], v, "residuals_detail {} {}".format(what, k), 1e-8, 1e-11 * size * (size if k in (
                "variance", "sum_of_squares") else N))
        if m2 > 1e-6 * size * size:
            same(got["skew"], m3 / m2 ** 1.5, "residuals_detail {} skew".format(what), 1e-6, 1e-7)
            same(got["kurtosis"], m4 / m2 ** 2 - 3, "residuals_detail {} kurtosis".format(what), 1e-6, 1e-7)
        if abs(m) > 1e-6 * size:
            same(got["cov"], math.sqrt(m2) / m, "residuals_detail {} cov".format(what), 1e-6)
        mode = num(got["mode"])
        cnt = {v: x.count(v) for v in x}
        if mode not in cnt or cnt[mode] != max(cnt.values()):
            violate("residuals_detail {} mode {} is not a most frequent residual", what, mode)


def cube(df, case, col):
    """sims x n x n array of a sims_data column, after checking the keys."""
    R, n, sims = len(case["origins"]), case["n"], case["sims"]
    s = df.sort_values(by=["sim", "origin", "dev"])
    return np.asarray(s[col].values).reshape(sims, R, n)


def check_keys(df, case):
    o, d, n, sims = case["origins"], case["devs"], case["n"], case["sims"]
    if len(df) != sims * len(o) * n:
        violate("sims_data has {} rows, expected {} simulations of {} cells", len(df), sims, len(o) * n)
    got = sorted((plain(a), plain(b), plain(c)) for a, b, c in zip(df["sim"].values, df["origin"].values, df["dev"].values))
    ids = sorted({g[0] for g in got})
    if len(ids) != sims:
        violate("sims_data holds {} simulations, expected {}", len(ids), sims)
    if got != [(k, a, b) for k in ids for a in o for b in d]:
        violate("sims_data does not hold every cell once per simulation")
    return ids


def close(got, want, rtol, atol, what, case):
    bad = ~(np.abs(got - want) <= atol + rtol * np.maximum(np.abs(got), np.abs(want)))
    if bad.any():
        k = tuple(int(v[0]) for v in np.nonzero(bad))
        violate("{} at {}: got {!r}, expected {!r}", what, k, float(np.broadcast_to(got, bad.shape)[k]),
                float(np.broadcast_to(want, bad.shape)[k]))


class C16(Prop):
    id = "C16"
    quick, thorough = 560, 6000
    rule = ("a case is a square cumulative triangle, simulations, parametric flag and seed; every cell of every simulation is "
            "recomputed from its residual, factor and process draw; non-trivial = every judged case")

    def strategy(self, tier):
        return boot_case(7 if tier == "quick" else 10, sims=(1, 10 if tier == "quick" else 60))

    def check(self, case, exp):
        tri, C, fit = start(case)
        o, d, n, sims = case["origins"], case["devs"], case["n"], case["sims"]
        r = boot(case, tri)
        df = r.sims_data
        check_keys(df, case)
        tags = boot_tags(case, fit)
        R = len(o)
        final = ref.last_dev(C)
        act = np.array([[j <= final[i] for j in range(n)] for i in range(R)])
        rec = cube(df, case, "rectype")
        if not ((rec == "actual") == act).all() or not ((rec == "forecast") == ~act).all():
            violate("record types are not those of the triangle's cells")
        g = {c: cube(df, case, c).astype(float) for c in ("incr", "resid", "samp_incr", "samp_cum", "ldf", "final_incr",
                                                         "ultimate", "latest", "reserve", "sign")}
        big = max(max(x for x in row if x == x) for row in C)
        inc = np.array(fit[2])
        A = np.broadcast_to(act, (sims, R, n))
        close(g["incr"][A], np.broadcast_to(inc, (sims, R, n))[A], 1e-8, 1e-11 * big, "fitted increment", case)
        scale = np.nanmax(np.abs(np.where(A, g["samp_cum"], 0)), axis=(1, 2), keepdims=True) + big
        sc = np.broadcast_to(scale, (sims, R, n))
        want = g["incr"] + g["resid"] * np.sqrt(np.abs(g["incr"]))
        close(g["samp_incr"][A], want[A], 1e-9, 1e-11 * sc[A], "resampled increment", case)
        wcum = np.cumsum(np.where(A, want, 0), axis=2)
        close(g["samp_cum"][A], wcum[A], 1e-9, 1e-11 * sc[A], "resampled cumulative", case)
        if not np.isnan(g["resid"][~A]).all():
            violate("future cells carry residuals")
        if case["parametric"]:
            if r.sampling_dist is not None:
                violate("parametric run reports a sampling distribution")
        else:
            dist = np.sort(np.ravel(r.sampling_dist).astype(float))
            res = g["resid"][A]
            k = np.clip(np.searchsorted(dist, res), 1, len(dist) - 1)
            gap = np.minimum(np.abs(res - dist[k]), np.abs(res - dist[k - 1]))
            if (gap > 1e-12 * np.abs(dist).max()).any():
                violate("residual {} is not in the sampling distribution", float(res[gap.argmax()]))
        # development factors
        for s in range(sims):
            M = wcum[s]
            for j in range(n - 1):
                a = M[act[:, j + 1], j]
                b = M[act[:, j + 1], j + 1]
                den = math.fsum(a)
                weak = abs(den) < 1e-5 * np.abs(a).sum()
                if weak:
                    tags.add("cancelling-denominator")
                else:
                    fj = math.fsum(b) / den
                    for i in range(R):
                        same(g["ldf"][s, i, j], fj, "simulated factor sim {} origin {} dev {}".format(s, o[i], d[j]), 1e-7,
                             1e-10 * np.abs(b).sum() / abs(den))
            lf = g["ldf"][s]
            if not (np.abs(lf[:, :-1] - lf[:1, :-1]) <= 1e-12 * np.abs(lf[:1, :-1])).all():
                violate("simulated factors differ between origins of one simulation")
            for i in range(R):
                last = final[i]
                run = M[i, last]
                cumscale = np.abs(M[i, :last + 1]).max() + big
                prod = 1.0
                prev = run
                for j in range(last + 1, n):
                    fac = lf[0, j - 1]
                    prod *= fac
                    nxt = run * prod
                    at = 1e-10 * cumscale * max(1.0, abs(prod))
                    w = "projection sim {} origin {} dev {}".format(s, o[i], d[j])
                    same(g["samp_cum"][s, i, j], nxt, w, 1e-9, at)
                    same(g["samp_incr"][s, i, j], nxt - prev, w + " increment", 1e-9, at + 1e-9 * max(abs(nxt), abs(prev)))
                    prev = nxt
        # process error
        fin, si = g["final_incr"], g["samp_incr"]
        if not (fin[A] == si[A]).all():
            close(fin[A], si[A], 1e-12, 0, "final increment of an actual cell", case)
        fu = ~A
        if not np.isfinite(fin[fu]).all():
            violate("process error is not finite")
        if ((fin[fu] * si[fu]) < 0).any():
            violate("process error changed the sign of a future increment")
        tot = np.cumsum(fin, axis=2)
        ts = np.maximum.accumulate(np.abs(fin).cumsum(axis=2), axis=2)
        close(g["ultimate"], tot, 1e-9, 1e-11 * ts, "cumulated result", case)
        for i in range(R):
            last = final[i]
            if last == n - 1:
                continue
            la = np.broadcast_to(wcum[:, i, last:last + 1], (sims, n - last))
            close(g["latest"][:, i, last:], la, 1e-9, 1e-11 * sc[:, i, last:], "simulated latest of origin {}".format(o[i]), case)
            close(g["reserve"][:, i, last:], g["ultimate"][:, i, last:] - g["latest"][:, i, last:], 1e-9,
                  1e-11 * (ts[:, i, last:] + sc[:, i, last:]), "reserve of origin {}".format(o[i]), case)
        # documented intermediate columns
        ld = cube(df, case, "l_act_dev")
        if not (ld == np.array([d[k] for k in final])[None, :, None]).all():
            violate("l_act_dev is not the latest observed period of the origin")
        phi = num(r.scale_param)
        x = {c: cube(df, case, c).astype(float) for c in ("var", "incr_sqrt", "param1", "param2")}
        close(x["var"], np.abs(si) * phi, 1e-9, 0, "var", case)
        close(x["incr_sqrt"][A], np.sqrt(np.abs(g["incr"][A])), 1e-9, 0, "incr_sqrt", case)
        close((x["param1"] * x["param2"])[fu], np.abs(si)[fu], 1e-9, 0, "mean of the process distribution", case)
        close((x["param1"] * x["param2"] ** 2)[fu], x["var"][fu], 1e-9, 0, "variance of the process distribution", case)
        if not (g["sign"][si > 0] == 1).all() or not (g["sign"][si < 0] == -1).all():
            violate("sign is not that of samp_incr")
        # reserve distribution
        rd = r.reserve_dist
        for i in range(R):
            p = rd[rd["origin"] == o[i]].sort_values("sim")
            if len(p) != sims:
                violate("reserve_dist has {} rows of origin {}, expected {}", len(p), o[i], sims)
            wl = wcum[:, i, final[i]]
            wu = tot[:, i, n - 1]
            t = ts[:, i, n - 1] + sc[:, i, 0]
            close(p["ultimate"].values.astype(float), wu, 1e-9, 1e-11 * t, "reserve_dist ultimate {}".format(o[i]), case)
            close(p["latest"].values.astype(float), wl, 1e-9, 1e-11 * t, "reserve_dist latest {}".format(o[i]), case)
            close(p["reserve"].values.astype(float), wu - wl if final[i] < n - 1 else 0 * wu, 1e-9, 1e-10 * t,
                  "reserve_dist reserve {}".format(o[i]), case)
        return tags


METHODS = ["linear", "lower", "higher", "midpoint", "nearest"]


def quantile_set(x, prob, method):
    """Values a percentile may take (several only where rounding decides)."""
    x = sorted(x)
    N = len(x)
    pos = prob * (N - 1)
    k = int(math.floor(pos))
    frac = pos - k
    at = lambda i: x[min(max(i, 0), N - 1)]
    out = []
    eps = 1e-9 * max(1.0, pos)
    if method == "linear":
        return [at(k) + (at(k + 1) - at(k)) * frac]
    cands = [(k, frac)]
    if frac < eps:
        cands = [(k, 0.0), (k, 0.25), (k - 1, 0.75)]
    elif frac > 1 - eps:
        cands = [(k + 1, 0.0), (k, 0.75), (k + 1, 0.25)]
    for kk, fr in cands:
        if method == "lower":
            out.append(at(kk))
        elif method == "higher":
            out.append(at(kk + 1) if fr > 0 else at(kk))
        elif method == "midpoint":
            out.append((at(kk) + at(kk + 1)) / 2 if fr > 0 else at(kk))
        else:
            if abs(fr - 0.5) < eps:
                out += [at(kk), at(kk + 1)]
            else:
                out.append(at(kk + 1) if fr > 0.5 else at(kk))
    return out


def one_of(got, cands, what, atol):
    g = num(got, what)
    if not any(abs(g - c) <= atol + 1e-9 * abs(c) for c in cands):
        violate("{}: got {!r}, expected {!r}", what, g, cands[0] if len(cands) == 1 else cands)


class C17(Prop):
    id = "C17"
    quick, thorough = 320, 6000
    rule = ("a case is a square cumulative triangle, simulations, seed, probabilities, interpolation, sidedness and lower bound; "
            "summary and quantiles are recomputed from the simulated reserves; non-trivial = at least 3 simulations")

    def strategy(self, tier):
        hi = 6 if tier == "quick" else 9

        @st.composite
        def s(draw):
            case = draw(boot_case(hi, sims=(2, 40 if tier == "quick" else 80)))
            case["q"], case["q2"] = draw(gen.q_spec()), draw(gen.q_spec())
            case["two"] = draw(st.booleans())
            case["interp"], case["interp2"] = draw(st.sampled_from(METHODS)), draw(st.sampled_from(METHODS))
            if case["omit"] and draw(st.integers(0, 2)):
                case["q"], case["interp"] = gen.DEFAULT_Q, "linear"
                if case["n"] < 5 and draw(st.integers(0, 3)) == 3:
                    case["sims"] = 1000
            case["lb"] = draw(st.one_of(st.none(), st.just(0.0), st.integers(-50, 150)))
            case["bad"] = draw(st.one_of(st.none(), st.sampled_from([-0.1, 1.1, 75, -1e-9, 1.0000001, 95.0])))
            return case
        return s()

    def check(self, case, exp):
        tri, C, fit = start(case)
        o, d, n, sims = case["origins"], case["devs"], case["n"], case["sims"]
        q, q2 = gen.q_value(case["q"]), gen.q_value(case["q2"])
        keep = obs.snap(q), obs.snap(q2)
        r = boot(case, tri, q=q, two_sided=case["two"], interpolation=case["interp"])
        rd = r.reserve_dist
        sd = r.sims_data
        labels = list(o) + ["total"]
        # simulated reserves from the simulation data itself
        res, ult = {}, {}
        R, final = len(o), ref.last_dev(C)
        done = [x == n - 1 for x in final]
        last = sd[sd["dev"] == d[-1]].sort_values(by=["origin", "sim"])
        for i, org in enumerate(o):
            p = last[last["origin"] == org]
            ult[org] = [num(v) for v in p["ultimate"].values]
            res[org] = [0.0] * sims if done[i] else [num(v) for v in p["reserve"].values]
            if len(ult[org]) != sims:
                violate("{} simulated ultimates of origin {}, expected {}", len(ult[org]), org, sims)
        res["total"] = [math.fsum(res[x][k] for x in o) for k in range(sims)]
        big = max([abs(v) for x in labels for v in res[x]] + [abs(v) for x in o for v in ult[x]] + [max(C[0])])
        at = 1e-10 * big
        for lab in labels:
            p = rd[rd["origin"] == lab].sort_values("sim")
            same_vec(p["reserve"].values, res[lab], "reserve_dist reserves of {}".format(lab), atol=at)
            if lab != "total":
                same_vec(p["ultimate"].values, ult[lab], "reserve_dist ultimates of {}".format(lab), atol=at)
        got = sorted({str(plain(x)) for x in rd["origin"].values})
        if got != sorted(str(x) for x in labels):
            violate("reserve_dist origins: {}", got)
        if len(rd) != sims * (R + 1):
            violate("reserve_dist has {} rows, expected {}", len(rd), sims * (R + 1))
        s = r.summary
        same_list(s.index, labels, "summary rows")
        lat = [C[i][final[i]] for i in range(R)]
        cl = ref.cum_factors(fit[0] + [1.0])
        cldf = [cl[x] for x in final]
        same_list([str(x) for x in s["maturity"].values], [str(d[x]) for x in final] + [""], "maturity")
        same_vec(s["cldf"].values, cldf + [NAN], "cldf", labels=labels)
        same_vec(s["emergence"].values, [1 / c for c in cldf] + [NAN], "emergence", labels=labels)
        same_vec(s["latest"].values, lat + [math.fsum(lat)], "latest", labels=labels)
        means = [lat[i] if done[i] else math.fsum(ult[x]) / sims for i, x in enumerate(o)]
        same_vec(s["ultimate"].values, means + [math.fsum(means)], "ultimate", atol=at, labels=labels)
        wres = [means[i] - lat[i] for i in range(R)]
        same_vec(s["reserve"].values, wres + [math.fsum(wres)], "reserve", atol=at, labels=labels)
        for i in range(sum(done)):
            same(s["reserve"].values[i], 0.0, "reserve of the fully developed origin {}".format(o[i]))
        se = []
        for lab in labels:
            x = res[lab]
            m = math.fsum(x) / sims
            se.append(math.sqrt(math.fsum((v - m) ** 2 for v in x) / (sims - 1)))
        same_vec(s["std_error"].values, se, "std_error", 1e-6, 1e-9 * big, labels)
        for i, lab in enumerate(labels):
            w = num(s["reserve"].values[i])
            if i >= sum(done) and abs(w) > 1e-6 * big:
                same(s["cv"].values[i], num(s["std_error"].values[i]) / w, "cv [{}]".format(lab))
        for col, attr in (("cldf", "cldfs"), ("emergence", "emergence"), ("latest", "latest"), ("ultimate", "ultimate"),
                          ("reserve", "reserve"), ("std_error", "std_error"), ("cv", "cv")):
            a = getattr(r, attr)
            same_list(a.index, labels, "." + attr + " labels")
            same_vec(a.values, s[col].values, "." + attr, 1e-12, labels=labels)
        same_list([str(x) for x in r.maturity.values], [str(x) for x in s["maturity"].values], ".maturity")
        same(r.sims, sims, ".sims")
        if bool(r.parametric) != case["parametric"]:
            violate("the result calls itself parametric={}", r.parametric)
        want = gen.q_expected(case["q"], case["two"])
        cols = [c for c in s.columns if str(c).endswith("%")]
        same_list(cols, [gen.pct(h) + "%" for h, _ in want], "summary quantile columns")
        for c, (h, p) in zip(cols, want):
            for lab in labels:
                one_of(s.loc[lab, c], quantile_set(res[lab], p, case["interp"]), "summary {} [{}] ({})".format(c, lab, case["interp"]), at)
        lb = case["lb"]
        if lb is not None and lb != 0.0:
            lb = lb / 100 * abs(num(s["reserve"].values[-1]))
        for spec, val, method, bound in ((case["q2"], q2, case["interp2"], lb), (case["q"], q, "linear", None)):
            g = r.get_quantiles(val) if method == "linear" and bound is None else \
                r.get_quantiles(val, interpolation=method, lb=bound)
            w2 = gen.q_expected(spec)
            same_list(g.columns, [gen.ordinal(gen.pct(h)) for h, _ in w2], "get_quantiles columns")
            same_list(g.index, labels, "get_quantiles rows")
            for c, (h, p) in zip(g.columns, w2):
                for lab in labels:
                    cand = quantile_set(res[lab], p, method)
                    if bound is not None:
                        cand = [max(bound, v) for v in cand]
                    one_of(g.loc[lab, c], cand, "get_quantiles {} [{}] ({}, lb={})".format(c, lab, method, bound), at)
        od = r.origin_dist
        if len(od) != len(rd):
            violate("origin_dist has {} rows, expected {}", len(od), len(rd))
        for lab in labels:
            p = od[od["origin"] == lab].sort_values("sim")
            same_vec(p["reserve"].values, res[lab], "origin_dist of {}".format(lab), atol=at)
        if (obs.snap(q), obs.snap(q2)) != keep:
            violate("the caller's probabilities were modified")
        if case["bad"] is not None:
            b = case["bad"]
            obs.raises(lambda: r.get_quantiles([0.5, b]), "get_quantiles([0.5, {}])".format(b))
            obs.raises(lambda: boot(case, tri, q=[b, 0.75], two_sided=case["two"]), "boot_cl(q=[{}, .75])".format(b))
        tags = boot_tags(case, fit) | {"interp:" + case["interp"], "interp2:" + case["interp2"], "q:" + case["q"]["kind"]}
        if case["two"]:
            tags.add("two-sided")
        if lb is not None:
            tags.add("lower-bound")
        if sims < 3:
            tags.add("trivial")
        return tags


def rng_state(g=None):
    s = np.random.get_state() if g is None else g.get_state()
    return (s[0], s[1].tolist(), s[2], s[3], s[4])


def result_snap(r):
    return obs.snap(r.sims_data), obs.snap(r.summary), obs.snap(r.reserve_dist)


def must_differ(a, b, case, C, scale, what):
    """Two runs that may not share their random draws: neither the residuals nor the process noise repeat."""
    from scipy import stats
    act = np.array(C) == np.array(C)
    A = np.broadcast_to(act, (case["sims"],) + act.shape)
    ga, gb = ({c: cube(r.sims_data, case, c).astype(float) for c in ("resid", "samp_incr", "final_incr")} for r in (a, b))
    ra, rb = ga["resid"][A], gb["resid"][A]
    bits = 1e9 if case["parametric"] else ra.size * math.log2(max(1, len(set(ra) | set(rb)) / 2))
    if bits > 60 and (ra == rb).mean() == 1:
        violate("{} give the same {} residual draws", what, ra.size)
    with np.errstate(all="ignore"):
        ka, kb = np.abs(ga["samp_incr"]) / scale, np.abs(gb["samp_incr"]) / scale
        ok = ~A & (ka > 3) & (kb > 3) & (ka < 1e7) & (kb < 1e7)
        za = stats.norm.ppf(stats.gamma.cdf(np.abs(ga["final_incr"][ok]) / scale, ka[ok]))
        zb = stats.norm.ppf(stats.gamma.cdf(np.abs(gb["final_incr"][ok]) / scale, kb[ok]))
    fine = np.isfinite(za) & np.isfinite(zb)
    za, zb = za[fine], zb[fine]
    # unrelated draws agree this closely in about 3 % of the pairs
    if len(za) >= 12 and (np.abs(za - zb) < .05).mean() > .75:
        violate("{} give the same process noise in {} of {} forecasts", what, int((np.abs(za - zb) < .05).sum()), len(za))
    return {"residuals-compared"} if bits > 60 else set(), {"process-noise-compared"} if len(za) >= 12 else set()


class C18(Prop):
    id = "C18"
    quick, thorough = 120, 4000
    rule = ("a case is a square triangle, a seed and a history of interleaved runs with integer seeds of any integer type, "
            "generators and the global generator; non-trivial = every judged case")

    def strategy(self, tier):
        hi = 5 if tier == "quick" else 8

        @st.composite
        def s(draw):
            case = dict(draw(boot_case(hi, sims=(1, 6))), excl=[])
            case["steps"] = draw(st.lists(st.sampled_from(
                ["int", "np.int64", "np.int32", "np.uint32", "rs", "rs-reuse", "none", "none-seeded", "other-seed",
                 "draw", "other-query", "other-params", "fresh-triangle"]), min_size=2, max_size=6))
            case["seed"] = case["seed"] if "np.int32" not in case["steps"] else case["seed"] % (2 ** 31)
            case["gseed"] = draw(st.integers(0, 2 ** 32 - 1))
            case["flip"] = draw(st.integers(0, 31))
            return case
        return s()

    def check(self, case, exp):
        tri, C, fit = start(case)
        seed, gseed = case["seed"], case["gseed"]
        kw = dict(sims=case["sims"], parametric=case["parametric"])
        np.random.seed(gseed)
        g0 = rng_state()
        first = tri.boot_cl(random_state=seed, **kw)
        base = result_snap(first)
        scale = num(first.scale_param)
        if rng_state() != g0:
            violate("boot_cl(random_state={}) disturbed NumPy's global generator", seed)
        tags = boot_tags(case, fit)
        big = tri

        def expect_same(r, what, want=base):
            got = result_snap(r)
            if got != want:
                violate("{} differs: {}", what, next(m for m in (obs.near(x, y, rtol=0) for x, y in zip(got, want)) if m))

        kinds = {"int": int, "np.int64": np.int64, "np.int32": np.int32, "np.uint32": np.uint32}
        for step in case["steps"] + ["other-seed"]:
            tags.add("step:" + step)
            before = rng_state()
            if step in kinds:
                expect_same(tri.boot_cl(random_state=kinds[step](seed), **kw), "run with {} seed {}".format(step, seed))
            elif step == "rs":
                g1, g2 = np.random.RandomState(seed), np.random.RandomState(seed)
                a = tri.boot_cl(random_state=g1, **kw)
                b = tri.boot_cl(random_state=g2, **kw)
                expect_same(b, "run with an equal-state generator", result_snap(a))
                if rng_state(g1) != rng_state(g2):
                    violate("equal-state generators ended in different states")
                if rng_state(g1) == rng_state(np.random.RandomState(seed)):
                    violate("the passed generator was not consumed")
            elif step == "rs-reuse":
                g1 = np.random.RandomState(seed)
                ra = tri.boot_cl(random_state=g1, **kw)
                mid = g1.get_state()
                rb = tri.boot_cl(random_state=g1, **kw)
                a, b = result_snap(ra), result_snap(rb)
                if a[0] == b[0]:
                    violate("a reused generator gave the same simulations twice")
                tags.update(*must_differ(ra, rb, case, C, scale, "two runs with one generator"))
                g2 = np.random.RandomState(0)
                g2.set_state(mid)
                expect_same(tri.boot_cl(random_state=g2, **kw), "run continuing the generator's stream", b)
            elif step in ("none", "none-seeded"):
                np.random.seed(gseed)
                start_ = rng_state()
                a = result_snap(tri.boot_cl(**kw) if step == "none" else tri.boot_cl(random_state=None, **kw))
                if rng_state() == start_:
                    violate("run without random state did not use NumPy's global generator")
                g = np.random.RandomState(gseed)
                b = result_snap(tri.boot_cl(random_state=g, **kw))
                if a != b or rng_state() != rng_state(g):
                    violate("run without random state differs from one with a generator in the global generator's state")
                np.random.seed(gseed)
                expect_same(tri.boot_cl(random_state=None, **kw), "repeated run after np.random.seed", a)
                continue
            elif step == "other-seed":
                other = seed ^ (1 << case["flip"])
                r = tri.boot_cl(random_state=other, **kw)
                if result_snap(r)[0] == base[0]:
                    violate("seeds {} and {} give the same simulations", seed, other)
                tags.update(*must_differ(first, r, case, C, scale, "seeds {} and {}".format(seed, other)))
            elif step == "draw":
                np.random.random(3)
                continue
            elif step == "other-query":
                tri.base_cl()
                tri.boot_cl(sims=2, random_state=7).get_quantiles(.5)
            elif step == "other-params":
                expect_same(tri.boot_cl(random_state=seed, q=[.1], two_sided=True, interpolation="lower", **kw),
                            "simulations with other quantile options",
                            (base[0],) + result_snap(tri.boot_cl(random_state=seed, q=[.1], two_sided=True,
                                                                interpolation="lower", **kw))[1:])
            else:
                expect_same(build(case)[0].boot_cl(random_state=seed, **kw), "run on a fresh triangle")
            if rng_state() != before:
                violate("{} disturbed NumPy's global generator", step)
        expect_same(tri.boot_cl(random_state=seed, **kw), "the first run repeated at the end")
        return tags


class C25(Prop):
    id = "C25"
    quick, thorough = 192, 2000
    rule = ("a case is a square triangle and a seed with several thousand draws; residual frequencies, independence, normality and "
            "gamma process error are tested at false-alarm probability below 1e-9; non-trivial = every judged case")
    assumptions = ["goodness of fit is judged on fixed seeds with p-values below 1e-10 counted as violations"]
    LIM = 1e-10

    def strategy(self, tier):
        @st.composite
        def s(draw):
            case = draw(gen.cum_case(4, 6 if tier == "quick" else 9, plain=False))
            if draw(st.integers(0, 4)) == 4:          # nearly no noise: forecasts large against the scale parameter
                case["family"], n = "smooth", case["n"]
                base, eps = draw(st.sampled_from([1e3, 1e6, 1e8])), draw(st.sampled_from([100, 10000]))
                case["cum"] = [[base * (1 + i % 3) * (2 - 0.5 ** j) * (1 + draw(st.integers(-9, 9)) / eps / (j + 1))
                                for j in range(n - i)] for i in range(n)]
            case["sims"] = draw(st.sampled_from([250, 400] if tier == "quick" else [400, 1000]))
            case["seed"] = draw(st.integers(0, 2 ** 32 - 1))
            case["parametric"] = draw(st.booleans())
            return case
        return s()

    def check(self, case, exp):
        from scipy import stats
        tri, C, fit = start(case)
        n, sims = case["n"], case["sims"]
        r = boot(case, tri)
        check_keys(r.sims_data, case)
        act = np.array(C) == np.array(C)
        A = np.broadcast_to(act, (sims,) + act.shape)
        resid = cube(r.sims_data, case, "resid").astype(float)
        res = resid[:, act]                        # sims x cells
        dist = np.array(resampled(C, np.asarray(r.adjusted_residuals.values, dtype=float)))
        tags = boot_tags(case, fit)

        def judge(p, what):
            if not p >= self.LIM:
                violate("{}: p-value {:.3g} over {} draws", what, p, res.size)

        if case["parametric"]:
            sd = dist.std(ddof=1)
            judge(stats.kstest(res.ravel(), "norm", args=(0, sd)).pvalue, "parametric residuals are not normal(0, {:.6g})".format(sd))
            z = res / sd
            judge(2 * stats.norm.sf(abs(z.sum()) / math.sqrt(z.size)), "mean of parametric residuals")
            v = (z ** 2).sum()
            judge(2 * min(stats.chi2.cdf(v, z.size), stats.chi2.sf(v, z.size)), "variance of parametric residuals")
            u = stats.norm.cdf(z)
        else:
            uniq = np.unique(dist)
            cls = np.argmin(np.abs(res.ravel()[:, None] - uniq[None, :]), axis=1) if res.size * len(uniq) < 5e7 else \
                np.searchsorted(uniq, res.ravel())
            off = np.abs(res.ravel() - uniq[cls]).max()
            if off > 1e-9 * np.abs(dist).max():
                violate("a drawn residual is not in the sampling distribution")
            mult = np.array([(dist == x).sum() for x in uniq])
            cnt = np.bincount(cls, minlength=len(uniq))
            judge(stats.chisquare(cnt, mult / mult.sum() * cnt.sum()).pvalue, "residuals are not drawn uniformly")
            # each cell draws from the whole distribution
            C2 = cls.reshape(res.shape)
            for k in range(C2.shape[1]):
                c = np.bincount(C2[:, k], minlength=len(uniq))
                x2 = ((c - sims * mult / mult.sum()) ** 2 / (sims * mult / mult.sum())).sum()
                # exact small-expectation safety: Cantelli-type bound on the chi-square statistic via normal on its maximum
                pmax = stats.binom.sf(c.max() - 1, sims, mult[c.argmax()] / mult.sum()) * len(uniq)
                judge(min(1.0, pmax), "residuals of one cell favour one value")
                if (c == 0).any():
                    i0 = int(np.argmin(c / mult))
                    judge(min(1.0, len(uniq) * (1 - mult[i0] / mult.sum()) ** sims), "residual never drawn for one cell")
            u = (np.cumsum(np.concatenate([[0], mult]))[cls] + 0.5 * mult[cls]) / mult.sum()
            u = u.reshape(res.shape)
        # independence: neighbouring cells, neighbouring simulations and whole repeats
        w = u - u.mean()
        s2 = (w ** 2).mean()
        for what, x, y in (("cells", w[:, :-1], w[:, 1:]), ("simulations", w[:-1], w[1:])):
            zz = (x * y).sum() / (s2 * math.sqrt(x.size))
            judge(2 * stats.norm.sf(abs(zz)) , "residuals of neighbouring {} are correlated".format(what))
        if np.unique(res.round(12), axis=0).shape[0] < sims * 0.9 and not case["parametric"] and len(np.unique(dist)) > 3:
            violate("simulations repeat each other")
        # process error
        fin = cube(r.sims_data, case, "final_incr").astype(float)
        mean = np.abs(cube(r.sims_data, case, "samp_incr").astype(float))
        F = (~A) & (mean > 0)
        phi = num(r.scale_param)
        shape = mean[F] / phi
        x = np.abs(fin[F]) / phi
        ok = (shape > 0.03) & (shape < 1e9)   # smaller shapes underflow
        if ok.sum() > 50:
            pit = stats.gamma.cdf(x[ok], shape[ok])
            judge(stats.kstest(pit, "uniform").pvalue, "process error is not gamma(mean, mean x scale parameter)")
            for lo, hi in ((0.03, 0.3), (0.3, 2), (2, 50), (50, 1e3), (1e3, 1e5), (1e5, 1e9)):
                b = (shape[ok] >= lo) & (shape[ok] < hi)
                if b.sum() > 50:
                    judge(stats.kstest(pit[b], "uniform").pvalue, "process error with shape in [{}, {})".format(lo, hi))
                    tags.add("gamma-shape:%g" % lo)
            tags.add("gamma-judged")
            # independence of the noise of neighbouring simulations and of one simulation's forecasts
            P = np.full(F.shape, NAN)
            P[F] = np.where(ok, stats.gamma.cdf(x, np.where(ok, shape, 1)), NAN)
            P = P[:, ~act] - .5
            for what, y, z in (("forecasts", P[:, :-1], P[:, 1:]), ("simulations", P[:-1], P[1:])):
                b = ~np.isnan(y) & ~np.isnan(z)
                if b.sum() > 50:
                    zz = 12 * (y[b] * z[b]).sum() / math.sqrt(b.sum())
                    judge(2 * stats.norm.sf(abs(zz)), "process noise of neighbouring {} is correlated".format(what))
        return tags
