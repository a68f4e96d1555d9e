"""C19-C21, C23: equivariance, query history, loaders, rejected requests."""
import copy
import csv
import math
import os
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from core import Prop, Skip, violate, same, same_list, same_vec, same_frame, same_series, plain, num
import gen
import obs
import ref
from obs import trikit
from p_ratio import build, size_tags
from p_mack import near_ties
from p_tri import degenerate_mack, degenerate_boot, flat_from

NAN = float("nan")


# ------------------------------------------------------------------ C19

POW2 = [2.0 ** k for k in (-40, -30, -24, -20, -10, -6, -2, -1, 1, 2, 4, 10, 20, 30)]
POW4 = [2.0 ** k for k in range(-40, 41, 2)]
BOOT_AMOUNTS = ("sim", "rectype", "incr", "resid", "samp_incr", "samp_cum", "ldf", "latest", "ultimate", "reserve", "final_incr")


class C19(Prop):
    id = "C19"
    quick, thorough = 180, 4000
    rule = ("a case is a square cumulative triangle, a positive factor and a relabelling; chain ladder, Mack and bootstrap are run "
            "on the original, the scaled and the relabelled triangle and compared; non-trivial = every judged case")

    def strategy(self, tier):
        hi = 6 if tier == "quick" else 9

        @st.composite
        def s(draw):
            if draw(st.integers(0, 4)) == 4:
                case = draw(gen.trap_case(4, hi + 1, narrow=True))
                case.pop("names", None)
            else:
                case = draw(gen.cum_case(4, hi))
                case = draw(gen.flat_tail(case))
            n, R = case["n"], len(case["origins"])
            cells = [(i, j) for i, r in enumerate(case["cum"]) for j in range(len(r) - 1)]
            case["excl"] = []
            if draw(st.integers(0, 4)) == 4:           # one ratio or more stays in every development period
                keep = [draw(st.sampled_from([i for i, c in cells if c == j])) for j in range(n - 1)]
                case["excl"] = [list(c) for c in draw(st.lists(st.sampled_from(cells), max_size=4, unique=True)) if keep[c[1]] != c[0]]
            case["k"] = draw(st.one_of(st.sampled_from(POW2), st.sampled_from(POW2 + POW4[::4]), st.sampled_from([1e-4, 1e-3, 0.01, 10, 1000, 1e6]),
                                       st.integers(2, 999).map(lambda v: v / 10)))
            case["origins2"], case["devs2"] = draw(st.tuples(gen.origin_labels(R), gen.dev_labels(n)))
            case["alpha"] = draw(st.sampled_from([0, 1, 2]))
            case["dist"] = draw(st.sampled_from(["norm", "lognorm"]))
            case["sel"] = draw(st.sampled_from(sorted(ref.avg_labels(1 + sum(1 for r in case["cum"] if len(r) > 1)))))
            case["tail"] = draw(st.sampled_from([1.0, 1.02]))
            case["q"] = draw(gen.q_spec(edge=False))
            case["two"] = draw(st.booleans())
            case["seed"] = draw(st.integers(0, 2 ** 31))
            case["sims"] = draw(st.integers(2, 8))
            case["parametric"] = draw(st.booleans())
            case["p"] = draw(st.integers(1, 99)) / 100
            return case
        return s()

    def tri(self, rows, o, d, excl=()):
        t = trikit().totri(obs.tri_frame(rows, o, d), data_format="cum", data_shape="triangle")
        for i, j in excl:
            t.a2aind = (o[i], d[j], 0)
        return t

    def runs(self, case, tri, C, o, d, mack, boot):
        out = {}
        row = ref.avg_row(C, case["sel"], {tuple(e) for e in case.get("excl", ())})
        if not any(math.isnan(v) for v in row):
            b = tri.base_cl(sel=case["sel"], tail=case["tail"])
            out["base_cl"] = b
        if mack:
            out["mack_cl"] = tri.mack_cl(alpha=case["alpha"], dist=case["dist"], q=gen.q_value(case["q"]), two_sided=case["two"])
        if boot:
            out["boot_cl"] = tri.boot_cl(sims=case["sims"], q=gen.q_value(case["q"]), two_sided=case["two"],
                                         parametric=case["parametric"], random_state=case["seed"])
        return out

    def check(self, case, exp):
        n, o, d, k = case["n"], case["origins"], case["devs"], case["k"]
        excl = [tuple(e) for e in case.get("excl", ())]
        tri = self.tri(case["cum"], o, d, excl)
        C = obs.cells(tri)
        exact = k in POW2 or k in POW4
        scaled = self.tri([[v * k for v in r] for r in case["cum"]], o, d, excl)
        C2 = obs.cells(scaled)
        relab = self.tri(case["cum"], case["origins2"], case["devs2"], excl)
        mack = not degenerate_mack(C, case["alpha"], set(excl))
        boot = not degenerate_boot(C, set(excl))
        A = self.runs(case, tri, C, o, d, mack, boot)
        B = self.runs(case, scaled, C, o, d, mack, boot)
        R = self.runs(case, relab, C, o, d, mack, boot)
        tags = size_tags(case) | {"exact-factor" if exact else "any-factor", "shape:" + case.get("shape", "square")}
        if excl:
            tags.add("excluded")
        big = max(max(x for x in r if x == x) for r in C)
        for name in A:
            tags.add(name)
            self.relabelled(name, A[name], R[name], case)
            self.scaled(name, A[name], B[name], case, k, big)
        if mack:
            self.tests(case, tri, scaled, relab, A, B, R, exact, C, C2)
        if not A:
            tags.add("trivial")
        return tags

    def relabel(self, x, case, axis):
        src, dst = (case["origins"], case["origins2"]) if axis == "o" else (case["devs"], case["devs2"])
        m = {str(a): b for a, b in zip(src, dst)}
        return [m.get(str(plain(v)), v) for v in x]

    def relabelled(self, name, a, r, case):
        sa, sr = a.summary, r.summary
        same_list(sr.index, self.relabel(sa.index, case, "o"), name + " rows after relabelling")
        same_list([str(c) for c in sr.columns], [str(c) for c in sa.columns], name + " columns after relabelling")
        for c in sa.columns:
            if c == "maturity":
                same_list([str(v) for v in sr[c].values], [str(v) for v in self.relabel(sa[c].values, case, "d")],
                          name + " maturity after relabelling")
            else:
                same_vec(sr[c].values, sa[c].values, "{} {} after relabelling".format(name, c), 1e-9,
                         1e-12 * np.nanmax(np.abs(sa["ultimate"].values.astype(float))), list(sa.index))
        same_series(r.ldfs, self.relabel(a.ldfs.index, case, "d"), a.ldfs.values, name + " factors after relabelling")
        same_frame(r.trisqrd, self.relabel(a.trisqrd.index, case, "o"), self.relabel(a.trisqrd.columns, case, "d"),
                   a.trisqrd.values.tolist(), name + " squared triangle after relabelling")
        if name == "mack_cl":
            for f in ("devpvar", "ldfvar"):
                same_vec(getattr(r, f).values, getattr(a, f).values, name + " " + f + " after relabelling")
        if name == "boot_cl":
            x, y = (s.sort_values(by=["sim", "origin", "dev"]) for s in (a.sims_data, r.sims_data))
            same_list(y["origin"].values, self.relabel(x["origin"].values, case, "o"), "simulated origins after relabelling")
            same_list(y["dev"].values, self.relabel(x["dev"].values, case, "d"), "simulated periods after relabelling")
            for c in BOOT_AMOUNTS:
                u, v = x[c].values, y[c].values
                if c == "rectype":
                    same_list(v, u, "record types after relabelling")
                else:
                    same_vec(v, u, "simulated {} after relabelling".format(c), 1e-9, 1e-12 * np.nanmax(np.abs(u.astype(float))))

    def scaled(self, name, a, b, case, k, big):
        T = 1e-6
        sa, sb = a.summary, b.summary
        same_list(sb.index, list(sa.index), name + " rows after scaling")
        same_list([str(c) for c in sb.columns], [str(c) for c in sa.columns], name + " columns after scaling")
        same_vec(b.ldfs.values, a.ldfs.values, name + " factors after scaling", 1e-9)
        same_vec(sb["cldf"].values, sa["cldf"].values, name + " cldf after scaling", 1e-9)
        top = np.nanmax(np.abs(sa["ultimate"].values.astype(float))) + big
        if name in ("base_cl", "mack_cl"):
            for c in sa.columns:
                w = "{} {} after scaling by {}".format(name, c, k)
                if c == "maturity":
                    same_list([str(v) for v in sb[c].values], [str(v) for v in sa[c].values], w)
                elif c in ("cldf", "emergence"):
                    same_vec(sb[c].values, sa[c].values, w, 1e-9)
                elif c == "cv":
                    for i in range(len(sa)):
                        if abs(sa["reserve"].values[i]) > 1e-7 * top:
                            same(sb[c].values[i], sa[c].values[i], w, T)
                elif str(c).endswith("%"):
                    for i in range(len(sa)):
                        va, vb = float(sa[c].values[i]), float(sb[c].values[i])
                        if case["dist"] == "lognorm" and not sa["reserve"].values[i] > 1e-7 * top:
                            continue
                        if float(sa["std_error"].values[i]) <= 1e-9 * top:
                            continue
                        same(vb, va * k, "{} [{}]".format(w, list(sa.index)[i]), T, 1e-9 * k * top)
                else:
                    same_vec(sb[c].values, [float(v) * k for v in sa[c].values], w, T if c == "std_error" else 1e-9,
                             (1e-9 if c == "std_error" else 1e-11) * k * top, list(sa.index))
            same_frame(b.trisqrd, list(a.trisqrd.index), list(a.trisqrd.columns), [[float(v) * k for v in r] for r in a.trisqrd.values],
                       name + " squared triangle after scaling", 1e-9)
        else:
            o, d = list(a.unscaled_residuals.index), list(a.unscaled_residuals.columns)
            inc = np.abs(a.fitted_tri_incr.values.astype(float))
            small = inc[(inc > 1e-9 * big)].min()
            at = 1e-12 * big / math.sqrt(small)
            for f, fac, tol, t in (("unscaled_residuals", math.sqrt(k), at, T), ("adjusted_residuals", math.sqrt(k), at, T),
                                   ("fitted_tri_cum", k, 0, 1e-9), ("fitted_tri_incr", k, 1e-11 * big, 1e-9)):
                same_frame(getattr(b, f), o, d, [[float(v) * fac for v in r] for r in getattr(a, f).values],
                           "bootstrap {} after scaling by {}".format(f, k), t, tol * fac)
            same(b.scale_param, a.scale_param * k, "scale parameter after scaling", T, at * at * k)
            if k in POW4:
                self.scaled_sims(a, b, case, k, top)

    def scaled_sims(self, a, b, case, k, top):
        """Scaling by a power of four is exact, residuals included: the same seed draws the same residuals."""
        h = math.sqrt(k)
        if not case["parametric"]:
            noise = 1e-10 * np.abs(a.sampling_dist).max()
            u = [float(v) for v in a.sampling_dist if abs(v) > noise]
            v = [float(v) / h for v in b.sampling_dist if abs(v) > noise * h]
            same_vec(v, u, "sampling distribution after scaling by {}".format(k), 1e-6)
            if len(a.sampling_dist) != len(b.sampling_dist):
                return
        x, y = (s.sort_values(by=["sim", "origin", "dev"]) for s in (a.sims_data, b.sims_data))
        size = float(np.nanmax(np.abs(x["ultimate"].values.astype(float)))) + top
        for c in ("samp_incr", "samp_cum", "final_incr", "ultimate"):
            same_vec(y[c].values, x[c].values.astype(float) * k, "simulated {} after scaling by {}".format(c, k), 1e-6, 1e-9 * k * size)
        for c in a.summary.columns:
            if c not in ("maturity", "cldf", "emergence", "cv"):
                same_vec(b.summary[c].values, a.summary[c].values.astype(float) * k, "boot_cl {} after scaling by {}".format(c, k),
                         1e-6, 1e-9 * k * size)

    def tests(self, case, tri, scaled, relab, A, B, R, exact, C, C2):
        p = case["p"]
        if near_ties(C, True) or near_ties(C2, True):
            return
        want = A["mack_cl"].devp_corr_test(p), A["mack_cl"].cy_effects_test(p)
        for what, x in (("relabelling", R),) + ((("scaling", B),)):
            got = x["mack_cl"].devp_corr_test(p), x["mack_cl"].cy_effects_test(p)
            obs.must_near(obs.snap(got), obs.snap(want), "test results after " + what, 1e-9, 1e-9)


# ------------------------------------------------------------------ C20

def fig_close():
    import matplotlib.pyplot as plt
    plt.close("all")


def result_parts(r):
    out = {"summary": r.summary, "ldfs": r.ldfs, "trisqrd": r.trisqrd, "latest": r.latest, "ultimate": r.ultimate,
           "reserve": r.reserve, "cldfs": r.cldfs, "maturity": r.maturity, "emergence": r.emergence, "tail": r.tail}
    for f in ("devpvar", "ldfvar", "process_error", "parameter_error", "std_error", "cv", "sims_data", "reserve_dist",
              "fitted_tri_cum", "fitted_tri_incr", "unscaled_residuals", "adjusted_residuals", "sampling_dist", "scale_param"):
        if hasattr(r, f):
            out[f] = getattr(r, f)
    return out


SIMPLE = {
    "to_tbl": lambda t, a: t.to_tbl(),
    "to_tbl_all": lambda t, a: t.to_tbl(dropna=False),
    "to_incr": lambda t, a: t.to_incr(),
    "roundtrip": lambda t, a: t.to_incr().to_cum(),
    "latest": lambda t, a: t.latest,
    "latest_by_origin": lambda t, a: t.latest_by_origin,
    "latest_by_devp": lambda t, a: t.latest_by_devp,
    "devp": lambda t, a: t.devp,
    "origins": lambda t, a: t.origins,
    "maturity": lambda t, a: t.maturity,
    "triind": lambda t, a: t.triind,
    "rlvi": lambda t, a: t.rlvi,
    "clvi": lambda t, a: t.clvi,
    "nbr_cells": lambda t, a: t.nbr_cells,
    "diagonal": lambda t, a: t.diagonal(-(a % (t.shape[1] - 1))),
    "bad_diagonal": lambda t, a: t.diagonal(-t.shape[1] - a),
    "a2a": lambda t, a: t.a2a,
    "a2aind": lambda t, a: t.a2aind,
    "a2a_avgs": lambda t, a: t.a2a_avgs(),
    "a2a_lvi": lambda t, a: t.a2a_lvi,
    "ranked_a2a": lambda t, a: t.ranked_a2a,
    "a2a_assignment": lambda t, a: t.a2a_assignment,
    "str": lambda t, a: str(t),
    "cells": lambda t, a: pd.DataFrame(t),
    "bad_sel": lambda t, a: t.base_cl(sel="nonsense"),
    "bad_dist": lambda t, a: t.mack_cl(dist="nonsense"),
}
SELS = ["all-weighted", "all-simple", "all-geometric", "all-medial", "simple-1", "weighted-2", "medial-2"]


def op_base(t, a):
    r = t.base_cl(sel=SELS[a % len(SELS)], tail=[1.0, 1.05][a % 2])
    return dict(result_parts(r), text=str(r))


def op_base_custom(t, a):
    arg = pd.Series([1.5 + 0.1 * j + a / 100 for j in range(t.shape[1] - 1)], index=list(t.columns[:-1]))
    before = obs.snap(arg)
    r = t.base_cl(sel=arg, tail=1.1)
    if obs.snap(arg) != before:
        violate("base_cl modified the caller's factors")
    return result_parts(r)


def op_mack(t, a):
    r = t.mack_cl(alpha=a % 3, dist=["norm", "lognorm"][a % 2], q=[.5, .9])
    return dict(result_parts(r), g=r.get_quantiles([.1, .75]), c=r.devp_corr_test(.5), e=r.cy_effects_test(.05), text=str(r))


def op_boot(t, a):
    q = [.75, .25]
    r = t.boot_cl(sims=3, random_state=a, q=q, parametric=a % 2 == 1)
    if q != [.75, .25]:
        violate("boot_cl modified the caller's probabilities")
    return dict(result_parts(r), g=r.get_quantiles(.5, lb=0), o=r.origin_dist, res=r.residuals_detail)


def op_plot(t, a):
    r = None
    try:
        if a % 5 == 0:
            t.plot()
        elif a % 5 == 1:
            t.plot(display="faceted")
        elif a % 5 == 2:
            r = t.base_cl()
            parts = obs.snap(result_parts(r))
            r.plot()
        elif a % 5 == 3:
            r = t.mack_cl()
            parts = obs.snap(result_parts(r))
            r.plot()
            r.diagnostics()
        else:
            r = t.boot_cl(sims=4, random_state=a)
            parts = obs.snap(result_parts(r))
            r.plot()
            r.hist()
        if r is not None and obs.snap(result_parts(r)) != parts:
            violate("an exhibit modified its result: {}", obs.near(parts, obs.snap(result_parts(r)), rtol=0))
    finally:
        fig_close()
    return "drawn"


OPS = dict(SIMPLE, base=op_base, base_custom=op_base_custom, mack=op_mack, boot=op_boot)


class C20(Prop):
    id = "C20"
    quick, thorough = 150, 2500
    rule = ("a case is a triangle and a history of up to 25 queries, conversions, estimator runs, exhibits and exclusions; each "
            "answer is compared with that of a fresh triangle with the same exclusions and all earlier answers are re-read at the "
            "end; non-trivial = at least 4 operations")

    def strategy(self, tier):
        hi = 5 if tier == "quick" else 7
        most = 14 if tier == "quick" else 25
        names = sorted(SIMPLE) + ["base", "base_custom", "mack", "boot", "base", "mack", "boot", "exclude", "exclude", "include",
                                  "exclude", "include_all"]

        @st.composite
        def s(draw):
            if draw(st.integers(0, 4)) == 4:
                case = draw(gen.trap_case(4, hi + 1, narrow=True))
            else:
                case = draw(gen.cum_case(4, hi, names=draw(st.integers(0, 3)) == 0))
            cells = [[i, j] for i, r in enumerate(case["cum"]) for j in range(len(r) - 1)]
            k = draw(st.integers(2, most))
            ops = []
            for _ in range(k):
                op = draw(st.sampled_from(names))
                if op in ("exclude", "include"):
                    ops.append([op, list(draw(st.sampled_from(cells)))])
                else:
                    ops.append([op, draw(st.integers(0, 9))])
            if draw(st.integers(0, 7 if tier == "quick" else 3)) == 0:
                ops.insert(draw(st.integers(0, k)), ["plot", draw(st.integers(0, 4))])
            asked = [x for x in ops if x[0] in SIMPLE or x[0] in ("base", "mack", "boot")]
            if asked and draw(st.booleans()):         # asked again after a further exclusion
                ops.append(["exclude", list(draw(st.sampled_from(cells)))])
                ops += [list(x) for x in draw(st.lists(st.sampled_from(asked), min_size=1, max_size=3))]
            case["ops"] = ops
            case["incr"] = draw(st.integers(0, 4)) == 0
            return case
        return s()

    def fresh(self, case, excl):
        t = build(case)[0]
        for i, j in sorted(excl):
            t.a2aind = (case["origins"][i], case["devs"][j], 0)
        return t

    def outcome(self, op, tri, a):
        try:
            return op_plot(tri, a) if op == "plot" else OPS[op](tri, a)
        except (KeyboardInterrupt, MemoryError):
            raise
        except Exception as e:
            from core import Violation
            if isinstance(e, Violation):
                raise
            return "raised " + type(e).__name__

    def describe(self, x):
        if isinstance(x, str):
            return x
        return obs.snap(x)

    def check(self, case, exp):
        import matplotlib
        matplotlib.use("Agg")
        o, d = case["origins"], case["devs"]
        tri, C = build(case)
        other, _ = build(case)
        cells0 = obs.frame_state(tri)
        other0 = obs.snap(other.a2aind), obs.snap(other.a2a_avgs())
        excl, kept = set(), []
        tags = size_tags(case) | {"shape:" + case.get("shape", "square")}
        for step, (op, a) in enumerate(case["ops"]):
            if op == "exclude":
                excl.add(tuple(a))
                tri.a2aind = (o[a[0]], d[a[1]], 0)
                continue
            if op == "include":
                excl.discard(tuple(a))
                tri.a2aind = (o[a[0]], d[a[1]], 1)
                continue
            if op == "include_all":
                for i, j in sorted(excl):
                    tri.a2aind = (o[i], d[j], 1)
                excl.clear()
                continue
            tags.add("op:" + op)
            got = self.outcome(op, tri, a)
            gs = self.describe(got)
            want = self.describe(self.outcome(op, self.fresh(case, excl), a))
            m = obs.near(gs, want, rtol=1e-12)
            if m:
                violate("step {} ({}): answer depends on history: {}", step, op, m)
            if obs.frame_state(tri) != cells0:
                violate("step {} ({}) changed the triangle", step, op)
            if not isinstance(got, str) and op != "a2aind":
                kept.append((step, op, got, gs))
        for step, op, got, gs in kept:
            now = self.describe(got)
            if now != gs:
                violate("result of step {} ({}) changed afterwards: {}", step, op, obs.near(gs, now, rtol=0))
        if (obs.snap(other.a2aind), obs.snap(other.a2a_avgs())) != other0:
            violate("operations on one triangle changed another one")
        if excl:
            tags.add("ends-with-exclusions")
        if len(case["ops"]) < 4:
            tags.add("trivial")
        return tags


# ------------------------------------------------------------------ C21

LOBS = ["comauto", "medmal", "othliab", "ppauto", "prodliab", "wkcomp"]
COLS = ["loss_key", "grcode", "grname", "origin", "dev", "incrd_loss", "paid_loss", "train_ind", "extra_num", "extra_txt"]


class C21(Prop):
    id = "C21"
    quick, thorough = 1400, 30000
    rule = ("a case is a generated loss reserving database (lines, companies, shared names and codes, any record order) with filter "
            "requests, or a shipped or generated dataset and a triangle type; the returned records, triangles and listings are "
            "compared with the file's rows; non-trivial = at least one request returning records")

    def fixed(self):
        names = ["raa", "ta83", "amw09", "autoliab", "glre", "singinjury", "singproperty"]
        return [{"kind": "sample", "dataset": x, "tri_type": t} for x in names
                for t in (None, "cum", "incr")] + [{"kind": "listing"}]

    def strategy(self, tier):
        @st.composite
        def lr(draw):
            n = draw(st.integers(2, 5))
            base = draw(st.sampled_from([1988, 1, 2001]))
            codes, people = [86, 266, 353, 1767, 0, 17], ["Alpha Ins", "Beta Mut", "Gamma, Inc", "alpha ins", "Alpha Ins Co", " Beta Mut"]
            if draw(st.booleans()):                       # few codes and names: shared among companies and lines
                codes = draw(st.lists(st.sampled_from(codes), min_size=1, max_size=2))
                people = draw(st.sampled_from([["Alpha Ins", "Alpha Ins Co"], ["Alpha Ins", "alpha ins"], ["Beta Mut", " Beta Mut"],
                                               ["Gamma, Inc"], ["Beta Mut", "Alpha Ins", "Alpha Ins Co"]]))
            comps = draw(st.lists(st.tuples(st.sampled_from(LOBS[:draw(st.integers(1, 4))]),
                                            st.sampled_from(codes), st.sampled_from(people)),
                                  min_size=1, max_size=5, unique=True))
            holes = draw(st.integers(0, 5)) == 0          # some amounts are missing in the file
            twice = draw(st.integers(0, 2)) == 0          # some rows occur more than once
            rows = []
            for c in comps:
                m = n if draw(st.booleans()) else draw(st.integers(1, n))
                for i in range(m):
                    for j in range(n):
                        if draw(st.integers(0, 19)) == 0:
                            continue
                        v, w = draw(st.integers(-500, 5000)), draw(st.integers(-300, 9000))
                        rows.append(list(c) + [base + i, j + 1, v, w + draw(st.sampled_from([0, 0, 0.25])), int(i + j < n),
                                               0 if twice else len(rows), "x"])
                        if holes and draw(st.integers(0, 9)) == 0:
                            rows[-1][draw(st.sampled_from([5, 6]))] = ""
                        if twice and draw(st.integers(0, 7)) == 0:
                            rows.append(list(rows[draw(st.integers(0, len(rows) - 1))]))
            if not rows:
                rows.append(list(comps[0]) + [base, 1, 10, 20.0, 1, 0, "x"])
            if draw(st.booleans()):
                rows = draw(st.permutations(rows))
            qs = []
            for _ in range(draw(st.integers(1, 5))):
                pick = draw(st.sampled_from(comps))
                q = {"tri_type": draw(st.sampled_from([None, None, "cum", "incr"])),
                     "loss_type": draw(st.sampled_from(["incurred", "paid", "i", "p"])),
                     "lob": draw(st.sampled_from([None, pick[0], pick[0], pick[0]])),
                     "grcode": draw(st.sampled_from([None, pick[1], pick[1], pick[1]])),
                     "grname": draw(st.sampled_from([None, None, pick[2], pick[2]])),
                     "train_only": draw(st.sampled_from([True, True, False, 1, 0]))}
                other = draw(st.sampled_from(comps))
                spoil = draw(st.sampled_from([None] * 6 + ["tri_type", "loss_type", "lob", "grcode", "grname", "other"]))
                if spoil == "other":                     # a combination that may be empty
                    q["grcode"], q["grname"] = other[1], draw(st.sampled_from([None, other[2]]))
                elif spoil:
                    q[spoil] = draw(st.sampled_from({
                        "tri_type": ["bogus", "total"],
                        "loss_type": ["case", "", "xpaid"],
                        "lob": [LOBS[-1], pick[0][:-1], pick[0].upper(), pick[0] + " ", "auto"],
                        "grcode": [99999, 353, 0, 76, pick[1] + 1, -pick[1] - 1, int(str(pick[1])[1:] or 5),
                                   int(str(pick[1])[:1]), 35386, 867],
                        "grname": ["Beta Mut", "nobody", pick[2][:-1], pick[2].upper(), pick[2] + " ", "Ins"]}[spoil]))
                qs.append(q)
                if draw(st.integers(0, 5)) == 0:
                    qs[-1] = {"default": True, "tri_type": None, "loss_type": "incurred", "lob": "comauto", "grcode": 1767,
                              "grname": None, "train_only": True}
            return {"kind": "lrdb", "rows": rows, "order": list(draw(st.permutations(range(len(COLS))))), "queries": qs}

        @st.composite
        def ds(draw):
            n = draw(st.integers(2, 5))
            rows = [[1990 + i, 6 * (j + 1), draw(st.integers(1, 9999)) / 4] for i in range(n) for j in range(n - i)]
            rows = list(draw(st.permutations(rows)))
            for _ in range(draw(st.sampled_from([0, 0, 1, 3]))):
                rows.append(list(draw(st.sampled_from(rows))))
            return {"kind": "custom", "rows": rows, "order": list(draw(st.permutations(range(5)))),
                    "tri_type": draw(st.sampled_from([None, "cum", "incr", "c", "i", "bogus", ""])),
                    "unknown": draw(st.sampled_from(["nope", "", "RAA", "raa "]))}
        return st.one_of(lr(), lr(), lr(), ds())

    def triangle(self, tri, recs, tri_type, what):
        cells = ref.totals(recs)
        o, d = sorted({k[0] for k in cells}), sorted({k[1] for k in cells})
        kind = "CumTriangle" if tri_type.startswith("c") else "IncrTriangle"
        if type(tri).__name__ != kind:
            violate("{}: got a {}, expected a {}", what, type(tri).__name__, kind)
        if tri_type.startswith("c"):
            want = ref.complete_cum(ref.raw_cum(cells, o, d))
        else:
            want = ref.incr_matrix(cells, o, d)
        big = max(abs(v) for r in want for v in r if not math.isnan(v))
        same_frame(tri, o, d, want, what, 1e-9, 1e-11 * big)

    def records(self, df, recs, what):
        same_list(list(df.columns), ["origin", "dev", "value"], what + " columns")
        same_list(list(df.index), list(range(len(recs))), what + " index")
        same_list(list(df["origin"].values), [r[0] for r in recs], what + " origin")
        same_list(list(df["dev"].values), [r[1] for r in recs], what + " dev")
        same_vec(df["value"].values, [r[2] for r in recs], what + " value", 1e-12)

    def path(self, name):
        d = os.path.join(os.environ["VF_SCRATCH"], "p%d" % os.getpid())
        os.makedirs(d, exist_ok=True)
        return os.path.join(d, name)

    def dump(self, name, cols, rows, order):
        p = self.path(name)
        with open(p, "w", newline="") as f:
            w = csv.writer(f)
            w.writerow([cols[k] for k in order])
            for r in rows:
                w.writerow([r[k] for k in order])
        return p

    def check(self, case, exp):
        t = trikit()
        if case["kind"] == "listing":
            got = t.get_datasets()
            same_list(got, sorted(["raa", "ta83", "amw09", "autoliab", "glre", "singinjury", "singproperty"]), "get_datasets")
            for bad in ("nope", "RAA", "", None):
                obs.raises(lambda: t.load(bad), "load({!r})".format(bad))
            return {"listing"}
        if case["kind"] == "sample":
            repo = os.path.dirname(os.path.abspath(t.__file__))
            files = {"raa": "RAA.csv", "ta83": "TaylorAshe83.csv", "amw09": "amw09.csv", "autoliab": "AutoLiabMedical.csv",
                     "glre": "GLReinsurance2004.csv", "singinjury": "SingaporeInjury.csv", "singproperty": "SingaporeProperty.csv"}
            with open(os.path.join(repo, "datasets", files[case["dataset"]]), newline="") as f:
                recs = [(int(float(r["origin"])), int(float(r["dev"])), float(r["value"])) for r in csv.DictReader(f)]
            what = "load({}, {})".format(case["dataset"], case["tri_type"])
            got = t.load(case["dataset"]) if case["tri_type"] is None else t.load(case["dataset"], tri_type=case["tri_type"])
            if case["tri_type"] is None:
                self.records(got, recs, what)
            else:
                self.triangle(got, recs, case["tri_type"], what)
            return {"sample"}
        if case["kind"] == "custom":
            cols = ["origin", "dev", "value", "other", "name"]
            rows = [list(r) + [0, "n"] for r in case["rows"]]
            p = self.dump("ds.csv", cols, rows, case["order"])
            refd = {"mine": p, "zzz": p, "lrdb": p}
            what = "load(tri_type={!r})".format(case["tri_type"])
            recs = [tuple(r) for r in case["rows"]]
            call = lambda: t.load("mine", tri_type=case["tri_type"], dataref=refd)
            obs.raises(lambda: t.load(case["unknown"], dataref=refd), "load({!r})".format(case["unknown"]))
            same_list(t.get_datasets(dataref=refd), ["mine", "zzz"], "get_datasets")
            if case["tri_type"] in ("bogus", ""):
                obs.raises(call, what)
            elif case["tri_type"] is None:
                self.records(call(), recs, what)
            else:
                self.triangle(call(), recs, case["tri_type"], what)
            return {"custom"}
        rows = case["rows"]
        p = self.dump("lrdb.csv", COLS, rows, case["order"])
        tags = {"lrdb"}
        before = open(p).read()
        same_list(t.get_lrdb_lobs(lrdb_path=p), sorted({r[0] for r in rows}), "get_lrdb_lobs")
        sp = t.get_lrdb_specs(lrdb_path=p)
        same_list(list(sp.columns), ["loss_key", "grcode", "grname"], "get_lrdb_specs columns")
        got = [tuple(plain(x) for x in r) for r in sp.values.tolist()]
        want = sorted({(r[0], r[1], r[2]) for r in rows})
        if sorted(got) != want:
            violate("get_lrdb_specs: got {}, expected {}", got, want)
        if [g[:2] for g in got] != sorted(g[:2] for g in got):
            violate("get_lrdb_specs not sorted by line and company: {}", got)
        hit = False
        for q in case["queries"]:
            sel, bad = list(rows), None
            if q["loss_type"][:1] not in ("p", "i"):
                bad = "loss type"
            for key, col in (("lob", 0), ("grcode", 1), ("grname", 2)):
                if bad is None and q[key] is not None:
                    if q[key] not in {r[col] for r in sel}:
                        bad = key
                    sel = [r for r in sel if r[col] == q[key]]
            if q["train_only"]:
                sel = [r for r in sel if r[7] == 1]
            recs = [(r[3], r[4], amount(r[6 if q["loss_type"].startswith("p") else 5])) for r in sel]
            what = "load_lrdb({})".format(q)
            kw = {"tri_type": q["tri_type"]} if q.get("default") else {k: v for k, v in q.items()}
            call = lambda: t.load_lrdb(dataref={"lrdb": p}, **kw)
            if bad is None and q["tri_type"] in ("bogus", "total"):
                bad = "tri_type"
            if bad:
                obs.raises(call, what + " (unknown {})".format(bad))
                tags.add("rejected:" + bad)
                continue
            if q["tri_type"] is None:
                self.records(call(), recs, what)
                tags.add("records")
                hit = hit or bool(recs)
            elif staircase([r for r in recs if not math.isnan(r[2])]):
                self.triangle(call(), [r for r in recs if not math.isnan(r[2])], q["tri_type"], what)
                tags.add("triangle")
                hit = True
        if open(p).read() != before:
            violate("loading changed the database file")
        if not hit:
            tags.add("trivial")
        return tags


def amount(v):
    return NAN if v == "" else float(v)


def staircase(recs):
    """The records reach less and less far into the newer origins, and every origin's first period."""
    if not recs:
        return False
    o, d = sorted({r[0] for r in recs}), sorted({r[1] for r in recs})
    last = [max(o.index(r[0]) for r in recs if r[1] == x) for x in d]
    return last[0] == len(o) - 1 and last == sorted(last, reverse=True)


# ------------------------------------------------------------------ C23

WORD = st.text(alphabet="abcdefghijklmnopqrstuvwxyz-_ 0123456789", min_size=0, max_size=12)
KINDS23 = ["data", "column", "shape", "tri_type", "layout", "sel", "dist", "procdist", "mack-q", "boot-q", "mack-get",
           "boot-get", "diagonal", "glm", "incr-diagonal", "exclude"]
QKINDS = ("mack-q", "boot-q", "mack-get", "boot-get")


def draw_odd(x, word):
    """An indicator that is neither 0 nor 1."""
    return word if x < 0 else x


class C23(Prop):
    id = "C23"
    quick, thorough = 520, 12000
    rule = ("a case is a triangle and one invalid request of a generated kind and value; it must raise and leave triangle and "
            "arguments unchanged, and a valid request afterwards must still answer; non-trivial = every judged case")

    def strategy(self, tier):
        badq = st.one_of(st.sampled_from([-1e-6, 1.00000001, -1e-15, 1.000001, 50.0, 95.0, -0.5, 2.0, 100.0, 75, -1, float("inf"), -float("inf"), NAN, NAN,
                                          -1e-12, 1 + 1e-12, 1 + 1e-9, -1e-9, -5e-324, 1 + 2 ** -52]),
                         st.floats(1.0000001, 1e6), st.floats(-1e6, -1e-7))

        @st.composite
        def s(draw):
            case = draw(gen.cum_case(4, 6, names=draw(st.booleans())))
            n = case["n"]
            kind = draw(st.sampled_from(KINDS23))
            case["kind"] = kind
            near = {"shape": ["Triangle", "tabular ", "tab", "tri", "triangular", "table", "TABULAR", " triangle", "tabular,triangle"],
                    "tri_type": ["xcum", "total", "_incr", "tri", "accum", "paid"],
                    "layout": ["xcum", "total", "_incr", "tabular", "accum", "paid"],
                    "sel": ["weighted", "simple", "all", "weighted-0", "all-", "mean-3", "simple-%d" % (n - 1), "weighted-%d" % n,
                            "medial-99", "All-weighted", "all-weighted ", "all-mean", "weighted-all", "simple-1.0", "geometric-01"],
                    "dist": ["normal", "lognormal", "log", "logn", "logistic", "gamma", "t", "norm,lognorm", "log-norm", "weighted"],
                    "procdist": ["poisson", "odp", "tweedie", "gam", "gamma2", "g", "a", "lognorm", "gamma distribution", "invgamma"]}
            case["word"] = draw(st.one_of(st.sampled_from(near.get(kind, ["x"])), st.sampled_from(near.get(kind, ["x"])), WORD,
                                          st.sampled_from(["", " ", "x", "none", "None"])))
            case["which"] = draw(st.integers(0, 5))
            case["good"] = draw(st.lists(st.integers(1, 99).map(lambda v: v / 100), min_size=0, max_size=3))
            case["bad"] = draw(badq)
            case["more"] = [NAN, 1 + 1e-9, -1e-9, float("inf"), 95, -1.0] + draw(st.lists(badq, min_size=1, max_size=3)) if kind in QKINDS else []
            case["at"] = draw(st.integers(0, 3))
            case["cont"] = draw(st.sampled_from(["scalar", "list", "tuple", "array"]))
            case["off"] = draw(st.one_of(st.just(n), st.integers(n, 3 * n))) * draw(st.sampled_from([-1, -1, 1]))
            case["two"] = draw(st.booleans())
            return case
        return s()

    def check(self, case, exp):
        t = trikit()
        tri, C = build(case)
        n, o, d = case["n"], case["origins"], case["devs"]
        if degenerate_boot(C) or degenerate_mack(C, 1):
            raise Skip("degenerate triangle")
        before = obs.frame_state(tri)
        kind, word = case["kind"], case["word"]
        names = case.get("names") or ["origin", "dev", "value"]
        recs = obs.records(case["cum"], o, d)
        df = obs.tab_frame(recs, names)
        tf = obs.tri_frame(case["cum"], o, d)
        kw = dict(origin=names[0], dev=names[1], value=names[2])

        def asked(bad):
            q = list(case["good"])
            q.insert(min(case["at"], len(q)), bad)
            return bad if case["cont"] == "scalar" else {"list": list, "tuple": tuple, "array": np.array}[case["cont"]](q)

        q, qs = asked(case["bad"]), [asked(b) for b in [case["bad"]] + case.get("more", [])]
        args = [df, tf, q]
        snaps = [obs.frame_state(df), obs.frame_state(tf), obs.snap(q)]
        low = word.lower().strip()
        if kind == "data":
            bad = [[list(r) for r in recs], df.to_dict("list"), df.values, df[names[2]], None, "data.csv"][case["which"]]
            fns = [lambda: t.totri(bad, **kw), lambda: t.totri(bad, tri_type="incr", **kw)]
            what = "totri({})".format(type(bad).__name__)
        elif kind == "column":
            gone = names[case["which"] % 3]
            part = df.drop(gone, axis=1)
            if case["which"] >= 3:
                part[gone + "_x"] = 1
            fns = [lambda: t.totri(part, **kw), lambda: t.totri(part, tri_type="incr", data_format="cum", **kw)]
            what = "totri without column {}".format(gone)
        elif kind == "shape":
            if word in ("tabular", "triangle"):
                raise Skip("valid value")
            fns = [lambda: t.totri(df, data_shape=word, **kw), lambda: t.totri(tf, data_shape=word, tri_type="incr")]
            what = "totri(data_shape={!r})".format(word)
        elif kind == "tri_type":
            if low.startswith(("i", "c")):
                raise Skip("valid value")
            fns = [lambda: t.totri(df, tri_type=word, **kw), lambda: t.totri(tf, tri_type=word, data_shape="triangle")]
            what = "totri(tri_type={!r})".format(word)
        elif kind == "layout":
            if low.startswith(("i", "c")):
                raise Skip("valid value")
            fns = [lambda: t.totri(tf, data_format=word, data_shape="triangle"),
                   lambda: t.totri(tf, data_format=word, data_shape="triangle", tri_type="incr"),
                   lambda: t.totri(df, data_format=word, **kw), lambda: t.totri(df, data_format=word, tri_type="incr", **kw)]
            what = "totri(data_format={!r})".format(word)
        elif kind == "sel":
            if word in ref.avg_labels(n):
                raise Skip("valid value")
            fns = [lambda: tri.base_cl(sel=word), lambda: tri.base_cl(sel=word, tail=1.1)]
            what = "base_cl(sel={!r})".format(word)
        elif kind == "dist":
            if low in ("norm", "lognorm"):
                raise Skip("valid value")
            fns = [lambda: tri.mack_cl(dist=word)]
            what = "mack_cl(dist={!r})".format(word)
        elif kind == "procdist":
            if low == "gamma":
                raise Skip("valid value")
            fns = [lambda: tri.boot_cl(sims=2, procdist=word, random_state=1)]
            what = "boot_cl(procdist={!r})".format(word)
        elif kind == "mack-q":
            fns = [lambda q=q: tri.mack_cl(q=q, two_sided=case["two"], dist=["norm", "lognorm"][case["which"] % 2]) for q in qs]
            what = "mack_cl(q={}, two_sided={})".format(qs, case["two"])
        elif kind == "boot-q":
            fns = [lambda q=q: tri.boot_cl(sims=2, q=q, two_sided=case["two"], random_state=1) for q in qs]
            what = "boot_cl(q={}, two_sided={})".format(qs, case["two"])
        elif kind == "mack-get":
            r = tri.mack_cl()
            fns = [lambda q=q: r.get_quantiles(q) for q in qs]
            what = "mack get_quantiles({})".format(qs)
        elif kind == "boot-get":
            r = tri.boot_cl(sims=3, random_state=1)
            fns = [lambda q=q: r.get_quantiles(q) for q in qs] + [lambda q=q: r.get_quantiles(q, lb=0) for q in qs]
            what = "bootstrap get_quantiles({})".format(qs)
        elif kind == "diagonal":
            fns = [lambda: tri.diagonal(case["off"]), lambda: tri.diagonal(offset=case["off"])]
            what = "diagonal({})".format(case["off"])
        elif kind == "incr-diagonal":
            inc = tri.to_incr()
            fns = [lambda: inc.diagonal(case["off"])]
            what = "incremental diagonal({})".format(case["off"])
        elif kind == "exclude":
            i, v = case["which"] % (n - 1), draw_odd(case["bad"], word)
            specs = [(o[i], d[n - 2 - i], v), (o[0] - 1, d[0], 0), (o[0], d[-1], 0), (o[-1], d[0], 0), (o[0], d[-1] + 1, 0),
                     (o[1], d[n - 2], 1), (str(o[0]), d[0], 0)][case["which"]:][:2] + [(o[i], d[n - 2 - i], v)]
            fns = [lambda x=x: setattr(tri, "a2aind", x) for x in specs]
            what = "a2aind = one of {}".format(specs)
        else:
            fns = [lambda: tri.glm()]
            what = "glm()"
        for fn in fns:
            obs.raises(fn, what)
        obs.unchanged(before, tri, "the triangle")
        if [obs.frame_state(df), obs.frame_state(tf), obs.snap(q)] != snaps:
            violate("{} modified its arguments", what)
        # the triangle still answers
        p = ref.project(C, ref.avg_row(C, "all-weighted") + [1.0])
        same_vec(tri.base_cl().ultimate.values[:-1], p["ultimate"], "ultimates after a rejected request")
        if kind == "exclude":
            same_frame(tri.a2aind, o[:-1], d[:-1], [[int(j < n - 1 - i) for j in range(n - 1)] for i in range(n - 1)], "a2aind")
        return {"kind:" + kind}
