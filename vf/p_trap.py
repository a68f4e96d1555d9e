"""C26-C28: triangles with unequal numbers of origins and development periods."""
import math
import numpy as np
from hypothesis import strategies as st
from core import Prop, Skip, violate, same, same_list, same_vec, same_frame, same_series, plain, num
import gen
import obs
import ref
import p_ratio
import p_mack
import p_boot
from p_ratio import build, size_tags

NAN = float("nan")


@st.composite
def excluded(draw, case, keep):
    """Excluded link ratios; with keep, at least one ratio of every period stays."""
    lens = [len(r) for r in case["cum"]]
    cells = [(i, j) for i, L in enumerate(lens) for j in range(L - 1)]
    out = []
    if draw(st.integers(0, 2)) == 0:
        out = draw(st.lists(st.sampled_from(cells), max_size=6, unique=True))
        if keep:
            for j in range(case["n"] - 1):
                col = [c for c in cells if c[1] == j]
                if all(c in out for c in col):
                    out.remove(draw(st.sampled_from(col)))
    return [list(c) for c in out]


def tags_of(case):
    t = {"shape:" + case["shape"], "%dx%d" % (len(case["origins"]), case["n"])}
    if all(len(r) == case["n"] for r in case["cum"]):
        t.add("complete")
    return t


class C26(Prop):
    id = "C26"
    quick, thorough = 480, 10000
    rule = ("a case is a cumulative triangle with more origins than periods or the reverse (cut of a square one; rectangles "
            "included), exclusions, a selection and a tail; views, diagonals, averages and chain ladder are recomputed; "
            "non-trivial = 3 or more periods")

    def strategy(self, tier):
        hi = 9 if tier == "quick" else 14

        @st.composite
        def s(draw):
            case = draw(gen.trap_case(2, hi, complete=True))
            case["gaps"], case["ragged"] = [], []
            a2a_rows = sum(1 for r in case["cum"] if len(r) > 1)
            case["sel"] = draw(st.one_of(st.just("all-weighted"), st.sampled_from(sorted(ref.avg_labels(1 + a2a_rows)))))
            case["tail"] = draw(st.one_of(st.just(1.0), st.integers(500, 3000).map(lambda v: v / 1000)))
            case["excl"] = draw(excluded(case, keep=False))
            case["default"] = draw(st.integers(0, 9)) == 0
            case["part"] = draw(st.sampled_from(["averages", "chain-ladder", "chain-ladder"]))
            case["factors"] = draw(st.lists(st.integers(500, 5000).map(lambda v: v / 1000),
                                            min_size=case["n"] - 1, max_size=case["n"] - 1))
            return case
        return s()

    def views(self, case):
        tri, C = build(case)
        o, d, n, R = case["origins"], case["devs"], case["n"], len(case["origins"])
        final = ref.last_dev(C)
        same_list(tri.maturity.index, o, "maturity labels")
        same_list(tri.maturity.values, [d[k] for k in final], "maturity")
        same_series(tri.latest_by_origin, o, [C[i][final[i]] for i in range(R)], "latest_by_origin")
        g = tri.latest_by_devp               # one entry per origin, labelled by its latest period
        got = sorted((plain(a), num(b)) for a, b in zip(g.index, g.values))
        if got != sorted((d[final[i]], C[i][final[i]]) for i in range(R)):
            violate("latest_by_devp: got {}", got)
        same(tri.nbr_cells, sum(k + 1 for k in final), "nbr_cells")
        same_frame(tri.triind, o, d, [[int(j > final[i]) for j in range(n)] for i in range(R)], "triind")
        newest = max(i + final[i] for i in range(R))
        for off in range(0, -n, -1):
            g = tri.diagonal(off) if off else tri.diagonal()
            want = [(o[i], d[newest + off - i], C[i][newest + off - i]) for i in range(R) if 0 <= newest + off - i <= final[i]]
            got = [(plain(a), plain(b), num(c)) for a, b, c in zip(g["origin"].values, g["dev"].values, g["value"].values)]
            got = [x for x in got if not math.isnan(x[2])]      # unobserved cells of the diagonal
            if sorted(got) != sorted(want):
                violate("diagonal({}): got {}, expected {}", off, sorted(got), sorted(want))
        obs.raises(lambda: tri.diagonal(-n), "diagonal({})".format(-n))
        back = tri.to_incr().to_cum()
        same_frame(back, o, d, C, "to_incr().to_cum()", rtol=1e-9, atol=1e-11 * max(x for r in C for x in r if x == x))
        tbl = tri.to_tbl()
        got = sorted((plain(a), plain(b), num(c)) for a, b, c in tbl.values.tolist())
        want = sorted((o[i], d[j], C[i][j]) for i in range(R) for j in range(final[i] + 1))
        if got != want:
            violate("to_tbl holds {}, expected {}", got[:5], want[:5])

    def check(self, case, exp):
        self.views(case)
        if case["part"] == "averages":
            p_ratio.C06().check(dict(case, excl=[]), None)
            tri, C = build(case)
            for i, j in case["excl"]:
                tri.a2aind = (case["origins"][i], case["devs"][j], 0)
            p_ratio.check_avgs(tri, C, {tuple(e) for e in case["excl"]}, "a2a_avgs with exclusions")
        else:
            tri, C = build(case)
            f = case["factors"] + [case["tail"]]
            r = tri.base_cl(sel=list(case["factors"]), tail=case["tail"])
            p = p_ratio.check_summary(r, C, case["origins"], case["devs"], f, "base_cl with supplied factors")
            p_ratio.check_square(r.trisqrd, C, case["origins"], case["devs"], p, "base_cl with supplied factors")
            p_ratio.C08().check(case, None)
        t = tags_of(case) | {"part:" + case["part"]}
        if case["n"] < 3:
            t.add("trivial")
        return t


class C27(Prop):
    id = "C27"
    quick, thorough = 900, 12000
    rule = ("a case is a cumulative triangle with more origins than periods or the reverse, alpha, distribution, probabilities and "
            "exclusions; Mack's estimates, errors, quantiles and tests are recomputed; non-trivial = every judged case")

    def strategy(self, tier):
        hi = 8 if tier == "quick" else 13

        @st.composite
        def s(draw):
            case = draw(gen.trap_case(3, hi, narrow=True))
            case["part"] = draw(st.sampled_from(["estimate", "error", "error", "quantile", "correlation", "calendar"]))
            case["alpha"] = draw(st.sampled_from([1, 0, 2]))
            case["dist"] = draw(st.sampled_from(["norm", "lognorm"]))
            case["tail"] = draw(st.sampled_from([1.0, 1.05]))
            case["excl"] = draw(excluded(case, keep=True)) if case["part"] in ("estimate", "error") else []
            case["p"] = draw(p_mack.PROBS)
            case["q"], case["q2"] = draw(gen.q_spec()), draw(gen.q_spec())
            case["two"] = draw(st.booleans())
            case["bad"] = None
            return case
        return s()

    def check(self, case, exp):
        part = {"estimate": p_mack.C10, "error": p_mack.C11, "quantile": p_mack.C12, "correlation": p_mack.C13,
                "calendar": p_mack.C14}[case["part"]]
        t = part().check(case, None)
        keep = {x for x in t if x.startswith(("last-variance", "alpha", "dist", "tied", "excluded", "extrapolated"))}
        return tags_of(case) | keep | {"part:" + case["part"]}


class C28(Prop):
    id = "C28"
    quick, thorough = 640, 8000
    rule = ("a case is a cumulative triangle with more origins than periods or the reverse, simulations and seed; fit, residuals, "
            "every simulated cell and the summary are recomputed; non-trivial = every judged case")

    def strategy(self, tier):
        hi = 7 if tier == "quick" else 11

        @st.composite
        def s(draw):
            case = draw(gen.trap_case(2, hi))
            case["excl"] = draw(excluded(case, keep=True))
            case["part"] = draw(st.sampled_from(["fit", "simulation", "simulation", "summary"]))
            case["sims"] = draw(st.integers(2, 12 if tier == "quick" else 60))
            if draw(st.integers(0, 29)) == 29:
                case["sims"] = draw(st.integers(100, 300))
            case["seed"] = draw(st.integers(0, 2 ** 32 - 1))
            case["parametric"] = draw(st.booleans())
            case["q"], case["q2"] = draw(gen.q_spec()), draw(gen.q_spec())
            case["two"] = draw(st.booleans())
            case["interp"], case["interp2"] = draw(st.sampled_from(p_boot.METHODS)), draw(st.sampled_from(p_boot.METHODS))
            case["lb"] = draw(st.one_of(st.none(), st.just(0.0), st.integers(-50, 150)))
            case["bad"] = None
            return case
        return s()

    def check(self, case, exp):
        part = {"fit": p_boot.C15, "simulation": p_boot.C16, "summary": p_boot.C17}[case["part"]]
        t = part().check(case, None)
        keep = {x for x in t if x in ("parametric", "resampled", "negative-fitted-increment", "cancelling-denominator", "excluded")}
        return tags_of(case) | keep | {"part:" + case["part"]}
