"""C06-C09: link ratios, averages, exclusions, chain ladder, supplied factors."""
import math
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from core import Prop, Skip, violate, same, same_list, same_vec, same_frame, same_series, plain, num
import gen
import obs
import ref
from obs import trikit

NAN = float("nan")


@st.composite
def gap_cum_case(draw, lo, hi, ragged=False, signed=False, **kw):
    """cum_case, sometimes with interior cells unobserved (None), newest valuations missing or
    (signed) zero and negative amounts."""
    case = draw(gen.cum_case(lo, hi, **kw))
    n = case["n"]
    case["gaps"], case["ragged"], case["signed"] = [], [], []
    if n > 2:
        mode = draw(st.sampled_from(["full", "full", "full", "gaps"] + (["ragged"] if ragged else [])
                                    + (["signed"] if signed else [])))
        if mode == "signed":                 # zero and negative cumulative amounts after the first period
            inner = [(i, j) for i in range(n) for j in range(1, n - i)]
            for i, j in draw(st.lists(st.sampled_from(inner), min_size=1, max_size=4, unique=True)):
                row = case["cum"][i]
                z = draw(st.sampled_from([0.0, -0.25, -1.0, -8.0]))
                if z == 0 and signed != "zeros" and (row[j - 1] <= 0 or (j + 1 < len(row) and row[j + 1] <= 0)):
                    z = -1.0                 # zero over zero is no link ratio
                row[j] *= z
                case["signed"].append([i, j])
        if mode == "gaps":
            inner = [(i, j) for i in range(n) for j in range(n - 1 - i)]
            case["gaps"] = [list(c) for c in draw(st.lists(st.sampled_from(inner), min_size=1, max_size=4, unique=True))]
        elif mode == "ragged":
            case["ragged"] = draw(st.lists(st.integers(1, n - 2), min_size=1, max_size=3, unique=True))
    return case


def observed(case):
    """The case's cumulative rows with unobserved cells None."""
    rows = [list(r) for r in case["cum"]]
    for i, j in case.get("gaps", ()):
        rows[i][j] = None
    for i in case.get("ragged", ()):
        rows[i][case["n"] - 1 - i] = None
    return rows


def build(case):
    """(triangle, cells) with the case's gaps; cells agree with the completion rules."""
    rows = observed(case)
    n, o, d = case["n"], case["origins"], case["devs"]
    t = trikit()
    if case.get("names"):
        nm = case["names"]
        tri = t.totri(obs.tab_frame(obs.records(rows, o, d), nm), data_format="cum",
                      origin=nm[0], dev=nm[1], value=nm[2])
    else:
        tri = t.totri(obs.tri_frame(rows, o, d), data_format="cum", data_shape="triangle")
    M = [[NAN if (j >= len(r) or r[j] is None) else r[j] for j in range(n)] for r in rows]
    want = ref.complete_cum(M)
    same_frame(tri, o, d, want, "cumulative triangle", atol=1e-11 * max(v for r in want for v in r if not math.isnan(v)))
    return tri, obs.cells(tri)


def size_tags(case):
    t = {"family:" + case["family"], "n:%d" % case["n"]}
    if case.get("gaps"):
        t.add("gaps")
    if case.get("ragged"):
        t.add("ragged")
    if case.get("signed"):
        t.add("signed")
    if case["devs"] != list(range(1, case["n"] + 1)):
        t.add("odd-devs")
    if case["n"] < 3:
        t.add("trivial")
    return t


def has_ties(C):
    F = ref.link_ratios(C)
    for j in range(len(F[0])):
        col = [F[i][j] for i in range(len(C)) if not math.isnan(F[i][j])]
        if len(set(col)) < len(col):
            return True
    return False


def ratio_grid(C):
    """(link ratios of the origins holding any, their number)."""
    F = ref.link_ratios(C)
    R = sum(1 for r in F if any(x == x for x in r))
    return F[:R], R


def cancels(win):
    """The losses of the window cancel: their weighted average is not resolvable."""
    a = [x[1] for x in win]
    return bool(a) and min(a) < 0 < max(a) and abs(math.fsum(a)) < 1e-6 * max(abs(x) for x in a)


def zero_pair(C, F, j):
    """An observed pair of amounts without a link ratio: zero over zero."""
    return any(F[i][j] != F[i][j] and C[i][j + 1] == C[i][j + 1] for i in range(len(F)))


def slack(kind, win, want):
    """Rounding slack of an average in which terms of both signs cancel, otherwise 0."""
    if not any(x[0] < 0 or x[1] < 0 for x in win) or not math.isfinite(want):
        return 0.0
    if kind == "weighted":
        den = abs(math.fsum(x[1] for x in win))
        return 1e-11 * (max(abs(x[2]) for x in win) + abs(want) * max(abs(x[1]) for x in win)) / den
    return 1e-11 * max(abs(x[0]) for x in win)


def check_avgs(tri, C, excluded, what):
    n = len(C[0])
    d = [plain(c) for c in tri.columns]
    av = tri.a2a_avgs()
    labels = ref.avg_labels(1 + ratio_grid(C)[1])
    got = [plain(x) for x in av.index]
    if sorted(got) != sorted(labels):
        violate("{} rows: got {}, expected {}", what, sorted(got), sorted(labels))
    same_list(av.columns, d[:-1], what + " columns")
    F = ref.link_ratios(C)
    pos = {lab: k for k, lab in enumerate(got)}
    vals = av.values
    for lab, (kind, k) in labels.items():
        for j in range(n - 1):
            win = ref.window(C, F, j, k, excluded)
            w = "{}[{}, {}]".format(what, lab, d[j])
            g = num(vals[pos[lab]][j], w)
            want = ref.average(kind, win)
            if cancels(win):                  # a sum of opposite amounts decided by rounding
                continue
            if k and kind == "weighted" and zero_pair(C, F, j):
                continue                      # whether 0/0 takes a place in the window is left open
            same(g, want, w, rtol=1e-9, atol=slack(kind, win, want))
            if win and not math.isnan(want) and all(x[1] > 0 for x in win):
                lo, hi = min(x[0] for x in win), max(x[0] for x in win)
                if not lo - 1e-9 * abs(lo) <= g <= hi + 1e-9 * abs(hi):
                    violate("{} = {} outside its ratios [{}, {}]", w, g, lo, hi)
    return av


class C06(Prop):
    id = "C06"
    quick, thorough = 800, 12000
    rule = ("a case is a cumulative triangle of positive amounts (tied ratios, gaps, any labels); every link ratio and every "
            "cell of the averages table is compared with the reference; non-trivial = n >= 3")

    def strategy(self, tier):
        return gap_cum_case(2, 8 if tier == "quick" else 14, signed="zeros")

    def check(self, case, exp):
        tri, C = build(case)
        n, o, d = case["n"], case["origins"], case["devs"]
        before = obs.frame_state(tri)
        F, R = ratio_grid(C)
        if any(all(x != x for x in col) for col in zip(*F)):
            raise Skip("a development period without link ratios")
        same_frame(tri.a2a, o[:R], d[:-1], F, "a2a", rtol=1e-12)
        check_avgs(tri, C, (), "a2a_avgs")
        last = [max(i for i in range(R) if not math.isnan(F[i][j])) for j in range(n - 1)]
        g = tri.a2a_lvi
        same_list(g.index, d[:-1], "a2a_lvi periods")
        same_list(g["origin"].values, [o[i] for i in last], "a2a_lvi origins")
        same_list(g["row_offset"].values, last, "a2a_lvi rows")
        obs.unchanged(before, tri, "the triangle")
        tags = size_tags(case)
        if has_ties(C):
            tags.add("tied-ratios")
        return tags


class C07(Prop):
    id = "C07"
    quick, thorough = 240, 8000
    rule = ("a case is a cumulative triangle and a history of exclude/re-include operations (setter or direct) with averages "
            "and Mack factors compared after each stage; non-trivial = n >= 3 and at least one exclusion in force at a check")

    def strategy(self, tier):
        hi = 7 if tier == "quick" else 11

        @st.composite
        def s(draw):
            case = draw(gap_cum_case(2, hi, signed=True))
            n = case["n"]
            cells = [(i, j) for j in range(n - 1) for i in range(n - 1 - j)]
            stages = []
            for _ in range(draw(st.integers(1, 3))):
                ops = draw(st.lists(st.tuples(st.sampled_from(cells), st.sampled_from([0, 0, 0, 1]), st.booleans()),
                                    min_size=1, max_size=6))
                ops = [[list(c), v, s] for c, v, s in ops]
                if draw(st.integers(0, 4)) == 0:       # empty a whole development period
                    j = draw(st.integers(0, n - 2))
                    ops += [[[i, j], 0, True] for i in range(n - 1 - j)]
                stages.append(ops)
            case["stages"] = stages
            case["restore"] = draw(st.booleans())
            return case
        return s()

    def check(self, case, exp):
        tri, C = build(case)
        n, o, d = case["n"], case["origins"], case["devs"]
        first = obs.snap(tri.a2a_avgs())
        cells0 = obs.frame_state(tri)
        excl = set()
        tags = size_tags(case)
        seen = False
        stages = [list(s) for s in case["stages"]]
        if case["restore"]:
            every = [[[i, j], 1, True] for j in range(n - 1) for i in range(n - 1 - j)]
            stages.append(every)
        for ops in stages:
            for (i, j), v, setter in ops:
                if setter:
                    tri.a2aind = (o[i], d[j], v)
                else:
                    tri.a2aind.at[o[i], d[j]] = v
                (excl.discard if v else excl.add)((i, j))
            want = [[int(j < n - 1 - i and (i, j) not in excl) for j in range(n - 1)] for i in range(n - 1)]
            same_frame(tri.a2aind, o[:-1], d[:-1], want, "a2aind")
            av = check_avgs(tri, C, excl, "a2a_avgs with exclusions")
            if not excl and obs.snap(av) != first:
                violate("averages not restored exactly after re-including every ratio: {}",
                        obs.near(obs.snap(av), first, rtol=0))
            seen = seen or bool(excl)
            if excl:
                tags.add("excluded")
            for kind in ref.KINDS:
                row = [ref.average(kind, ref.window(C, ref.link_ratios(C), j, 0, excl)) for j in range(n - 1)]
                if any(math.isnan(x) for x in row):
                    tags.add("undefined-average")
                    continue
                r = tri.base_cl(sel="all-" + kind)
                same_series(r.ldfs, d, row + [1.0], "base_cl all-{} factors".format(kind))
        if n >= 4 and not case.get("signed") and all(any((i, j) not in excl for i in range(n - 1 - j)) for j in range(n - 1)):
            for alpha in (0, 1, 2):
                f = []
                for j in range(n - 1):
                    rows = [i for i in range(n - 1 - j) if (i, j) not in excl]
                    f.append(math.fsum(C[i][j] ** (alpha - 1) * C[i][j + 1] for i in rows)
                             / math.fsum(C[i][j] ** alpha for i in rows))
                r = tri.mack_cl(alpha=alpha, dist="norm")
                same_series(r.ldfs, d, f + [1.0], "Mack factors alpha={}".format(alpha))
                same_series(r.ultimate.iloc[:-1], o, ref.project(C, f + [1.0])["ultimate"], "Mack ultimates", rtol=1e-8)
            tags.add("mack")
        obs_now = obs.frame_state(tri)
        if obs_now != cells0:
            violate("the triangle changed while excluding link ratios")
        same_frame(tri.a2a, o[:-1], d[:-1], [r[:n - 1] for r in ref.link_ratios(C)[:n - 1]], "a2a", rtol=1e-12)
        if not seen:
            tags.add("trivial")
        return tags


def check_summary(r, C, o, d, ldfs, what, rtol=1e-9, extra_tail=True):
    """Chain ladder consequences of the factors ldfs (tail last)."""
    p = ref.project(C, ldfs)
    n = len(o)
    same_series(r.ldfs, d, ldfs, what + " ldfs", rtol)
    s = r.summary
    same_list(s.index, list(o) + ["total"], what + " summary rows")
    mat = [str(x) for x in s["maturity"].values]
    if mat[:-1] != [str(d[j]) for j in p["last"]]:
        violate("{} maturity: got {}, expected {}", what, mat[:-1], [d[j] for j in p["last"]])
    if mat[-1] not in ("", "nan"):
        violate("{} maturity of the total: {!r}", what, mat[-1])
    big = max(abs(x) for x in p["ultimate"] + p["latest"])
    for f in ("cldf", "emergence"):
        same_vec(s[f].values[:-1], p[f], what + " " + f, rtol, labels=o)
        same(s[f].values[-1], NAN, what + " total " + f)
    for f in ("latest", "ultimate", "reserve"):
        same_vec(s[f].values[:-1], p[f], what + " " + f, rtol, atol=1e-11 * big, labels=o)
        same(s[f].values[-1], math.fsum(p[f]), what + " total " + f, rtol, atol=1e-11 * big * n)
    for f, attr in (("emergence", "emergence"), ("ultimate", "ultimate"), ("reserve", "reserve"),
                    ("latest", "latest"), ("cldf", "cldfs")):
        a = getattr(r, attr)
        same_list(a.index, list(s.index), what + " ." + attr + " labels")
        same_vec(a.values, s[f].values, what + " ." + attr, 1e-12)
    same_list([str(x) for x in r.maturity.values], [str(x) for x in s["maturity"].values], what + " .maturity")
    return p


def check_square(sq, C, o, d, p, what, ultimate=True, rtol=1e-9):
    cols = list(d) + (["ultimate"] if ultimate else [])
    want = [row if ultimate else row[:-1] for row in p["square"]]
    same_frame(sq, list(o), cols, want, what + " squared triangle", rtol)


class C08(Prop):
    id = "C08"
    quick, thorough = 700, 14000
    rule = ("a case is a cumulative triangle (gaps, missing newest valuations, exclusions), an average selection and a tail; "
            "the whole result is recomputed from the averages; non-trivial = n >= 3")

    def strategy(self, tier):
        hi = 8 if tier == "quick" else 16

        @st.composite
        def s(draw):
            case = draw(gap_cum_case(2, hi, ragged=True, signed=True, names=draw(st.booleans())))
            n = case["n"]
            sels = sorted(lab for lab, (_, k) in ref.avg_labels(n).items() if not (k and case["ragged"]))
            case["sel"] = draw(st.one_of(st.just("all-weighted"), st.sampled_from(sels)))
            case["tail"] = draw(st.one_of(st.just(1.0), st.integers(500, 3000).map(lambda v: v / 1000)))
            case["excl"] = draw(gen.excl_cells(n)) if draw(st.integers(0, 3)) == 0 and not case["ragged"] else []
            case["default"] = draw(st.integers(0, 9)) == 0
            case["omit"] = draw(st.integers(0, 3)) == 3
            return case
        return s()

    def check(self, case, exp):
        tri, C = build(case)
        n, o, d = case["n"], case["origins"], case["devs"]
        excl = {tuple(e) for e in case["excl"]}
        for i, j in excl:
            tri.a2aind = (o[i], d[j], 0)
        before = obs.frame_state(tri)
        sel, tail = case["sel"], case["tail"]
        if case["default"]:
            sel, tail = "all-weighted", 1.0
        row = ref.avg_row(C, sel, excl)
        if not all(math.isfinite(x) for x in row):
            raise Skip("selected average undefined")
        r = tri.base_cl() if case["default"] else tri.base_cl(**gen.given(case, "base_cl", {"sel": sel, "tail": tail}))
        p = check_summary(r, C, o, d, row + [tail], "base_cl")
        check_square(r.trisqrd, C, o, d, p, "base_cl")
        same(r.tail, tail, "result tail")
        for i in range(len(o)):
            for j in range(p["last"][i] + 1):
                if num(r.trisqrd.iat[i, j]) != C[i][j]:
                    violate("squared triangle changed observed cell [{}, {}]", o[i], d[j])
        same_vec(r.trisqrd["ultimate"].values, r.summary["ultimate"].values[:-1], "ultimate column vs summary")
        obs.unchanged(before, tri, "the triangle")
        tags = size_tags(case) | {"sel:" + sel.split("-")[1] if sel.startswith("all") else "sel:" + sel.split("-")[0]}
        tags.add("window" if not sel.startswith("all") else "all-years")
        if excl:
            tags.add("excluded")
        if tail != 1.0:
            tags.add("tail")
        return tags


FORMS = ["list", "tuple", "array", "series-pos", "series-labels", "series-shuffled", "series-named", "series-default",
         "series-next", "intlist", "f32"]


class C09(Prop):
    id = "C09"
    quick, thorough = 1000, 14000
    rule = ("a case is a cumulative triangle, a factor sequence in several container types (right or wrong length) and a tail, "
            "run twice per container; non-trivial = n >= 3 and a right-length sequence")

    def strategy(self, tier):
        hi = 8 if tier == "quick" else 14

        @st.composite
        def s(draw):
            case = draw(gap_cum_case(2, hi, ragged=True, signed=True))
            n = case["n"]
            m = n - 1
            if draw(st.integers(0, 3)) == 0:
                m = draw(st.sampled_from([k for k in (0, 1, n - 2, n, n + 1, 2 * n) if k != n - 1]))
            f = draw(st.lists(st.integers(500, 5000).map(lambda v: v / 1000), min_size=m, max_size=m))
            case["factors"] = f
            case["tail"] = draw(st.one_of(st.just(1.0), st.integers(500, 3000).map(lambda v: v / 1000)))
            case["forms"] = draw(st.lists(st.sampled_from(FORMS), min_size=2, max_size=3, unique=True))
            case["perm"] = draw(st.permutations(range(m)))
            case["omit"] = draw(st.integers(0, 3)) == 3
            return case
        return s()

    def container(self, case, form):
        f, d = case["factors"], case["devs"]
        if form == "list":
            return list(f)
        if form == "tuple":
            return tuple(f)
        if form == "array":
            return np.array(f, dtype=float)
        if form == "series-pos":
            # positional labels unless they could be read as development periods
            lab = ["f%d" % k for k in range(len(f))]
            return pd.Series(f, index=lab, dtype=float)
        if form == "series-default":
            return pd.Series(f, dtype=float)
        if form == "series-next":                   # labelled by the period developed to: not labels of sel's own periods
            return pd.Series(f, index=(d[1:] if len(f) == len(d) - 1 else None), dtype=float)
        if form == "series-named":
            return pd.Series(f, index=(d[:-1] if len(f) == len(d) - 1 else None), dtype=float, name="ldf")
        if form == "series-labels":
            return pd.Series(f, index=(d[:-1] if len(f) == len(d) - 1 else None), dtype=float)
        if form == "series-shuffled":
            if len(f) != len(d) - 1:
                return pd.Series(f, dtype=float)
            return pd.Series(f, index=d[:-1], dtype=float).iloc[list(case["perm"])]
        if form == "intlist":
            return [int(round(x)) or 1 for x in f]
        return np.array(f, dtype=np.float32)

    def check(self, case, exp):
        tri, C = build(case)
        n, o, d = case["n"], case["origins"], case["devs"]
        tri_before = obs.frame_state(tri)
        good = len(case["factors"]) == n - 1
        tags = size_tags(case)
        for form in case["forms"]:
            arg = self.container(case, form)
            before = obs.snap(arg)
            idx = list(arg.index) if isinstance(arg, pd.Series) else None
            if not good:
                obs.raises(lambda: tri.base_cl(sel=arg, tail=case["tail"]),
                           "{} of {} factors for {} periods".format(form, len(case["factors"]), n))
                if obs.snap(arg) != before:
                    violate("rejected {} argument was modified", form)
                tags.add("wrong-length")
                continue
            f = list(case["factors"])
            if form == "intlist":
                f = [float(int(round(x)) or 1) for x in f]
            elif form == "f32":
                f = [float(np.float32(x)) for x in f]
            for rep in range(2):
                r = tri.base_cl(**gen.given(case, "base_cl", {"sel": arg, "tail": case["tail"]}))
                what = "base_cl({}) call {}".format(form, rep + 1)
                p = check_summary(r, C, o, d, f + [case["tail"]], what)
                check_square(r.trisqrd, C, o, d, p, what)
                if obs.snap(arg) != before or type(arg) is not type(self.container(case, form)) or \
                        (idx is not None and list(arg.index) != idx):
                    violate("caller's {} was modified: {}", form, obs.near(before, obs.snap(arg), rtol=0))
            tags.add("form:" + form)
        obs.unchanged(tri_before, tri, "the triangle")
        if not good:
            tags.add("trivial")
        return tags
