"""C22: the exhibits, read back from the drawn axes."""
import math
import os
import re
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from core import Prop, Skip, violate, same, same_list, same_vec, plain, num, Violation
import gen
import obs
import ref
from p_ratio import build, size_tags
from p_tri import degenerate_mack, degenerate_boot, flat_from
from p_trap import excluded
from p_whole import result_parts

NAN = float("nan")
EXHIBITS = ["combined", "faceted", "base", "mack", "diagnostics", "boot", "hist"]
STYLES = {
    "combined": [{}, {}, {"cmap": "viridis"}, {"marker": "o", "linewidth": 2.0, "figsize": (5, 4)}],
    "faceted": [{}, {}, {"color": "#AA2200", "axes_style": "white"}, {"context": "paper", "col_wrap": 3}, {"linewidth": 2.0}],
    "base": [{}, {}, {"marker": "s", "markersize": 3}, {"actuals_color": "#111111", "forecasts_color": "#EEEEEE"},
             {"hue_kws": {"linewidth": [1.0, 2.0]}}, {"hue_kws": {"linewidth": [1.0]}}, {"col_wrap": 3, "axes_style": "ticks"}],
    "mack": [{}, {}, {"dist_color": "#333333", "q_color": "#0000AA"}, {"col_wrap": 2, "axes_style": "white", "context": "paper"}],
    "diagnostics": [{}, {}, {"cmap": "viridis"}, {"figsize": (6, 6), "markersize": 3}],
    "boot": [{}, {}, {"fill_color": "#CCCCFF", "fill_alpha": .5}, {"col_wrap": 3, "context": "paper"},
             {"hue_kws": {"linewidth": [1.0, 2.0, 1.0, 1.0]}}, {"actuals_color": "#111111", "forecasts_color": "#EEEEEE"}],
    "hist": [{}, {}, {"color": "#4477AA"}, {"bins": 7}, {"axes_style": "white", "col_wrap": 3}, {"edgecolor": "#000000"}],
}


def sorted_pairs(xs, ys):
    return [(num(x), num(y)) for x, y in zip(np.asarray(xs).ravel().tolist(), np.asarray(ys).ravel().tolist())]


def same_points(line, want, what, rtol=1e-9, atol=0.0):
    """A drawn line (x, y) against expected points, in drawing order, points with no value left out."""
    got = [(x, y) for x, y in sorted_pairs(*line) if not math.isnan(y)]
    want = [(float(x), float(y)) for x, y in want if not math.isnan(float(y))]
    same_list([x for x, _ in got], [x for x, _ in want], what + " (x)")
    same_vec([y for _, y in got], [y for _, y in want], what + " (y)", rtol, atol, [x for x, _ in want])


def lines_of(ax):
    """{label: (x, y)} of the labelled lines."""
    out = {}
    for ln in ax.get_lines():
        lab = str(ln.get_label())
        if lab in out:
            violate("two lines labelled {}", lab)
        out[lab] = (ln.get_xdata(), ln.get_ydata())
    return out


def vlines_of(ax):
    """x of the vertical markers (two points sharing one x)."""
    out = []
    for ln in ax.get_lines():
        x = [num(v) for v in np.asarray(ln.get_xdata()).ravel()]
        y = [num(v) for v in np.asarray(ln.get_ydata()).ravel()]
        if len(x) == 2 and (x[0] == x[1] or math.isnan(x[0])) and y == [0.0, 1.0]:
            out.append(x[0])
    return out


def curves_of(ax):
    return [(ln.get_xdata(), ln.get_ydata()) for ln in ax.get_lines() if len(ln.get_xdata()) > 2]


def facets(fig, labels, what):
    """{label: axes} of a faceted exhibit, by the label written in each facet."""
    want = {str(x): x for x in labels}
    out = {}
    for ax in fig.axes:
        texts = [t.get_text() for t in ax.texts] + [ax.get_title()]
        hit = {t for t in texts if t in want}
        if len(hit) != 1:
            violate("{}: a facet is labelled {}, expected exactly one of {}", what, texts, sorted(want))
        lab = want[hit.pop()]
        if lab in out:
            violate("{}: two facets labelled {}", what, lab)
        out[lab] = ax
    return out


def all_facets(fig, labels, what):
    f = facets(fig, labels, what)
    if set(f) != set(labels):
        violate("{}: facets {}, expected {}", what, sorted(map(str, f)), [str(x) for x in labels])
    # Facets appear in origin order.
    same_list([x for x in f], list(labels), what + " facet order")
    return f


def near_text(txt, value, what):
    """The amount written in an annotation, rounded to whole units."""
    try:
        got = float(txt.replace(",", ""))
    except ValueError:
        violate("{}: annotation {!r} is no amount", what, txt)
    if math.isnan(value):
        return
    if abs(got - value) > 0.5 + 1e-9 * abs(value) + 1e-6:
        violate("{}: annotated {!r}, expected {!r}", what, txt, value)


def tick_labels(ax, d, what):
    """x ticks: every development period, then the ultimate."""
    pos = [num(x) for x in ax.get_xticks()]
    same_list(pos[:-1], d, what + " ticks")
    if not pos[-1] > d[-1]:
        violate("{}: ultimate drawn at {}, not after the last period {}", what, pos[-1], d[-1])
    same_list([t.get_text() for t in ax.get_xticklabels()], [str(x) for x in d] + ["ult"], what + " tick labels")
    return pos[-1]


def y_axis(ax, top, what):
    """Amount labels sit at the amounts they name, and reach the largest amount."""
    pos = [num(y) for y in ax.get_yticks()]
    txt = [t.get_text() for t in ax.get_yticklabels()]
    if len(pos) != len(txt):
        violate("{}: {} amount ticks, {} labels", what, len(pos), len(txt))
    for p, t in zip(pos, txt):
        near_text(t, p, what + " amount tick")
    if top > 0 and not max(pos) >= top * (1 - 1e-9):
        violate("{}: amount ticks end at {}, drawn amounts reach {}", what, max(pos), top)


class C22(Prop):
    id = "C22"
    quick, thorough = 320, 6000
    rule = ("a case is a square cumulative triangle with any labels and magnitudes, an exhibit, styling options and probabilities; "
            "the drawn lines, bars, markers, labels and annotations are read back from the axes and compared with the triangle and "
            "the result; non-trivial = every judged exhibit")
    assumptions = ["exhibits are inspected on Matplotlib's Agg canvas; colours and layout are not judged",
                   "estimator results themselves are judged by the estimator properties"]

    def strategy(self, tier):
        hi = 6 if tier == "quick" else 8

        @st.composite
        def s(draw):
            exhibit = draw(st.sampled_from(EXHIBITS))
            # one-axes exhibits are cheap: more origins than a line style cycle has entries
            up = 7 if exhibit in ("combined", "diagnostics") and draw(st.booleans()) else 0
            if draw(st.integers(0, 3)) == 0:
                case = draw(gen.trap_case(4 + up, hi + 1 + up))
            else:
                case = draw(gen.cum_case(4 + up, hi + up, names=draw(st.integers(0, 3)) == 0))
                case = draw(gen.flat_tail(case))
            k = draw(st.sampled_from([1, 1, 1, 1e-6, 1e-3, 1e6]))
            case["cum"] = [[v * k for v in r] for r in case["cum"]]
            case["excl"] = draw(excluded(case, keep=True))
            case["exhibit"] = exhibit
            case["style"] = draw(st.integers(0, len(STYLES[case["exhibit"]]) - 1))
            case["q"] = draw(gen.q_spec(edge=False))
            case["alpha"] = draw(st.sampled_from([0, 1, 1, 2]))
            case["dist"] = draw(st.sampled_from(["norm", "lognorm"]))
            case["tail"] = draw(st.sampled_from([1.0, 1.0, 1.05, 0.97]))
            case["sel"] = draw(st.sampled_from(sorted(ref.avg_labels(1 + sum(1 for r in case["cum"] if len(r) > 1)))))
            case["sims"] = draw(st.integers(2, 25))
            case["seed"] = draw(st.integers(0, 2 ** 31))
            case["parametric"] = draw(st.booleans())
            case["render"] = draw(st.sampled_from(["none", "none", "none", "draw", "file"]))
            return case
        return s()

    def check(self, case, exp):
        import matplotlib
        matplotlib.use("Agg")
        import matplotlib.pyplot as plt
        tri, C = build(case)
        excl = {tuple(e) for e in case.get("excl", ())}
        for i, j in sorted(excl):
            tri.a2aind = (case["origins"][i], case["devs"][j], 0)
        tri_before = obs.frame_state(tri), obs.snap(tri.a2aind)
        kind = case["exhibit"]
        style = {k: ([list(x) for x in v] if k == "none" else v) for k, v in STYLES[kind][case["style"]].items()}
        r = None
        if kind == "base":
            row = ref.avg_row(C, case["sel"], excl)
            if any(math.isnan(v) for v in row):
                raise Skip("average undefined")
            r = tri.base_cl(sel=case["sel"], tail=case["tail"])
        elif kind in ("mack", "diagnostics"):
            if degenerate_mack(C, case["alpha"], excl):
                raise Skip("degenerate variances")
            r = tri.mack_cl(alpha=case["alpha"], dist=case["dist"])
            if not self.judged(case, r, C):
                raise Skip("no reserve distribution is defined")
        elif kind in ("boot", "hist"):
            if degenerate_boot(C, excl):
                raise Skip("degenerate residuals")
            r = tri.boot_cl(sims=case["sims"], random_state=case["seed"], parametric=case["parametric"])
        parts = obs.snap(result_parts(r)) if r is not None else None
        plt.close("all")
        tags = size_tags(case) | {"shape:" + case.get("shape", "square"), "exhibit:" + kind, "styled" if style else "default-style"}
        if excl:
            tags.add("excluded")
        path = None
        if case["render"] == "file" and kind in ("base", "mack", "boot", "hist"):
            path = os.path.join(os.environ["VF_SCRATCH"], "x%d.png" % os.getpid())
            style["exhibit_path"] = path
        try:
            self.draw(case, kind, tri, r, style)
            figs = [plt.figure(k) for k in plt.get_fignums()]
            figs = [f for f in figs if f.axes]
            if len(figs) != 1:
                violate("{} drew {} figures", kind, len(figs))
            getattr(self, "see_" + kind)(case, figs[0], tri, C, r, style)
            if case["render"] == "draw":
                figs[0].canvas.draw()
                tags.add("rendered")
            if path is not None:
                with open(path, "rb") as f:
                    if f.read(8) != b"\x89PNG\r\n\x1a\n":
                        violate("{}: the exhibit file is no image", kind)
                tags.add("written-to-file")
        finally:
            plt.close("all")
            if path is not None and os.path.exists(path):
                os.remove(path)
        if (obs.frame_state(tri), obs.snap(tri.a2aind)) != tri_before:
            violate("drawing {} changed the triangle", kind)
        if r is not None:
            now = obs.snap(result_parts(r))
            if now != parts:
                violate("drawing {} changed the result: {}", kind, obs.near(parts, now, rtol=0))
        return tags

    def draw(self, case, kind, tri, r, style):
        q = gen.q_value(case["q"])
        if kind == "combined":
            tri.plot(**style)
        elif kind == "faceted":
            tri.plot(display="faceted", **style)
        elif kind == "base":
            r.plot(**style)
        elif kind == "mack":
            r.plot(q=q, **style)
        elif kind == "diagnostics":
            r.diagnostics(**style)
        elif kind == "boot":
            r.plot(q=self.one_q(case), **style)
        else:
            r.hist(**style)

    @staticmethod
    def one_q(case):
        return case["q"]["ppm"][0] / 1e6

    # -------------------------------------------------------- triangle

    def actual(self, case, C, i):
        return [(d, C[i][j]) for j, d in enumerate(case["devs"]) if not math.isnan(C[i][j])]

    def see_combined(self, case, fig, tri, C, r, style):
        if len(fig.axes) != 1:
            violate("combined view has {} axes", len(fig.axes))
        ls = lines_of(fig.axes[0])
        if set(ls) != {str(x) for x in case["origins"]}:
            violate("combined view draws {}, expected one line per origin {}", sorted(ls), case["origins"])
        for i, o in enumerate(case["origins"]):
            same_points(ls[str(o)], self.actual(case, C, i), "combined view, origin {}".format(o))
        leg = fig.axes[0].get_legend()
        same_list([t.get_text() for t in leg.get_texts()], [str(x) for x in case["origins"]], "combined view legend")
        same_list([num(x) for x in fig.axes[0].get_xticks()], case["devs"], "combined view ticks")

    def see_faceted(self, case, fig, tri, C, r, style):
        f = all_facets(fig, case["origins"], "faceted view")
        for i, o in enumerate(case["origins"]):
            lines = f[o].get_lines()
            if len(lines) != 1:
                violate("faceted view, origin {}: {} lines", o, len(lines))
            same_points((lines[0].get_xdata(), lines[0].get_ydata()), self.actual(case, C, i), "faceted view, origin {}".format(o))
            same_list([num(x) for x in f[o].get_xticks()], case["devs"], "faceted view ticks")
            for p, t in zip(f[o].get_yticks(), f[o].get_yticklabels()):
                if t.get_text():
                    near_text(t.get_text().replace("\u2212", "-"), num(p), "faceted view amount tick")

    # -------------------------------------------------------- chain ladder

    def forecast(self, case, C, r, i, ult):
        """Latest amount, projections, ultimate of origin i."""
        d, n = case["devs"], case["n"]
        sq = np.asarray(r.trisqrd.loc[case["origins"][i]].values, dtype=float)
        last = ref.last_dev(C)[i]
        pts = [(d[last], C[i][last])]
        pts += [(d[j], sq[j]) for j in range(last + 1, n)]
        return pts + [(ult, sq[n])]

    def see_base(self, case, fig, tri, C, r, style):
        o, d, n = case["origins"], case["devs"], case["n"]
        f = all_facets(fig, list(o) + ["total"], "chain ladder exhibit")
        total = {}
        for i, org in enumerate(o):
            w = "chain ladder exhibit, origin {}".format(org)
            ult = tick_labels(f[org], d, w)
            ls = lines_of(f[org])
            if set(ls) != {"actual", "forecast"}:
                violate("{}: lines {}", w, sorted(ls))
            same_points(ls["actual"], self.actual(case, C, i), w + " actuals")
            fc = self.forecast(case, C, r, i, ult)
            same_points(ls["forecast"], fc, w + " forecasts")
            for x, y in fc:
                total.setdefault(x, []).append(y)
            y_axis(f[org], max([y for _, y in fc] + [y for _, y in self.actual(case, C, i)]), w)
        w = "chain ladder exhibit, total"
        ult = tick_labels(f["total"], d, w)
        ls = lines_of(f["total"])
        ls = {k: v for k, v in ls.items() if len(v[0])}
        if set(ls) != {"forecast"}:
            violate("{}: lines {}", w, sorted(ls))
        pts = [(x, math.fsum(total[x])) for x in sorted(total)]
        same_points(ls["forecast"], pts, w)
        same(pts[-1][1], num(r.ultimate.loc["total"]), w + " ultimate")
        y_axis(f["total"], max(y for _, y in pts), w)

    # -------------------------------------------------------- mack

    def judged(self, case, r, C):
        """Origins (and total) whose reserve distribution is defined, with mean and standard error."""
        big = max(v for row in C for v in row if not math.isnan(v))
        out = {}
        todo = [o for o, k in zip(case["origins"], ref.last_dev(C)) if k < case["n"] - 1]
        for lab in todo + ["total"]:
            m, s = num(r.summary.at[lab, "reserve"]), num(r.summary.at[lab, "std_error"])
            if s > 1e-9 * big and (case["dist"] == "norm" or m > 1e-7 * big):
                out[lab] = (m, s)
        return out

    def density(self, case, curve, m, s, what):
        x = [num(v) for v in curve[0]]
        y = [num(v) for v in curve[1]]
        if x != sorted(x) or len(x) < 20:
            violate("{}: density drawn over {} unordered or too few points", what, len(x))
        lo, hi = (ref.dist_quantile(case["dist"], m, s, p) for p in (.001, .999))
        same(x[0], lo, what + " density start", 1e-6, 1e-6 * s)
        same(x[-1], hi, what + " density end", 1e-6, 1e-6 * s)
        if case["dist"] == "norm":
            pdf = [math.exp(-0.5 * ((v - m) / s) ** 2) / (s * math.sqrt(2 * math.pi)) for v in x]
        else:
            v2 = math.log1p((s / m) ** 2)
            mu, sg = math.log(m) - v2 / 2, math.sqrt(v2)
            pdf = [math.exp(-0.5 * ((math.log(v) - mu) / sg) ** 2) / (v * sg * math.sqrt(2 * math.pi)) if v > 0 else 0.0 for v in x]
        same_vec(y, pdf, what + " density", 1e-5, 1e-7 * max(pdf))

    def see_mack(self, case, fig, tri, C, r, style):
        j = self.judged(case, r, C)
        f = facets(fig, list(case["origins"]) + ["total"], "Mack exhibit")
        if not set(j) <= set(f):
            violate("Mack exhibit has facets {}, expected {}", sorted(map(str, f)), sorted(map(str, j)))
        qs = gen.q_expected(case["q"])
        for lab, (m, s) in j.items():
            w = "Mack exhibit [{}]".format(lab)
            cv = curves_of(f[lab])
            if len(cv) != 1:
                violate("{}: {} curves", w, len(cv))
            self.density(case, cv[0], m, s, w)
            vals = [m] + [ref.dist_quantile(case["dist"], m, s, p) for _, p in qs]
            names = ["mean"] + [gen.ordinal(gen.pct(h)) for h, _ in qs]
            same_vec(vlines_of(f[lab]), vals, w + " markers", 1e-6, 1e-7 * s, names)
            notes = [t.get_text().split(" = ") for t in f[lab].texts if " = " in t.get_text()]
            same_list([t[0] for t in notes], names, w + " annotations")
            for t, v in zip(notes, vals):
                near_text(t[1], v, w + " " + t[0])

    def see_diagnostics(self, case, fig, tri, C, r, style):
        o, d, n = case["origins"], case["devs"], case["n"]
        ax = {a.get_title(loc="left"): a for a in fig.axes}
        want = ["Aggregate Reserve Distribution", "Development by Origin", "std. residuals by devp", "std. residuals by origin"]
        if set(ax) != set(want):
            violate("diagnostics panels: {}", sorted(ax))
        a = ax[want[0]]
        j = self.judged(case, r, C)
        if "total" in j:
            m, s = j["total"]
            cv = curves_of(a)
            if len(cv) != 1:
                violate("diagnostics: {} aggregate curves", len(cv))
            self.density(case, cv[0], m, s, "diagnostics aggregate")
            same_vec(vlines_of(a), [m], "diagnostics mean marker")
            note = [t.get_text() for t in a.texts if "mean" in t.get_text()]
            if len(note) != 1:
                violate("diagnostics: mean annotations {}", note)
            near_text(note[0].split("= ")[1], m, "diagnostics mean")
        ls = lines_of(ax[want[1]])
        if set(ls) != {str(x) for x in o}:
            violate("diagnostics development paths: {}", sorted(ls))
        for i, org in enumerate(o):
            sq = r.trisqrd.loc[org].values
            same_points(ls[str(org)], list(zip(d, sq)), "diagnostics development of origin {}".format(org))
        ldf = [num(v) for v in r.ldfs.values]
        big = max(v for row in C for v in row if not math.isnan(v))
        by_dev, by_org = {}, {}
        for i, last in enumerate(ref.last_dev(C)):
            for k in range(last):
                e = C[i][k] * ldf[k] - C[i][k + 1]
                by_dev.setdefault(k, []).append(e)
                by_org.setdefault(i, []).append(e)
        for groups, axis, labs, w in ((by_dev, ax[want[2]], d, "by devp"), (by_org, ax[want[3]], o, "by origin")):
            off = [p for c in axis.collections for p in np.asarray(c.get_offsets(), dtype=float).tolist()]
            for k, es in groups.items():
                rms = math.sqrt(math.fsum(e * e for e in es) / len(es))
                if len(es) < 2 or rms < 1e-8 * big:
                    continue
                got = sorted(y for x, y in off if x == labs[k])
                same_vec(got, sorted(e / rms for e in es), "diagnostics residuals {} {}".format(w, labs[k]), 1e-6, 1e-6)

    # -------------------------------------------------------- bootstrap

    def see_boot(self, case, fig, tri, C, r, style):
        o, d, n = case["origins"], case["devs"], case["n"]
        f = all_facets(fig, o, "bootstrap exhibit")
        h = gen.q_expected({"ppm": case["q"]["ppm"][:1]}, True)
        names = [gen.ordinal(gen.pct(x)) for x, _ in h]
        sims = {}
        sd = r.sims_data
        for org, dev, u in zip(sd["origin"].values.tolist(), sd["dev"].values.tolist(), sd["ultimate"].values.tolist()):
            sims.setdefault((org, dev), []).append(num(u))
        big = np.nanmax(np.abs(np.asarray(sd["ultimate"].values, dtype=float)))
        at = 1e-10 * big
        for i, org in enumerate(o):
            w = "bootstrap exhibit, origin {}".format(org)
            ult = tick_labels(f[org], d, w)
            ls = lines_of(f[org])
            if set(ls) != {"actual", "forecast"} | set(names):
                violate("{}: lines {}", w, sorted(ls))
            same_points(ls["actual"], self.actual(case, C, i), w + " actuals")
            same_points(ls["forecast"], self.forecast(case, C, r, i, ult), w + " forecasts", atol=at)
            bounds = []
            k0 = ref.last_dev(C)[i]
            for (_, p), name in zip(h, names):
                pts = [(d[k0], C[i][k0])]
                for x, key in [(d[k], d[k]) for k in range(k0 + 1, n)] + [(ult, d[-1])]:
                    v = [u for u in sims[(org, key)] if not math.isnan(u)]
                    pts.append((x, ref_quantile(v, p) if v else NAN))
                same_points(ls[name], pts, "{} {}".format(w, name), atol=at)
                bounds.append([q for q in pts if not math.isnan(q[1])])
            fill = [np.asarray(p.vertices, dtype=float) for c in f[org].collections for p in c.get_paths()]
            if len(fill) != 1:
                violate("{}: {} filled ranges", w, len(fill))
            for b in bounds:
                for x, y in b:
                    if not any(vx == x and abs(vy - y) <= at + 1e-9 * abs(y) for vx, vy in fill[0].tolist()):
                        violate("{}: the filled range misses its bound ({}, {})", w, x, y)
            xs = {x for b in bounds for x, _ in b}
            if not {float(v[0]) for v in fill[0]} <= xs:
                violate("{}: the filled range leaves the forecast periods", w)

    def see_hist(self, case, fig, tri, C, r, style):
        labels = list(case["origins"]) + ["total"]
        f = all_facets(fig, labels, "histogram")
        bins = style.get("bins", 20)
        rd = r.reserve_dist
        for lab in labels:
            w = "histogram [{}]".format(lab)
            x = [num(v) for v in rd[rd["origin"] == lab]["reserve"].values]
            rects = [(p.get_x(), p.get_width(), p.get_height()) for p in f[lab].patches]
            if len(rects) != bins:
                violate("{}: {} bars, expected {}", w, len(rects), bins)
            same(sum(p[2] for p in rects), len(x), w + " total count")
            lo, hi = min(x), max(x)
            span = hi - lo
            if span > 1e-6 * max(abs(lo), abs(hi)):
                same(rects[0][0], lo, w + " lowest edge", atol=1e-6 * span)
                same(rects[-1][0] + rects[-1][1], hi, w + " highest edge", atol=1e-6 * span)
            for a, b, c in rects:
                e = 1e-6 * max(b, span)
                least = sum(1 for v in x if a + e < v < a + b - e)
                most = sum(1 for v in x if a - e <= v <= a + b + e)
                if not least <= c <= most:
                    violate("{}: bar [{}, {}] has height {}, the reserves give {}..{}", w, a, a + b, c, least, most)
            med = max(0.0, float(np.median(x)))
            same_vec(vlines_of(f[lab]), [med], w + " median marker", atol=1e-9 * max(abs(lo), abs(hi)))
            note = [t.get_text() for t in f[lab].texts if "median" in t.get_text()]
            if len(note) != 1:
                violate("{}: median annotations {}", w, note)
            near_text(note[0].split("= ")[1], med, w + " median")


def ref_quantile(v, p):
    """Linear interpolation between order statistics."""
    v = sorted(v)
    h = (len(v) - 1) * p
    k = min(int(math.floor(h)), len(v) - 1)
    m = min(k + 1, len(v) - 1)
    return v[k] + (h - k) * (v[m] - v[k])
