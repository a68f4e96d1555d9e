"""C30: triangles, inputs and results share no state with the caller's objects."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from core import Prop, Skip, violate
import gen
import obs
from obs import trikit
from p_ratio import build, size_tags
from p_tri import degenerate_boot, degenerate_mack
from p_whole import result_parts


def scramble(x):
    """Overwrite every number of a table, series, array or list in place."""
    if isinstance(x, pd.DataFrame):
        for k in range(x.shape[1]):
            if x.dtypes.iloc[k].kind in "if":
                x.iloc[:, k] = 7
            elif x.dtypes.iloc[k].kind == "O":
                x.iloc[:, k] = "gone"
    elif isinstance(x, pd.Series):
        x.iloc[:] = 7 if x.dtype.kind in "if" else "gone"
    elif isinstance(x, np.ndarray):
        if x.flags.writeable:
            x[...] = .77
    elif isinstance(x, list):
        x[:] = [.77]
    elif isinstance(x, dict):
        for v in list(x.values()):
            scramble(v)


def views(tri):
    """What a triangle says about itself."""
    out = {"cells": obs.frame_state(tri), "tbl": tri.to_tbl(), "text": str(tri), "n": tri.nbr_cells, "latest": tri.latest}
    if hasattr(tri, "a2a"):
        out.update(a2a=tri.a2a, ind=tri.a2aind)
    return obs.snap(out)


REQUESTS = {
    "to_tbl": lambda t, c: t.to_tbl(),
    "to_tbl_all": lambda t, c: t.to_tbl(dropna=False),
    "to_incr": lambda t, c: t.to_incr(),
    "roundtrip": lambda t, c: t.to_incr().to_cum(),
    "incr_tbl": lambda t, c: t.to_incr().to_tbl(),
    "diagonal": lambda t, c: t.diagonal(-c["off"]),
    "a2a_avgs": lambda t, c: t.a2a_avgs(),
    "base": lambda t, c: result_parts(t.base_cl(sel=c["sel"], tail=c["tail"])),
    "base_default": lambda t, c: result_parts(t.base_cl()),
    "mack": lambda t, c: result_parts(t.mack_cl(alpha=c["alpha"])),
    "mack_default": lambda t, c: result_parts(t.mack_cl()),
    "mack_get": lambda t, c: t.mack_cl().get_quantiles([.5, .9]),
    "boot": lambda t, c: boot_parts(t.boot_cl(sims=3, random_state=c["seed"], q=[.25, .5])),
    "boot_default": lambda t, c: boot_parts(t.boot_cl(sims=3, random_state=c["seed"])),
    "boot_get": lambda t, c: t.boot_cl(sims=3, random_state=c["seed"]).get_quantiles([.5, .9]),
}


def boot_parts(r):
    out = dict(result_parts(r), detail=r.residuals_detail, dist=r.origin_dist)
    if isinstance(getattr(r, "q", None), (list, np.ndarray)):
        out["q"] = r.q
    return out


class C30(Prop):
    id = "C30"
    quick, thorough = 160, 5000
    rule = ("a case is a triangle built through one of eight ways, a request and its arguments; the caller's input, the first of two "
            "identical results and the caller's arguments are overwritten in place, then triangle, second result and a third "
            "request are compared with the state before; non-trivial = every judged case")

    def strategy(self, tier):
        hi = 6 if tier == "quick" else 10

        @st.composite
        def s(draw):
            case = draw(gen.cum_case(4, hi, names=draw(st.integers(0, 3)) == 0))
            n = case["n"]
            case["way"] = draw(st.sampled_from(["cum-tab", "cum-tri", "incr-tab", "incr-tri", "cum-tri", "incr-tri", "direct"]))
            case["type"] = draw(st.sampled_from(["cum", "cum", "incr"]))
            case["req"] = draw(st.lists(st.sampled_from(sorted(REQUESTS)), min_size=1, max_size=2, unique=True))
            case["off"] = draw(st.integers(0, n - 1))
            case["sel"] = draw(st.sampled_from(["all-weighted", "all-simple", "medial-2", "all-geometric"]))
            case["tail"] = draw(st.sampled_from([1.0, 1.05]))
            case["alpha"] = draw(st.integers(0, 2))
            case["seed"] = draw(st.integers(0, 999))
            case["cell"] = [0, draw(st.integers(0, n - 2))]
            case["holder"] = draw(st.sampled_from(["list", "array", "series", "tuple"]))
            case["load"] = draw(st.sampled_from([None] * 3 + ["raa", "ta83", "amw09", "autoliab", "glre"]))
            return case
        return s()

    def source(self, case):
        """(call building the triangle, the caller's frame)"""
        t, o, d = trikit(), case["origins"], case["devs"]
        rows, nm = case["cum"], case.get("names") or ["origin", "dev", "value"]
        kw = dict(origin=nm[0], dev=nm[1], value=nm[2])
        inc = [[r[j] - (r[j - 1] if j else 0) for j in range(len(r))] for r in rows]
        way = case["way"]
        if way == "direct":
            import trikit.triangle as T
            df = obs.tab_frame(obs.records(inc, o, d), nm)
            cls = T.IncrTriangle if case["type"] == "incr" else T.CumTriangle
            return lambda: cls(df, **kw), df
        fmt = way.split("-")[0]
        rows = inc if fmt == "incr" else rows
        if way.endswith("tri"):
            df = obs.tri_frame(rows, o, d)
            return lambda: t.totri(df, tri_type=case["type"], data_format=fmt, data_shape="triangle"), df
        df = obs.tab_frame(obs.records(rows, o, d), nm)
        return lambda: t.totri(df, tri_type=case["type"], data_format=fmt, **kw), df

    def check(self, case, exp):
        t = trikit()
        tri, C = build(case)
        if degenerate_boot(C) or degenerate_mack(C, case["alpha"]) or degenerate_mack(C, 1):
            raise Skip("degenerate triangle")
        o, d, n = case["origins"], case["devs"], case["n"]
        tags = size_tags(case) | {"way:%s->%s" % (case["way"], case["type"])}
        # the caller's frame
        make, df = self.source(case)
        own = make()
        before = obs.frame_state(own)
        scramble(df)
        if obs.frame_state(own) != before:
            violate("overwriting the caller's data frame ({}) after the call changes the triangle", case["way"])
        # results
        ref0, avgs = views(tri), obs.snap(tri.a2a_avgs())
        for name in case["req"]:
            tags.add("request:" + name)
            first, second = REQUESTS[name](tri, case), REQUESTS[name](tri, case)
            want = obs.snap(second)
            scramble(first)
            if obs.snap(second) != want:
                violate("overwriting one answer of {} changes another: {}", name, obs.near(want, obs.snap(second), rtol=0))
            if views(tri) != ref0:
                violate("overwriting the answer of {} changes the triangle", name)
            third = obs.snap(REQUESTS[name](tri, case))
            if third != want:
                violate("after its answer was overwritten, {} answers differently: {}", name, obs.near(want, third, rtol=0))
        # exclusions made on a converted or copied triangle stay there
        conv = tri.to_incr().to_cum()
        i, j = case["cell"]
        conv.a2aind = (o[i], d[j], 0)
        if views(tri) != ref0:
            violate("excluding a link ratio of a converted triangle changes its source")
        tri2, _ = build(case)
        tri2.a2aind = (o[i], d[j], 0)
        back = views(tri2)
        if views(tri) != ref0 or obs.snap(tri.a2a_avgs()) != avgs or views(tri2) != back:
            violate("excluding a link ratio of one triangle changes another")
        # arguments changed after the call
        vals = [1.5 + .1 * k for k in range(n - 1)]
        arg = {"list": list, "array": np.array, "series": lambda v: pd.Series(v, index=d[:-1]), "tuple": tuple}[case["holder"]](vals)
        r = tri.base_cl(sel=arg, tail=1.1)
        want = obs.snap(result_parts(r))
        scramble(arg)
        if obs.snap(result_parts(r)) != want:
            violate("overwriting the caller's factors ({}) changes the result", case["holder"])
        q = [.25, .5] if case["holder"] == "list" else np.array([.25, .5])
        m, b = tri.mack_cl(q=q), tri.boot_cl(sims=3, random_state=case["seed"], q=q)
        want = obs.snap(result_parts(m)), obs.snap(boot_parts(b))
        scramble(q)
        if (obs.snap(result_parts(m)), obs.snap(boot_parts(b))) != want:
            violate("overwriting the caller's probabilities changes the result")
        # loaders
        if case["load"]:
            tags.add("load")
            for tt in (None, "cum", "incr"):
                call = lambda: t.load(case["load"], tri_type=tt)
                x, y = call(), call()
                want = obs.frame_state(y)
                scramble(x)
                if obs.frame_state(y) != want or obs.frame_state(call()) != want:
                    violate("overwriting the answer of load({!r}, tri_type={!r}) changes another", case["load"], tt)
            names = t.get_datasets()
            want = list(names)
            names[:] = ["gone"]
            if t.get_datasets() != want:
                violate("overwriting the list of datasets changes it")
        return tags


# ------------------------------------------------------------------ C31

def answer(fn):
    """The result, or the kind of failure."""
    try:
        return fn()
    except (KeyboardInterrupt, MemoryError):
        raise
    except Exception as e:
        return "raised " + type(e).__name__


class C31(Prop):
    id = "C31"
    quick, thorough = 320, 6000
    rule = ("a case is a triangle and a history of calls of the same three estimator objects, each with its own arguments, with "
            "link ratios excluded and re-included in between; every result is compared with that of the triangle method on a "
            "fresh triangle and with its own request; non-trivial = at least 2 estimator calls")

    def strategy(self, tier):
        hi = 6 if tier == "quick" else 9
        most = 6 if tier == "quick" else 12

        @st.composite
        def call(draw, n):
            kind = draw(st.sampled_from(["base", "mack", "mack", "boot", "factors", "exclude", "exclude", "include_all"]))
            if kind == "exclude":
                j = draw(st.integers(0, n - 2))
                return [kind, [draw(st.integers(0, n - 2 - j)), j]]
            kw = {}
            if kind == "base":
                kw = {"sel": draw(st.sampled_from(["all-weighted", "all-simple", "medial-3", "all-geometric", "simple-2"])),
                      "tail": draw(st.sampled_from([1.0, 1.03, .95]))}
            elif kind == "factors":
                kw = {"sel": [round(draw(st.floats(.9, 3)), 3) for _ in range(n - 1)], "tail": draw(st.sampled_from([1.0, 1.03]))}
            elif kind == "mack":
                kw = {"alpha": draw(st.integers(0, 2)), "dist": draw(st.sampled_from(["norm", "lognorm"])),
                      "q": draw(st.sampled_from([[.75, .95], [.5], [.1, .123, .9]])), "two_sided": draw(st.booleans())}
            elif kind == "boot":
                kw = {"sims": draw(st.integers(1, 5)), "parametric": draw(st.booleans()), "procdist": "gamma",
                      "q": draw(st.sampled_from([[.75, .95], [.5], [.1, .123, .9]])), "two_sided": draw(st.booleans()),
                      "interpolation": draw(st.sampled_from(["linear", "lower", "higher", "midpoint", "nearest"])),
                      "random_state": draw(st.integers(0, 9))}
            if kind in ("base", "mack") and draw(st.integers(0, 2)) == 0:
                kw = {}
            return [kind, kw]

        @st.composite
        def s(draw):
            case = draw(gen.cum_case(4, hi, names=draw(st.integers(0, 3)) == 0))
            case["ops"] = draw(st.lists(call(case["n"]), min_size=2, max_size=most))
            case["keyword"] = draw(st.booleans())
            return case
        return s()

    def parts(self, x):
        return x if isinstance(x, str) else obs.snap(result_parts(x))

    def check(self, case, exp):
        from trikit.estimators.base import BaseChainLadder
        from trikit.estimators.mack import MackChainLadder
        from trikit.estimators.bootstrap import BootstrapChainLadder
        o, d, n = case["origins"], case["devs"], case["n"]
        tri, C = build(case)
        if degenerate_boot(C):
            raise Skip("degenerate triangle")
        make = (lambda cls: cls(cumtri=tri)) if case["keyword"] else (lambda cls: cls(tri))
        own = {"base": make(BaseChainLadder), "mack": make(MackChainLadder), "boot": make(BootstrapChainLadder)}
        own["factors"] = own["base"]
        excl, calls, kept = set(), 0, []
        tags = size_tags(case)
        cells0 = obs.frame_state(tri)
        for step, (kind, kw) in enumerate(case["ops"]):
            if kind == "exclude":
                excl.add(tuple(kw))
                tri.a2aind = (o[kw[0]], d[kw[1]], 0)
                continue
            if kind == "include_all":
                for i, j in sorted(excl):
                    tri.a2aind = (o[i], d[j], 1)
                excl.clear()
                continue
            calls += 1
            tags |= {"call:" + kind} | ({"with-exclusions"} if excl else set())
            fresh, _ = build(case)
            for i, j in sorted(excl):
                fresh.a2aind = (o[i], d[j], 0)
            method = {"base": fresh.base_cl, "factors": fresh.base_cl, "mack": fresh.mack_cl, "boot": fresh.boot_cl}[kind]
            want = answer(lambda: method(**kw))
            got = answer(lambda: own[kind](**kw))
            m = obs.near(self.parts(got), self.parts(want), rtol=1e-12)
            if m:
                violate("step {}: {} estimator {} (exclusions {}) vs the triangle's method: {}", step, kind, kw, sorted(excl), m)
            if isinstance(got, str):
                tags.add("raises")
                continue
            kept.append((step, kind, got, self.parts(got)))
            for who, r in (("estimator", got), ("method", want)):
                self.echo(who, kind, kw, r, cells0)
        if obs.frame_state(tri) != cells0:
            violate("calling estimators changed the triangle")
        for step, kind, r, was in kept:
            if self.parts(r) != was:
                violate("the result of step {} ({}) changed afterwards: {}", step, kind, obs.near(was, self.parts(r), rtol=0))
        if calls < 2:
            tags.add("trivial")
        return tags

    def echo(self, who, kind, kw, r, cells0):
        """The result tells the request it answers."""
        if obs.frame_state(r.tri) != cells0:
            violate("{} {}: the result's triangle is not the triangle", kind, who)
        want = {"base": {"sel": "all-weighted", "tail": 1.0}, "factors": {}, "mack": {"alpha": 1, "dist": "lognorm", "tail": 1.0},
                "boot": {"tail": 1.0}}[kind]
        want = dict(want, **{k: v for k, v in kw.items() if k not in ("random_state", "two_sided")})
        if kind == "mack":
            want.pop("q", None)
        if kind == "factors":
            want["sel"] = list(kw["sel"]) + [kw["tail"]]
        for k, v in want.items():
            have = getattr(r, k)
            if k == "sel" and kind == "factors":
                have = [float(x) for x in have]
            if obs.near(obs.snap(have), obs.snap(v), rtol=1e-12):
                violate("{} {} with {} reports {} = {!r}", kind, who, kw, k, have)
