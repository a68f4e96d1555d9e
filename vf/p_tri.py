"""C01-C05, C24: construction, layouts, conversions, completion, structure, text."""
import math
import re
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from core import Prop, Skip, violate, same, same_list, same_vec, same_frame, plain, num
import gen
import obs
import ref
from obs import trikit

NAN = float("nan")

AMOUNTS = {
    "int": st.integers(1, 9999).map(float),
    "mixed": st.one_of(st.integers(-500, 2000).map(float), st.just(0.0)),
    "dec": st.integers(1, 10**6).map(lambda v: v / 100.0),
    "float": st.floats(1e-3, 1e6, allow_nan=False),
    "signed": st.integers(-10**9, 10**10).map(lambda v: v / 1e4),
    "huge": st.integers(10**8, 10**12).map(float),
    "binary": st.sampled_from([0.0, 1.0, 2.0, -1.0]),
    "tiny": st.floats(1e-9, 1e-4, allow_nan=False),
}


PICK = {
    "int": lambda r: float(r.randint(1, 9999)),
    "mixed": lambda r: float(r.randint(-500, 2000)) * (r.random() < 0.9),
    "dec": lambda r: r.randint(1, 10**6) / 100.0,
    "float": lambda r: 10 ** r.uniform(-3, 6),
    "signed": lambda r: r.randint(-10**9, 10**10) / 1e4,
    "huge": lambda r: float(r.randint(10**8, 10**12)),
    "binary": lambda r: r.choice([0.0, 1.0, 2.0, -1.0]),
    "tiny": lambda r: 10 ** r.uniform(-9, -4),
}


@st.composite
def incr_case(draw, lo=2, hi=9, gaps=True, first="any", names=True, families=None, shapes=True):
    """Incremental staircase: rows of amounts, None where unobserved."""
    n = R = S = draw(gen.sizes(lo, hi))
    if shapes and draw(st.integers(0, 3)) == 3:       # a cut: R oldest origins, first n periods
        S = max(S, lo + 1)
        R, n = draw(st.integers(lo, S)), draw(st.integers(lo, S))
    o, d = draw(gen.origin_labels(R)), draw(gen.dev_labels(n))
    lens = [min(n, S - i) for i in range(R)]
    fam = draw(st.sampled_from(families or sorted(AMOUNTS)))
    m = sum(lens)
    xs = gen.many(draw, m, AMOUNTS[fam], PICK[fam])
    gapset = set()
    if gaps and n > 2 and draw(st.booleans()):
        # every development period keeps its newest amount and every origin its latest
        inner = [(i, j) for i in range(R) for j in range(lens[i] - 1) if i + 1 < R and lens[i + 1] > j]
        inner += [(i, n - 1) for i in range(R - 1) if lens[i + 1] == n]
        if inner:
            gapset = set(draw(st.lists(st.sampled_from(inner), max_size=max(1, n), unique=True)))
    rows, k = [], 0
    for i in range(R):
        row = []
        for j in range(lens[i]):
            v = xs[k]
            k += 1
            if j == 0 and first == "positive":
                v = abs(v) + 1.0 if fam in ("mixed", "signed", "binary") else v
            row.append(None if (i, j) in gapset else v)
        if all(x is None for x in row):
            row[-1] = v
        rows.append(row)
    case = {"n": n, "origins": o, "devs": d, "incr": rows, "family": fam}
    if names:
        case["names"] = list(draw(st.sampled_from(gen.NAMES)))
    return case


def case_cells(case):
    return {(case["origins"][i], case["devs"][j]): v for i, r in enumerate(case["incr"])
            for j, v in enumerate(r) if v is not None}


def scale_of(M):
    return max([abs(v) for r in M for v in r if not math.isnan(v)] + [1e-300])


def gap_count(case):
    return sum(v is None for r in case["incr"] for v in r)


def tags_of(case):
    t = {"family:" + case["family"], "n:%d" % case["n"]}
    if len(case["origins"]) != case["n"] or ("incr" in case and any(len(r) != case["n"] - i for i, r in enumerate(case["incr"]))):
        t.add("not-square")
    if gap_count(case):
        t.add("gaps")
    if any(r[0] is not None and r[0] <= 0 for r in case["incr"]):
        t.add("nonpositive-first")
    if any(v is not None and v < 0 for r in case["incr"] for v in r[1:]):
        t.add("negative-increment")
    if case["devs"] != list(range(1, case["n"] + 1)):
        t.add("odd-devs")
    if case.get("names") and case["names"] != ["origin", "dev", "value"]:
        t.add("custom-names")
    return t


class C01(Prop):
    id = "C01"
    quick, thorough = 2000, 60000
    rule = ("a case is a staircase of incremental amounts with labels, turned into a record list (splits, permutation, "
            "odd index, extra columns, custom names); non-trivial = at least one split cell, permuted order, non-default "
            "index, extra column or custom name, and n >= 3")
    assumptions = ["amounts finite, labels integers, every origin and development period has a record"]
    gaps = True

    def strategy(self, tier):
        hi = 9 if tier == "quick" else 16

        @st.composite
        def s(draw):
            case = draw(incr_case(2, hi, gaps=self.gaps))
            base = []
            for i, r in enumerate(case["incr"]):
                for j, v in enumerate(r):
                    if v is not None:
                        base.append([i, j, v])
            extra = draw(st.lists(st.tuples(st.integers(0, len(base) - 1), st.integers(-900, 900)), max_size=8))
            recs = [list(b) for b in base]
            unit = 1e-7 if case["family"] == "tiny" else 1.0
            for k, x in extra:                     # split: part x moved to a further record
                recs[k][2] = recs[k][2] - x * unit
                recs.append([recs[k][0], recs[k][1], x * unit])
            order = draw(st.one_of(st.none(), st.permutations(range(len(recs)))))
            case["records"] = [recs[k] for k in order] if order else recs
            if draw(st.integers(0, 3)) == 0:         # records without an amount, for any origin and period that has others
                for _ in range(draw(st.integers(1, 3))):
                    i, j = draw(st.integers(0, len(case["origins"]) - 1)), draw(st.integers(0, case["n"] - 1))
                    at = draw(st.integers(0, len(case["records"])))
                    case["records"].insert(at, [i, j, None])
            case["split"] = len(extra)
            case["shuffled"] = order is not None
            case["index"] = draw(st.sampled_from(["range", "reversed", "dup", "text", "named", "offset", "multi"]))
            case["extra"] = draw(st.lists(st.sampled_from(["note", "count", "empty"]), max_size=2, unique=True))
            case["colorder"] = draw(st.permutations([0, 1, 2]))
            case["dtype"] = draw(st.sampled_from(["float", "float", "int32", "objectlabels", "int", "floatlabels", "small",
                                                  "nullable", "float32"]))
            case["tri_type"] = draw(st.sampled_from(["incr", "cum", "Cumulative", "INCR"]))
            del case["incr"]
            return case
        return s()

    def frame(self, case):
        nm = case["names"]
        o = [case["origins"][r[0]] for r in case["records"]]
        d = [case["devs"][r[1]] for r in case["records"]]
        v = [float("nan") if r[2] is None else r[2] for r in case["records"]]
        cols = {nm[0]: o, nm[1]: d, nm[2]: v}
        df = pd.DataFrame({nm[k]: cols[nm[k]] for k in case["colorder"]})
        if case["dtype"] == "int32":
            df = df.astype({nm[0]: np.int32, nm[1]: np.int32})
        elif case["dtype"] == "objectlabels":
            df = df.astype({nm[0]: object, nm[1]: object})
        elif case["dtype"] == "floatlabels":
            df = df.astype({nm[0]: float, nm[1]: float})
        elif case["dtype"] == "int" and all(x == x and x == int(x) for x in v):
            df = df.astype({nm[2]: np.int64})
        elif case["dtype"] == "small":             # the narrowest type each column fits
            for k, col in ((0, o), (1, d), (2, v)):
                if all(x == x and x == int(x) for x in col):
                    for kind in (np.int8, np.uint8, np.int16, np.uint16, np.int32):
                        if np.iinfo(kind).min <= min(col) and max(col) <= np.iinfo(kind).max:
                            df = df.astype({nm[k]: kind})
                            break
        elif case["dtype"] == "nullable":
            df = df.astype({nm[0]: "Int64", nm[1]: "Int64", nm[2]: "Float64"})
        elif case["dtype"] == "float32" and all(x == x and x == int(x) for x in v) and sum(abs(x) for x in v) < 2 ** 24:
            df = df.astype({nm[2]: np.float32})
        for e in case["extra"]:
            name = "zz_" + e
            if e == "note":
                df[name] = ["r%d" % k for k in range(len(df))]
            elif e == "count":
                df.insert(0, name, np.arange(len(df)) * 1.5)
            else:
                df[name] = np.nan
        n = len(df)
        kind = case["index"]
        if kind == "reversed":
            df.index = list(range(n))[::-1]
        elif kind == "dup":
            df.index = [0] * n
        elif kind == "text":
            df.index = ["k%d" % (k % 3) for k in range(n)]
        elif kind == "named":
            df.index = pd.Index(range(n), name=nm[0])
        elif kind == "offset":
            df.index = range(100, 100 + n)
        elif kind == "multi":
            df.index = pd.MultiIndex.from_arrays([o, d], names=nm[:2])
        return df

    def expect(self, case):
        n, R = case["n"], len(case["origins"])
        cl = ref.totals([(case["origins"][r[0]], case["devs"][r[1]], r[2]) for r in case["records"] if r[2] is not None])
        have_o = {k[0] for k in cl}
        if len(have_o) != R or len({k[1] for k in cl}) != n:
            raise Skip("a label without records")
        inc = ref.incr_matrix(cl, case["origins"], case["devs"])
        if case["tri_type"].lower().startswith("i"):
            want = inc
        else:
            want = ref.complete_cum(ref.raw_cum(cl, case["origins"], case["devs"]))
        recs = [r for r in case["records"] if r[2] is not None]
        tot = math.fsum(abs(r[2]) for r in recs)
        # A first-period total that only rounding separates from zero is left out.
        for i in range(R):
            v = cl.get((case["origins"][i], case["devs"][0]))
            if v is not None and v != 0 and abs(v) < 1e-9 * tot:
                raise Skip("first amount indistinguishable from zero")
            if v == 0 and any(r[2] != int(r[2]) for r in recs if r[0] == i and r[1] == 0):
                raise Skip("first amount indistinguishable from zero")
        return want, cl, tot

    def check(self, case, exp):
        want, cl, tot = exp
        t = trikit()
        nm = case["names"]
        df = self.frame(case)
        before = obs.frame_state(df)
        tri = t.totri(df, tri_type=case["tri_type"], origin=nm[0], dev=nm[1], value=nm[2])
        obs.unchanged(before, df, "the caller's data frame")
        same_frame(tri, case["origins"], case["devs"], want, "triangle", atol=1e-11 * tot)
        kind = "IncrTriangle" if case["tri_type"].lower().startswith("i") else "CumTriangle"
        if type(tri).__name__ != kind:
            violate("tri_type {!r} returned a {}", case["tri_type"], type(tri).__name__)
        tbl = tri.to_tbl()
        same_list(tbl.columns, nm, "to_tbl columns")
        pairs = [(case["origins"][i], case["devs"][j], want[i][j]) for i in range(len(case["origins"]))
                 for j in range(case["n"]) if not math.isnan(want[i][j])]
        same_list(tbl[nm[0]], [p[0] for p in pairs], "to_tbl origins")
        same_list(tbl[nm[1]], [p[1] for p in pairs], "to_tbl development periods")
        same_vec(tbl[nm[2]], [p[2] for p in pairs], "to_tbl values", atol=1e-11 * tot)
        # Same amounts in canonical order under default names: the same triangle.
        canon = obs.tab_frame(sorted((k[0], k[1], v) for k, v in cl.items()))
        tri2 = t.totri(canon, tri_type=case["tri_type"])
        same_frame(tri, case["origins"], case["devs"], obs.cells(tri2), "triangle vs canonical records", atol=1e-11 * tot)
        tags = {"type:" + kind, "index:" + case["index"], "n:%d" % case["n"]}
        if case["split"]:
            tags.add("split")
        if case["shuffled"]:
            tags.add("shuffled")
        if any(r[2] is None for r in case["records"]):
            tags.add("records-without-amount")
        if nm != ["origin", "dev", "value"]:
            tags.add("custom-names")
        if len(cl) < sum(not math.isnan(v) for r in ref.complete_cum(ref.raw_cum(cl, case["origins"], case["devs"])) for v in r):
            tags.add("gaps")
        if len(case["origins"]) != case["n"]:
            tags.add("not-square")
        if not (case["split"] or case["shuffled"] or case["extra"] or "custom-names" in tags
                or case["index"] != "range") or case["n"] < 3:
            tags.add("trivial")
        return tags


class C29(C01):
    id = "C29"
    quick, thorough = 1200, 40000
    rule = C01.rule.replace("a case is", "a case is a triangle class and")
    gaps = False

    def frame(self, case):
        return super().frame(dict(case, dtype="int" if case["dtype"] == "nullable" else case["dtype"]))

    def check(self, case, exp):
        want, cl, tot = exp
        from trikit.triangle import IncrTriangle, CumTriangle
        nm, o, d = case["names"], case["origins"], case["devs"]
        df = self.frame(case)
        before = obs.frame_state(df)
        kind = "IncrTriangle" if case["tri_type"].lower().startswith("i") else "CumTriangle"
        cls = IncrTriangle if kind == "IncrTriangle" else CumTriangle
        kw = {k: v for k, v in zip(("origin", "dev", "value"), nm) if v != k or case["index"] == "range"}
        tri = cls(df, **kw)
        obs.unchanged(before, df, "the caller's data frame")
        if type(tri) is not cls:
            violate("{} built a {}", kind, type(tri).__name__)
        same_frame(tri, o, d, want, kind, atol=1e-11 * tot)
        other = trikit().totri(df, tri_type=case["tri_type"], origin=nm[0], dev=nm[1], value=nm[2])
        same_frame(other, o, d, obs.cells(tri), "totri vs " + kind, atol=1e-11 * tot)
        ta, tb = tri.to_tbl(), other.to_tbl()
        same_list(ta.columns, nm, "to_tbl columns")
        for k in (0, 1):
            same_list(ta[nm[k]], list(tb[nm[k]]), "to_tbl " + nm[k])
        same_vec(ta[nm[2]], list(tb[nm[2]]), "to_tbl values", atol=1e-11 * tot)
        same_list(tri.maturity.values, list(other.maturity.values), "maturity")
        same_vec(tri.latest_by_origin.values, list(other.latest_by_origin.values), "latest_by_origin", atol=1e-11 * tot)
        gone = nm[len(case["records"]) % 3]
        part = df.drop(gone, axis=1)
        obs.raises(lambda: cls(part, **kw), "{} without column {}".format(kind, gone))
        obs.raises(lambda: cls(df.values, **kw), "{} of an array".format(kind))
        tags = {"type:" + kind, "index:" + case["index"], "n:%d" % case["n"]}
        if case["split"]:
            tags.add("split")
        if case["shuffled"]:
            tags.add("shuffled")
        if len(kw) < 3:
            tags.add("default-names")
        if any(r[2] is None for r in case["records"]):
            tags.add("records-without-amount")
        if not (case["split"] or case["shuffled"] or nm != ["origin", "dev", "value"]) or case["n"] < 3:
            tags.add("trivial")
        return tags


def spelled(word, how):
    """Another accepted spelling of "incr" or "cum"."""
    if how in ("upper", "capitalize"):
        return getattr(word, how)()
    if how == "long":
        return {"incr": "incremental", "cum": "cumulative"}[word]
    return word[0] if how == "first" else word


class C02(Prop):
    id = "C02"
    quick, thorough = 900, 30000
    rule = ("a case is a staircase of increments (possibly with unobserved interior cells) fed through the 4 layouts "
            "(tabular/triangle x incremental/cumulative) and both triangle types, all compared with the reference; "
            "non-trivial = n >= 3 and amounts not all equal")

    def strategy(self, tier):
        hi = 8 if tier == "quick" else 14

        @st.composite
        def s(draw):
            case = draw(incr_case(2, hi))
            m = sum(len(r) for r in case["incr"])
            case["order"] = draw(st.one_of(st.none(), st.permutations(range(m))))
            case["iname"] = draw(st.sampled_from([None, "origin", "index", "AY", "dev", "value"]))
            case["cname"] = draw(st.sampled_from([None, "dev", "value", "origin", "variable", "age"]))
            case["bogus"] = draw(st.booleans())
            case["textcols"] = draw(st.integers(0, 5)) == 0
            case["spell"] = draw(st.sampled_from([None, None, None, "upper", "capitalize", "long", "first"]))
            if draw(st.integers(0, 3)) == 3:               # rows and columns of triangle-shaped input in any order
                case["roworder"] = draw(st.permutations(range(len(case["origins"]))))
                case["colorder"] = draw(st.permutations(range(case["n"])))
            return case
        return s()

    def expect(self, case):
        cl = case_cells(case)
        o, d = case["origins"], case["devs"]
        raw = ref.raw_cum(cl, o, d)
        sc = scale_of(raw)
        for i in range(len(o)):
            # rounding must not decide whether a first amount is positive
            v = raw[i][0]
            if not math.isnan(v) and v != 0 and abs(v) < 1e-12 * sc:
                raise Skip("first amount indistinguishable from zero")
        return cl, raw, {"incr": ref.incr_matrix(cl, o, d), "cum": ref.complete_cum(raw)}, sc

    def check(self, case, exp):
        cl, raw, want, sc = exp
        t = trikit()
        o, d, nm = case["origins"], case["devs"], case["names"]
        incr_recs = [(k[0], k[1], v) for k, v in sorted(cl.items())]
        cum_recs = obs.records(raw, o, d)
        if case["order"]:
            ordr = [k for k in case["order"] if k < len(incr_recs)]
            incr_recs = [incr_recs[k] for k in ordr]
            cum_recs = [cum_recs[k] for k in ordr]
        frames = {
            ("tabular", "incr"): obs.tab_frame(incr_recs, nm),
            ("tabular", "cum"): obs.tab_frame(cum_recs, nm),
            ("triangle", "incr"): obs.tri_frame(case["incr"], o, d, case["iname"], case["cname"]),
            ("triangle", "cum"): obs.tri_frame(raw, o, d, case["iname"], case["cname"]),
        }
        if case["textcols"]:
            for k in (("triangle", "incr"), ("triangle", "cum")):
                frames[k].columns = pd.Index([str(c) for c in d], name=case["cname"])
        if "roworder" in case:
            for k in (("triangle", "incr"), ("triangle", "cum")):
                frames[k] = frames[k].iloc[case["roworder"], case["colorder"]]
        for (shape, fmt), df in frames.items():
            if shape == "tabular":
                kw = {"origin": nm[0], "dev": nm[1], "value": nm[2]}
            else:
                kw = {"origin": "no", "dev": "such", "value": "column"} if case["bogus"] else {}
            for tt in ("incr", "cum"):
                before = obs.frame_state(df)
                a, b = (spelled(x, case.get("spell")) for x in (tt, fmt))
                tri = t.totri(df, tri_type=a, data_format=b, data_shape=shape, **kw)
                what = "{} from {} {}".format(a, shape, b)
                obs.unchanged(before, df, "input of " + what)
                same_frame(tri, o, d, want[tt], what, atol=1e-11 * sc)
        tags = tags_of(case)
        if case["order"]:
            tags.add("shuffled")
        if "roworder" in case:
            tags.add("permuted-frame")
        if case.get("spell"):
            tags.add("spelled:" + case["spell"])
        if case["n"] < 3 or len(set(cl.values())) < 2:
            tags.add("trivial")
        return tags


class C03(Prop):
    id = "C03"
    quick, thorough = 800, 30000
    rule = ("a case is a staircase with labels and column names; round trips incr->cum->incr and cum->incr->cum, "
            "cell-by-cell difference/sum relations, tabular export and rebuild; non-trivial = n >= 3, amounts not all equal")

    def strategy(self, tier):
        return incr_case(2, 9 if tier == "quick" else 14)

    def expect(self, case):
        cl = case_cells(case)
        o, d = case["origins"], case["devs"]
        raw = ref.raw_cum(cl, o, d)
        return cl, ref.incr_matrix(cl, o, d), ref.complete_cum(raw), scale_of(raw)

    def check(self, case, exp):
        cl, winc, wcum, sc = exp
        t = trikit()
        o, d, nm, n = case["origins"], case["devs"], case["names"], case["n"]
        kw = {"origin": nm[0], "dev": nm[1], "value": nm[2]}
        tol = 1e-11 * sc
        recs = obs.tab_frame([(k[0], k[1], v) for k, v in sorted(cl.items())], nm)
        inc = t.totri(recs, tri_type="incr", **kw)
        cum = t.totri(recs, tri_type="cum", **kw)
        s_inc, s_cum = obs.frame_state(inc), obs.frame_state(cum)
        same_frame(inc, o, d, winc, "incremental triangle", atol=tol)
        same_frame(cum, o, d, wcum, "cumulative triangle", atol=tol)
        # differences of a completed triangle cancel at the scale of its filled first amounts (1.0)
        tol = 1e-11 * max(sc, scale_of(wcum))
        # cumulative -> incremental: differences; and back: identity
        inc2 = cum.to_incr()
        if type(inc2).__name__ != "IncrTriangle":
            violate("to_incr returned {}", type(inc2).__name__)
        R = len(o)
        diff = [[wcum[i][j] - (wcum[i][j - 1] if j else 0.0) for j in range(n)] for i in range(R)]
        same_frame(inc2, o, d, diff, "to_incr()", atol=tol)
        cum2 = inc2.to_cum()
        if type(cum2).__name__ != "CumTriangle":
            violate("to_cum returned {}", type(cum2).__name__)
        same_frame(cum2, o, d, wcum, "to_incr().to_cum()", atol=tol)
        # incremental -> cumulative: running sums (gaps carried forward)
        cum3 = inc.to_cum()
        icells = {(o[i], d[j]): winc[i][j] for i in range(R) for j in range(n) if not math.isnan(winc[i][j])}
        w3 = ref.complete_cum(ref.raw_cum(icells, o, d))
        same_frame(cum3, o, d, w3, "to_cum()", atol=tol)
        if not gap_count(case):
            inc3 = cum3.to_incr()
            same_frame(inc3, o, d, winc, "to_cum().to_incr()", atol=tol)
        # tabular export and rebuild
        for tri, M, fmt, what in ((inc, winc, "incr", "incremental"), (cum, wcum, "cum", "cumulative"),
                                  (cum3, w3, "cum", "converted cumulative"),
                                  (inc2, diff, "incr", "converted incremental")):
            names = nm
            tbl = tri.to_tbl()
            same_list(tbl.columns, names, what + " to_tbl columns")
            full = tri.to_tbl(dropna=False)
            pairs = [(o[i], d[j], M[i][j]) for i in range(R) for j in range(n)]
            obsd = [p for p in pairs if not math.isnan(p[2])]
            for tb, pr, w in ((tbl, obsd, what + " to_tbl()"), (full, pairs, what + " to_tbl(dropna=False)")):
                same_list(tb[names[0]], [p[0] for p in pr], w + " origins")
                same_list(tb[names[1]], [p[1] for p in pr], w + " devs")
                same_vec(tb[names[2]], [p[2] for p in pr], w + " values", atol=tol)
            again = t.totri(tbl, tri_type=what.split()[-1], data_format=fmt,
                            origin=names[0], dev=names[1], value=names[2])
            same_frame(again, o, d, M, "rebuilt from to_tbl: " + what, atol=tol)
        obs.unchanged(s_inc, inc, "incremental triangle")
        obs.unchanged(s_cum, cum, "cumulative triangle")
        tags = tags_of(case)
        if n < 3 or len(set(cl.values())) < 2:
            tags.add("trivial")
        return tags


class C04(Prop):
    id = "C04"
    quick, thorough = 2400, 40000
    rule = ("a case is a staircase with unobserved interior cells (record absent or explicitly missing), explicitly missing "
            "future cells and non-positive first-period amounts, through a drawn layout; non-trivial = at least one such cell")

    def strategy(self, tier):
        hi = 8 if tier == "quick" else 14

        @st.composite
        def s(draw):
            case = draw(incr_case(2, hi, families=["int", "mixed", "signed", "binary", "dec"], names=True))
            n = case["n"]
            # first-period amounts, often non-positive
            for i in range(len(case["incr"])):
                if case["incr"][i][0] is not None:
                    k = draw(st.integers(0, 5))
                    if k == 0:
                        case["incr"][i][0] = 0.0
                    elif k == 1:
                        case["incr"][i][0] = -abs(case["incr"][i][0]) - 1.0
            case["explicit"] = draw(st.sampled_from(["none", "gaps", "future", "both"]))
            case["layout"] = draw(st.sampled_from(["tabular-incr", "tabular-cum", "triangle-incr", "triangle-cum"]))
            case["order"] = draw(st.booleans())
            return case
        return s()

    def expect(self, case):
        cl = case_cells(case)
        o, d = case["origins"], case["devs"]
        raw = ref.raw_cum(cl, o, d)
        return cl, raw, ref.incr_matrix(cl, o, d), ref.complete_cum(raw), scale_of(raw)

    def check(self, case, exp):
        cl, raw, winc, wcum, sc = exp
        t = trikit()
        o, d, nm, n = case["origins"], case["devs"], case["names"], case["n"]
        shape, fmt = case["layout"].split("-")
        vals = case["incr"] if fmt == "incr" else raw
        if shape == "triangle":
            df, kw = obs.tri_frame(vals, o, d), {}
        else:
            recs = obs.records(vals, o, d)
            have = {(r[0], r[1]) for r in recs}
            for i in range(len(o)):
                for j in range(n):
                    future = j >= len(case["incr"][i])
                    if (o[i], d[j]) not in have and case["explicit"] in ("both", "future" if future else "gaps"):
                        recs.append((o[i], d[j], NAN))
            if case["order"]:
                recs = recs[::-1]
            df, kw = obs.tab_frame(recs, nm), {"origin": nm[0], "dev": nm[1], "value": nm[2]}
        for tt, W in (("incr", winc), ("cum", wcum)):
            tri = t.totri(df, tri_type=tt, data_format=fmt, data_shape=shape, **kw)
            same_frame(tri, o, d, W, "{} triangle".format(tt), atol=1e-11 * sc)
            for i in range(len(o)):
                for j in range(len(case["incr"][i]), n):
                    if not math.isnan(num(tri.iat[i, j])):
                        violate("future cell [{}, {}] filled with {}", o[i], d[j], tri.iat[i, j])
        tags = tags_of(case) | {"layout:" + case["layout"]}
        if case["explicit"] != "none" and shape == "tabular":
            tags.add("explicit-missing")
        if not tags & {"gaps", "nonpositive-first", "explicit-missing"}:
            tags.add("trivial")
        return tags


class C05(Prop):
    id = "C05"
    quick, thorough = 1500, 30000
    rule = ("a case is an incremental or cumulative triangle (interior gaps, origins missing their newest valuation, any "
            "labels), queried for every structure property and every diagonal offset; non-trivial = n >= 3")

    def strategy(self, tier):
        hi = 9 if tier == "quick" else 16

        @st.composite
        def s(draw):
            case = draw(incr_case(2, hi))
            n = case["n"]
            case["tri_type"] = draw(st.sampled_from(["incr", "cum"]))
            case["ragged"] = []
            if n > 2 and len(case["incr"]) == n and len(case["incr"][-1]) == 1 and draw(st.integers(0, 3)) == 0:
                # origins without their newest valuation (their previous amount is kept)
                rag = draw(st.lists(st.integers(1, n - 2), max_size=3, unique=True))
                for i in rag:
                    case["incr"][i][n - 1 - i] = None
                    if case["incr"][i][n - 2 - i] is None:
                        case["incr"][i][n - 2 - i] = 5.0
                case["ragged"] = rag
            case["seqs"] = draw(st.permutations(["maturity", "latest", "triind", "clvi", "rlvi", "nbr", "lbo", "lbd", "diag"]))
            return case
        return s()

    def expect(self, case):
        cl = case_cells(case)
        o, d, n = case["origins"], case["devs"], case["n"]
        if {k[0] for k in cl} != set(o) or {k[1] for k in cl} != set(d):
            raise Skip("a label without amounts")
        return (ref.incr_matrix(cl, o, d) if case["tri_type"] == "incr"
                else ref.complete_cum(ref.raw_cum(cl, o, d)))

    def check(self, case, M):
        t = trikit()
        o, d, nm, n = case["origins"], case["devs"], case["names"], case["n"]
        R = len(o)
        recs = obs.tab_frame(obs.records(case["incr"], o, d), nm)
        tri = t.totri(recs, tri_type=case["tri_type"], origin=nm[0], dev=nm[1], value=nm[2])
        sc = scale_of(M)
        tol = 1e-11 * sc
        same_frame(tri, o, d, M, "triangle", atol=tol)
        M = obs.cells(tri)
        before = obs.frame_state(tri)
        lo = ref.last_origin(M)
        ld = ref.last_dev(M)
        future = [[int(i > lo[j]) for j in range(n)] for i in range(R)]
        newest = max(i + ld[i] for i in range(R))
        for q in case["seqs"]:
            if q == "maturity":
                want = [d[max(j for j in range(n) if not future[i][j])] for i in range(R)]
                same_list(tri.maturity.index, o, "maturity labels")
                same_list(tri.maturity.values, want, "maturity")
            elif q == "latest":
                df = tri.latest
                same_list(df.columns, ["origin", "dev", "latest"], "latest columns")
                same_list(df["origin"], o, "latest origin")
                same_list(df["dev"], [d[j] for j in ld], "latest dev")
                same_vec(df["latest"], [M[i][ld[i]] for i in range(R)], "latest amounts")
            elif q == "lbo":
                same_list(tri.latest_by_origin.index, o, "latest_by_origin labels")
                same_vec(tri.latest_by_origin.values, [M[i][ld[i]] for i in range(R)], "latest_by_origin")
            elif q == "lbd":
                s = tri.latest_by_devp
                got = sorted((plain(a), num(b)) for a, b in zip(s.index, s.values))
                want = sorted((d[ld[i]], M[i][ld[i]]) for i in range(R))
                same_list(list(s.index), sorted(d[j] for j in ld), "latest_by_devp labels")
                if got != want:
                    violate("latest_by_devp: got {}, expected {}", got, want)
            elif q == "triind":
                df = tri.triind
                same_frame(df, o, d, future, "triind")
            elif q == "clvi":
                df = tri.clvi
                same_list(df.index, d, "clvi labels")
                same_list(df["origin"], [o[k] for k in lo], "clvi origin")
                same_list(df["row_offset"], lo, "clvi row_offset")
            elif q == "rlvi":
                df = tri.rlvi
                same_list(df.index, o, "rlvi labels")
                same_list(df["dev"], [d[k] for k in ld], "rlvi dev")
                same_list(df["col_offset"], ld, "rlvi col_offset")
            elif q == "nbr":
                same(tri.nbr_cells, sum(not math.isnan(v) for r in M for v in r), "nbr_cells")
            else:
                for off in range(0, n):
                    dg = tri.diagonal(offset=-off)
                    pos = [(i, newest - i - off) for i in range(R) if 0 <= newest - i - off < n]
                    if R != n or newest != n - 1:          # unobserved cells of the diagonal may be listed or not
                        dg = dg[~np.isnan(dg["value"].astype(float))]
                        pos = [(i, j) for i, j in pos if not math.isnan(M[i][j])]
                    w = "diagonal(%d)" % -off
                    same_list(dg["origin"], [o[i] for i, j in pos], w + " origin")
                    same_list(dg["dev"], [d[j] for i, j in pos], w + " dev")
                    same_vec(dg["value"], [M[i][j] for i, j in pos], w + " value")
                obs.raises(lambda: tri.diagonal(offset=-n), "diagonal(%d) of %d periods" % (-n, n))
                obs.raises(lambda: tri.diagonal(offset=-n - 3), "diagonal(%d) of %d periods" % (-n - 3, n))
        same_list(tri.origins.values, o, "origins")
        same_list(tri.devp.values, d, "devp")
        obs.unchanged(before, tri, "the triangle")
        tags = tags_of(case) | {"type:" + case["tri_type"]}
        if case["ragged"]:
            tags.add("ragged")
        if n < 3:
            tags.add("trivial")
        return tags


# ---------------------------------------------------------------- text forms

def whole(v):
    return "{:,.0f}".format(v)


def parse(txt):
    """Tokens per line, splitting on runs of blanks."""
    return [re.split(r"\s+", ln.strip()) for ln in txt.split("\n")]


class C24(Prop):
    id = "C24"
    quick, thorough = 700, 12000
    rule = ("a case is a triangle (incremental or cumulative, with gaps) or an estimator result whose text form is parsed "
            "back cell by cell; non-trivial = n >= 3")
    assumptions = ["displayed missing cells read NaN (pandas), as on the pinned stack"]

    def strategy(self, tier):
        hi = 7 if tier == "quick" else 12

        @st.composite
        def s(draw):
            kind = draw(st.sampled_from(["tri", "tri", "tri", "base", "mack", "boot"]))
            if kind == "tri":
                case = draw(incr_case(2, hi))
                case["tri_type"] = draw(st.sampled_from(["incr", "cum"]))
            else:
                case = draw(gen.cum_case(4, hi))
                case["tail"] = draw(st.sampled_from([1.0, 1.05, 1.25]))
                case["dist"] = draw(st.sampled_from(["norm", "lognorm"]))
                case["alpha"] = draw(st.sampled_from([0, 1, 2]))
                case["q"] = draw(gen.q_spec(edge=False))
                case["two"] = draw(st.booleans())
                case["seed"] = draw(st.integers(0, 2**32 - 1))
            case["kind"] = kind
            case["repr"] = draw(st.booleans())
            return case
        return s()

    def check(self, case, exp):
        t = trikit()
        o, d, n = case["origins"], case["devs"], case["n"]
        show = repr if case["repr"] else str
        if case["kind"] == "tri":
            nm = case["names"]
            recs = obs.tab_frame(obs.records(case["incr"], o, d), nm)
            tri = t.totri(recs, tri_type=case["tri_type"], origin=nm[0], dev=nm[1], value=nm[2])
            M = obs.cells(tri)
            lines = parse(show(tri))
            same_list(lines[0], [str(x) for x in d], "printed development periods")
            if len(lines) != len(o) + 1:
                violate("text form has {} lines, expected {}", len(lines), len(o) + 1)
            for i in range(len(o)):
                want = [str(o[i])] + ["NaN" if math.isnan(v) else whole(v) for v in M[i]]
                same_list(lines[i + 1], want, "printed row")
            tags = tags_of(case) | {"kind:tri", "type:" + case["tri_type"]}
        else:
            tri = obs.build_cum(case)
            if case["kind"] == "base":
                r = tri.base_cl(tail=case["tail"])
            else:
                C = obs.cells(tri)
                if case["kind"] == "mack":
                    if degenerate_mack(C, case["alpha"]):
                        raise Skip("degenerate variances")
                    r = tri.mack_cl(alpha=case["alpha"], dist=case["dist"], q=gen.q_value(case["q"]),
                                    two_sided=case["two"])
                else:
                    if degenerate_boot(C):
                        raise Skip("degenerate residuals")
                    r = tri.boot_cl(sims=8, q=gen.q_value(case["q"]), two_sided=case["two"],
                                    random_state=case["seed"])
            lines = parse(show(r))
            cols = [plain(c) for c in r.summary.columns]
            same_list(lines[0], [str(c) for c in cols], "printed columns")
            labels = [plain(x) for x in r.summary.index]
            same_list(labels, o + ["total"], "summary labels")
            if len(lines) != n + 2:
                violate("text form has {} lines, expected {}", len(lines), n + 2)
            for i, lab in enumerate(labels):
                want = [str(lab)]
                for c in cols:
                    v = r.summary.iat[i, cols.index(c)]
                    if c == "maturity":
                        if lab != "total":
                            want.append(str(v))
                        elif str(v) != "":
                            want.append(str(v))
                        continue
                    v = float(v)
                    if math.isnan(v):
                        want.append("NaN")
                    elif c in ("cldf", "emergence"):
                        want.append("{:.5f}".format(v))
                    elif c == "cv":
                        want.append("{:.3f}".format(v))
                    else:
                        want.append(whole(v))
                same_list(lines[i + 1], want, "printed line")
            tags = {"kind:" + case["kind"], "n:%d" % n}
        if n < 3:
            tags.add("trivial")
        return tags


def flat_from(C, j):
    """No development at all from period j (0-based, j >= 1) on."""
    return all(C[i][k] == C[i][k - 1] for k in range(j, len(C[0])) for i in range(len(C)) if C[i][k] == C[i][k])


def degenerate_mack(C, alpha, excluded=()):
    """Variances that are zero or numerically unresolvable make Mack's extrapolation 0/0."""
    F = ref.link_ratios(C)
    try:
        m = ref.mack(C, alpha, excluded)
    except ZeroDivisionError:
        return True
    for j in range(len(F[0])):
        seen = ref.ratio_rows(F, j)
        rows = [i for i in seen if (i, j) not in excluded]
        if len(seen) < 2 or flat_from(C, j + 1):
            continue
        size = max(C[i][j] ** alpha * F[i][j] ** 2 for i in rows)
        if not m["s2"][j] > 1e-11 * size:
            return True
    return not all(math.isfinite(x) for x in m["mse"]) or not math.isfinite(m["total_se"])


def degenerate_boot(C, excluded=()):
    """No spread in the residuals, or a fitted increment numerically zero."""
    f, fit, inc, act = ref.boot_fit(C, excluded)
    cells = [(i, j) for i in range(len(C)) for j in range(len(C[0])) if C[i][j] == C[i][j]]
    for i, j in cells:
        if j and flat_from(C, j):
            continue
        if abs(inc[i][j]) < 1e-9 * max(x for x in C[i] if x == x):
            return True
    dist = [(act[i][j] - inc[i][j]) / math.sqrt(abs(inc[i][j])) for i, j in cells if inc[i][j] != 0]
    size = max(math.sqrt(abs(inc[i][j])) for i, j in cells)
    big = [x for x in dist if abs(x) > 1e-7 * size]
    return len(big) < 2
