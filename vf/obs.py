"""Building trikit objects from cases and reading their public state."""
import copy
import math
import os
import numpy as np
import pandas as pd
from core import Violation, violate, plain, same_frame, same_list
import ref

NAN = float("nan")


def trikit():
    import trikit as t
    return t


def tri_frame(rows, origins, devs, index_name=None, col_name=None):
    n = len(origins)
    data = [[rows[i][j] if j < len(rows[i]) and rows[i][j] is not None else NAN for j in range(len(devs))]
            for i in range(n)]
    return pd.DataFrame(data, index=pd.Index(origins, name=index_name),
                        columns=pd.Index(devs, name=col_name), dtype=float)


def tab_frame(records, names=("origin", "dev", "value")):
    return pd.DataFrame({names[0]: [r[0] for r in records], names[1]: [r[1] for r in records],
                         names[2]: [r[2] for r in records]}, columns=list(names))


def records(rows, origins, devs):
    return [(origins[i], devs[j], rows[i][j]) for i in range(len(origins)) for j in range(len(rows[i]))
            if rows[i][j] is not None and not math.isnan(rows[i][j])]


def build_cum(case):
    """Cumulative triangle of a cum_case, checked against the case's own amounts."""
    t = trikit()
    names = case.get("names")
    if names is None:
        tri = t.totri(tri_frame(case["cum"], case["origins"], case["devs"]), tri_type="cum",
                      data_format="cum", data_shape="triangle")
    else:
        df = tab_frame(records(case["cum"], case["origins"], case["devs"]), names)
        tri = t.totri(df, tri_type="cum", data_format="cum", data_shape="tabular",
                      origin=names[0], dev=names[1], value=names[2])
    for e in case.get("excl", ()):
        tri.a2aind = (case["origins"][e[0]], case["devs"][e[1]], 0)
    return tri


def want_cum(case):
    n = case["n"]
    return [list(r) + [NAN] * (n - len(r)) for r in case["cum"]]


def cells(tri):
    """The triangle's cells as plain floats."""
    return [[float(v) for v in row] for row in np.asarray(tri.values, dtype=float)]


def cum_of(case):
    """(triangle, its cells); the cells must be those of the case up to rounding."""
    tri = build_cum(case)
    same_frame(tri, case["origins"], case["devs"], want_cum(case), "cumulative triangle", rtol=1e-9,
               atol=1e-11 * max(max(r) for r in case["cum"]))
    return tri, cells(tri)


# ------------------------------------------------------------ snapshots

def snap(x):
    """Hashable-free deep description of a result or argument, for equality across time."""
    if isinstance(x, pd.DataFrame):
        return ("frame", [snap(v) for v in x.index], [snap(v) for v in x.columns],
                [[snap(v) for v in row] for row in x.values.tolist()])
    if isinstance(x, pd.Series):
        return ("series", [snap(v) for v in x.index], [snap(v) for v in x.values.tolist()])
    if isinstance(x, np.ndarray):
        return ("array", [snap(v) for v in x.ravel().tolist()])
    if isinstance(x, (list, tuple)):
        return ("seq", [snap(v) for v in x])
    if isinstance(x, dict):
        return ("dict", sorted((str(k), snap(v)) for k, v in x.items()))
    if isinstance(x, float):
        return "nan" if math.isnan(x) else x
    if isinstance(x, (str, int, bool)) or x is None:
        return x
    if hasattr(x, "item"):
        return snap(x.item())
    return str(type(x))


def frame_state(df):
    """Everything a caller can see of a data frame."""
    return (snap(pd.DataFrame(df)), [str(d) for d in df.dtypes], df.index.name, df.columns.name)


def unchanged(before, df, what):
    after = frame_state(df)
    if after != before:
        violate("{} was modified: {} -> {}", what, str(before)[:400], str(after)[:400])


def near(a, b, path="", rtol=1e-9, atol=0.0):
    """Structural comparison of snapshots with numeric tolerance; returns None or a message."""
    num = (int, float)
    if isinstance(a, num) and isinstance(b, num) and not isinstance(a, bool) and not isinstance(b, bool):
        if a == b or abs(a - b) <= atol + rtol * max(abs(a), abs(b)):
            return None
        return "{}: {!r} vs {!r}".format(path, a, b)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return "{}: length {} vs {}".format(path, len(a), len(b))
        for k, (x, y) in enumerate(zip(a, b)):
            m = near(x, y, "{}/{}".format(path, k), rtol, atol)
            if m:
                return m
        return None
    return None if a == b else "{}: {!r} vs {!r}".format(path, a, b)


def must_near(a, b, what, rtol=1e-9, atol=0.0):
    m = near(a, b, "", rtol, atol)
    if m:
        violate("{} differ at {}", what, m)


def raises(fn, what, show=lambda r: type(r).__name__):
    """fn must raise; a returned value is a violation."""
    try:
        r = fn()
    except Exception:
        return
    violate("{} was accepted and returned {}", what, show(r))
