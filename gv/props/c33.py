"""C33: the parts of a file, read separately, join to the whole"""

import xarray
from hypothesis import strategies as st

import georinex as gr

from .. import content, strat, view
from ..core import Facet, require
from ..io_ import put, stream
from ..model import mix


def spans(c) -> list[tuple[int, int]]:
    """the epochs (OBS, SP3) or records (NAV) of the file"""
    if c.fmt.startswith("obs"):
        return list(c.model.epoch_span)
    if c.fmt.startswith("nav"):
        return [r["span"] for r in c.model.recs]
    at = [k + 1 for k in range(len(c.text)) if c.text.startswith("\n*", k)]
    end = c.text.rfind("\nEOF") + 1 or len(c.text)
    return list(zip(at, at[1:] + [end]))


def split(c, case) -> list[list[int]]:
    """indices of the epochs or records of every part"""
    sp = spans(c)
    n = len(sp)
    k = min(2 + case["parts"], n)
    how = case["how"] if c.fmt != "sp3" else 0
    if how == 0:  # one after the other
        cuts = sorted({1 + mix(case["salt"], j, 77) % max(1, n - 1) for j in range(k - 1)})
        edge = [0, *cuts, n]
        parts = [list(range(a, b)) for a, b in zip(edge, edge[1:])]
    else:  # dealt out
        parts = [[i for i in range(n) if mix(case["salt"], i, 78) % k == j] for j in range(k)]
    return [x for x in parts if x]


def check(case, rec):
    c = content.build(case)
    sp = spans(c)
    parts = split(c, case)
    head = c.text[: sp[0][0]]
    tail = c.text[sp[-1][1]:]
    whole = rec.call(gr.load, put(rec, c.text, c.name), **({"fast": False} if c.fmt.startswith("obs") else {}))
    full = c.cells(whole)
    view.same(c.expected, full, "whole file")
    joined: dict = {}
    got = []
    for j, idx in enumerate(parts):
        text = head + "".join(c.text[a:b] for a, b in (sp[i] for i in idx)) + tail
        p = put(rec, text, f"{j}{c.name}")
        ds = rec.call(gr.load, stream(text) if case["stream"] and c.fmt != "sp3" else p, **({"fast": False} if c.fmt.startswith("obs") else {}))
        cells = c.cells(ds)
        require(not set(cells) & set(joined), lambda: f"part {j}: {sorted(set(cells) & set(joined))[:3]} are in an earlier part")
        joined.update(cells)
        got.append(ds)
        if c.fmt != "sp3":
            t = view.times_us(rec.call(gr.gettime, p))
            want = sorted({c.model.recs[i]["t"] for i in idx}) if c.fmt.startswith("nav") else [c.model.t[i] for i in idx]
            require(len(t) == len(want) and all(abs(a - b) < 1000 for a, b in zip(t, want)), lambda: f"gettime of part {j}: {t[:8]} instead of {want[:8]}")
    view.same(full, joined, f"{len(parts)} parts")
    rec.label(c.fmt, f"{len(parts)} parts", "dealt out" if case["how"] and c.fmt != "sp3" else "in order")
    rec.nontrivial(len(parts) > 1 and len(full) > 3)
    # the documented ways to join them
    if len(parts) > 1 and all(len(d.data_vars) for d in got):
        for d in got:
            d.attrs = {}
        if c.fmt == "sp3":
            got = [d.drop_vars("t0") for d in got]
        m = rec.call(xarray.merge, got, join="outer", compat="no_conflicts")
        view.same(full, c.cells(m), "xarray.merge of the parts")
        ts = [view.times_us(d["time"].values) for d in got]
        if all(ts) and all(a[-1] < b[0] for a, b in zip(ts, ts[1:])):
            m = rec.call(xarray.concat, got, dim="time", join="outer", data_vars="all")
            view.same(full, c.cells(m), "xarray.concat of the parts")
            rec.label("concat")


LONG = {
    "obs2": dict(ep=strat.epochs(8, st.integers(1, 14), min_epochs=2)),
    "obs3": dict(ep=strat.epochs(8, st.integers(1, 10), min_epochs=2)),
    "nav2": dict(npool=st.integers(1, 8), dts=st.lists(strat.NAV_DT, min_size=2, max_size=5)),
    "nav3": dict(npool=st.integers(1, 8), dts=st.lists(strat.NAV_DT, min_size=2, max_size=4)),
    "sp3": {},
}


def files(*fmts):
    return lambda: content.with_knobs(st.one_of([content.small(f, **LONG[f]) for f in fmts]), parts=st.integers(0, 2), how=st.sampled_from([0, 0, 1]), stream=st.booleans())


RULE = "generated small {} file, cut between its {} into 2-4 files with the same header; non-trivial: at least 2 parts and more than 3 values"
FACETS = [
    Facet("obs2", files("obs2"), check, 200, 3500, rule=RULE.format("RINEX 2 OBS", "epochs")),
    Facet("obs3", files("obs3"), check, 200, 3500, rule=RULE.format("RINEX 3 OBS", "epochs")),
    Facet("nav", files("nav2", "nav3"), check, 250, 4000, rule=RULE.format("NAV", "records")),
    Facet("sp3", files("sp3"), check, 100, 1500, rule=RULE.format("SP3", "epochs")),
]
