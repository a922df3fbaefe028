"""C29: selections combine: every option combination equals the combined filter"""

import functools

import xarray
from hypothesis import strategies as st

import georinex as gr

from .. import opt, strat, view
from ..core import Facet, require
from ..io_ import put, stream
from ..model import build_obs


def check(case, rec):
    o = build_obs(case)
    p = put(rec, o.text, "test0010.19o" if o.v == 2 else "test.rnx")
    kw, lim, us, names, use = {}, None, None, None, None
    if case["tlim"]:
        kw["tlim"], lim = opt.pick_tlim(o, case["tlim"])
    if case["interval"]:
        kw["interval"], us = opt.pick_interval(case["interval"])
    if case["meas"]:
        kw["meas"], names = opt.pick_meas(o, case["meas"])
    if case["use"]:
        kw["use"], use = opt.pick_use(o, case["use"])
    if case["useind"]:
        kw["useindicators"] = True
    exp = opt.expect(o, use=use, names=names, lim=lim, interval=us, ind=case["useind"])
    rec.label(f"v{o.v}", f"options {len(kw)}")
    rec.nontrivial(len(kw) >= 2 and 0 < len(exp) < len(o.cells) + len(o.indicator_cells()))
    src = stream(o.text) if case["stream"] else p
    ds = rec.call(gr.load, src, fast=False, **kw)
    view.same(exp, view.cells(ds), f"{kw}")


def check_split(case, rec):
    """adjacent time ranges, and separate systems, add up to the full load"""
    o = build_obs(case)
    p = put(rec, o.text, "test0010.19o" if o.v == 2 else "test.rnx")
    full = view.cells(rec.call(gr.load, p, fast=False))
    view.same(o.cells, full, "full load")
    cut = o.t[case["cut"] % len(o.t)]
    lo, hi = opt.dt_of(o.t[0]), opt.dt_of(o.t[-1])
    parts: dict = {}
    first = rec.call(gr.load, p, tlim=(lo, opt.dt_of(cut)), fast=False)
    parts.update(view.cells(first))
    if cut < o.t[-1]:
        second = rec.call(gr.load, p, tlim=(opt.dt_of(cut + 1), hi), fast=False)
        c2 = view.cells(second)
        require(not set(c2) & set(parts), "adjacent time ranges overlap")
        parts.update(c2)
    view.same(full, parts, "joined time ranges")
    parts = {}
    for s in sorted({x[0] for x in o.svs}):
        c = view.cells(rec.call(gr.load, p, use={s}, fast=False))
        require(not set(c) & set(parts), "systems overlap")
        parts.update(c)
    view.same(full, parts, "joined systems")
    rec.label(f"v{o.v}")
    rec.nontrivial(o.t[0] <= cut < o.t[-1] and len({s[0] for s in o.svs}) > 1)


def _opts():
    return dict(tlim=st.one_of(st.none(), opt.TLIM, opt.TLIM), interval=st.one_of(st.none(), opt.INTERVAL), meas=st.one_of(st.none(), opt.MEAS),
                use=st.one_of(st.none(), opt.USE), useind=st.booleans(), stream=st.booleans())


def obs2():
    return strat.obs2(npool=st.integers(1, 20), ntypes=st.integers(1, 12), sys=st.sampled_from(["M", "M", "G"]), ep=strat.epochs(10, st.integers(1, 20), min_epochs=2), **_opts())


def obs3():
    return strat.obs3(npool=st.integers(1, 14), ntypes=st.lists(st.integers(1, 15), min_size=1, max_size=3), sys=st.sampled_from(["M", "M", "M", "G"]),
                      ep=strat.epochs(10, st.integers(1, 12), min_epochs=2), **_opts())


def split2():
    return strat.obs2(npool=st.integers(2, 14), ntypes=st.integers(1, 8), sys=st.just("M"), cut=st.integers(0, 12), ep=strat.epochs(8, st.integers(1, 14), min_epochs=2))


def split3():
    return strat.obs3(npool=st.integers(2, 10), ntypes=st.lists(st.integers(1, 8), min_size=1, max_size=3), sys=st.just("M"), cut=st.integers(0, 12),
                      ep=strat.epochs(8, st.integers(1, 10), min_epochs=2))


FACETS = [
    Facet("obs2", obs2, check, 800, 15000,
          rule="generated RINEX 2 OBS file (path or stream) with any combination of the five selections; non-trivial: >= 2 options and some but not all values selected"),
    Facet("obs3", obs3, check, 700, 12000, rule="as obs2 for RINEX 3"),
    Facet("split2", split2, check_split, 120, 2500, rule="RINEX 2 file cut in two time ranges and into its systems; non-trivial: both ranges hold epochs and >= 2 systems"),
    Facet("split3", split3, check_split, 150, 2500, rule="as split2 for RINEX 3"),
]
