"""C11: interval decimation keeps the first epoch of every interval slot, intact"""

from datetime import timedelta

from hypothesis import strategies as st

import georinex as gr

from .. import opt, strat, view
from ..core import Facet, fail, require
from ..io_ import fast_guaranteed, put
from ..model import build_obs


def check(case, rec):
    o = build_obs(case)
    p = put(rec, o.text, "test0010.19o" if o.v == 2 else "test.rnx")
    interval, us = opt.pick_interval(case["interval"])
    kw, lim = {}, None
    if case["tlim"]:
        kw["tlim"], lim = opt.pick_tlim(o, case["tlim"])
    ts = [t for t in o.t if lim is None or lim[0] <= t <= lim[1]]
    keep = opt.slot_epochs(ts, us)
    exp = opt.expect(o, lim=lim, interval=us)
    rec.label(f"v{o.v}", "tlim" if lim else "no tlim", f"form {case['interval'][0]}", "keeps all" if len(keep) == len(ts) else "drops some")
    if us and any(b - a > us for a, b in zip(ts, ts[1:])):
        rec.label("gap longer than the interval")
    rec.nontrivial(1 < len(keep) < len(ts))
    for fast in ([True, False] if o.v == 2 else [True]):
        ds, e = rec.attempt(gr.load, p, interval=interval, fast=fast, **kw)
        if e is not None:
            if o.v == 2 and fast and isinstance(e, IndexError) and not fast_guaranteed(o.text, o.nl, len(o.t)):
                rec.label("fast refused")
                continue
            fail(f"load(interval={interval!r}, fast={fast}, {kw}) raised {type(e).__name__}: {e}")
        what = f"interval={interval!r} fast={fast} {kw}"
        view.same(exp, view.cells(ds), what)
        view.coords_within(ds, set(keep), set(o.svs), what)
    neg = [-1, -30, -0.5, -1e-6, timedelta(seconds=-1), timedelta(microseconds=-1), timedelta(days=-2)][case["salt"] % 7]
    _, e = rec.attempt(gr.load, p, interval=neg)
    require(isinstance(e, ValueError), lambda: f"interval={neg!r}: {type(e).__name__} instead of ValueError")


STEP = st.sampled_from([1_000_000, 1_000_000, 1_000_000, 30_000_000, 30_000_000, 500_000, 100_000, 1_500_000, 2_500_000, 60_000_000, 300_000_000, 999_000, 1_001_000])


def obs2():
    return strat.obs2(interval=opt.INTERVAL, tlim=st.one_of(st.none(), st.none(), opt.TLIM), npool=st.integers(1, 14), ntypes=st.integers(1, 11),
                      dens=st.sampled_from([100, 80]), ep=strat.epochs(16, st.integers(1, 14), STEP, min_epochs=2))


def obs3():
    return strat.obs3(interval=opt.INTERVAL, tlim=st.one_of(st.none(), st.none(), opt.TLIM), npool=st.integers(1, 8), ntypes=st.lists(st.integers(1, 14), min_size=1, max_size=3),
                      dens=st.sampled_from([100, 80]), ep=strat.epochs(16, st.integers(1, 8), STEP, min_epochs=2))


def long():
    """a day's worth of epochs"""
    return strat.obs2(interval=opt.INTERVAL, tlim=st.one_of(st.none(), st.none(), opt.TLIM), npool=st.integers(1, 5), ntypes=st.integers(1, 3), dens=st.just(100),
                      ep=strat.cycled(st.tuples(STEP, st.integers(1, 4)).map(list), 100, 1500, 12))


FACETS = [
    Facet("obs2", obs2, check, 900, 15000,
          rule="generated RINEX 2 OBS file with irregular epochs and gaps, interval as float, int or timedelta, with or without limits, fast and strict; non-trivial: decimation keeps more than one and drops some epochs"),
    Facet("obs3", obs3, check, 700, 12000, rule="as obs2 for RINEX 3"),
    Facet("long", long, check, 64, 1000, rule="as obs2 with 100-1500 epochs"),
]
