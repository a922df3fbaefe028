"""C08: time limits select exactly the epochs within the closed range"""

from datetime import timedelta

from hypothesis import strategies as st

import georinex as gr

from .. import navmodel, opt, strat, view
from ..core import Facet, Violation, fail, require
from ..io_ import fast_guaranteed, put
from ..model import build_obs


def _labels(rec, ts, lim):
    inside = [t for t in ts if lim[0] <= t <= lim[1]]
    rec.label("all inside" if len(inside) == len(ts) else "none inside" if not inside else "some inside")
    if lim[0] in ts or lim[1] in ts:
        rec.label("limit equals an epoch")
    return inside


def check_obs(case, rec):
    o = build_obs(case)
    p = put(rec, o.text, "test0010.19o" if o.v == 2 else "test.rnx")
    tlim, lim = opt.pick_tlim(o, case["tlim"])
    inside = _labels(rec, o.t, lim)
    rec.label(f"v{o.v}", f"form {case['tlim'][0]}")
    rec.nontrivial(0 < len(inside) < len(o.t) and len(o.cells) > 3)
    exp = opt.expect(o, lim=lim)
    fast = bool(case.get("fast")) and o.v == 2
    ds, e = rec.attempt(gr.load, p, tlim=tlim, fast=fast)
    if e is not None:
        if not (fast and isinstance(e, IndexError) and not fast_guaranteed(o.text, o.nl, len(o.t))):
            fail(f"load(tlim={tlim}, fast={fast}) raised {type(e).__name__}: {e}")
        ds = rec.call(gr.load, p, tlim=tlim, fast=False)
    view.same(exp, view.cells(ds), f"tlim={tlim}")
    view.coords_within(ds, set(inside), set(o.svs), f"tlim={tlim}")
    lo, hi = lim
    if hi > lo:
        _, e = rec.attempt(gr.load, p, tlim=(opt.dt_of(hi), opt.dt_of(lo)))
        require(isinstance(e, ValueError), lambda: f"stop before start: {type(e).__name__} instead of ValueError")


class _T:
    def __init__(self, t):
        self.t = t


def check_nav(case, rec):
    o = navmodel.build_nav(case)
    p = put(rec, o.text, "test0010.19n" if o.v == 2 else "test_MN.rnx")
    tlim, lim = opt.pick_tlim(_T(o.times()), case["tlim"])
    inside = _labels(rec, o.times(), lim)
    rec.label(f"v{o.v}", f"form {case['tlim'][0]}", f"order={case['order']}")
    rec.nontrivial(0 < len(inside) < len(o.times()))
    exp = o.cells(lambda r: lim[0] <= r["t"] <= lim[1])
    ds = rec.call(gr.load, p, tlim=tlim)
    got = navmodel.strip_loose(view.cells(ds), o)
    try:
        view.same(exp, got, f"tlim={tlim}")
    except Violation as e:
        if o.v == 3:
            raise
        # finding: RINEX 2 NAV reading stops at the first record after the stop time
        late = next((i for i, r in enumerate(o.recs) if r["t"] > lim[1]), len(o.recs))
        lost = {k: v for k, v in o.cells(lambda r: lim[0] <= r["t"] <= lim[1] and o.recs.index(r) < late).items()}
        if late == len(o.recs) or lost != got:
            raise
        rec.known("nav2-unordered-stop", str(e))
    view.coords_within(ds, set(inside), set(o.svs) | {k[1] for k in exp}, f"tlim={tlim}")


def obs2():
    return strat.obs2(tlim=opt.TLIM, fast=st.booleans(), npool=st.integers(1, 16), ntypes=st.integers(1, 12),
                      ep=strat.epochs(14, st.integers(1, 14), min_epochs=2))


def obs3():
    return strat.obs3(tlim=opt.TLIM, npool=st.integers(1, 12), ntypes=st.lists(st.integers(1, 15), min_size=1, max_size=3),
                      ep=strat.epochs(12, st.integers(1, 10), min_epochs=2))


def nav2():
    return strat.nav2(tlim=opt.TLIM, npool=st.integers(1, 8), dts=st.lists(strat.NAV_DT, min_size=2, max_size=8))


def nav3():
    return strat.nav3(tlim=opt.TLIM, npool=st.integers(1, 8), dts=st.lists(strat.NAV_DT, min_size=2, max_size=8), dups=st.sampled_from([0, 0, 3]))


def long():
    """a day's worth of epochs"""
    return strat.obs2(tlim=opt.TLIM, fast=st.booleans(), npool=st.integers(1, 6), ntypes=st.integers(1, 3), ep=strat.cycled(st.tuples(strat.DT_WHOLE, st.integers(1, 4)).map(list), 100, 1500))


def longnav():
    return strat.nav2(tlim=opt.TLIM, npool=st.integers(1, 6), dts=strat.cycled(strat.NAV_STEP, 15, 120))


FACETS = [
    Facet("obs2", obs2, check_obs, 900, 15000,
          rule="generated RINEX 2 OBS file and limits on, beside, before and after its epochs (datetime or ISO text, fast or strict); non-trivial: some but not all epochs inside"),
    Facet("obs3", obs3, check_obs, 800, 12000, rule="as obs2 for RINEX 3"),
    Facet("nav2", nav2, check_nav, 700, 12000, rule="as obs2 for RINEX 2 NAV, records in any order"),
    Facet("nav3", nav3, check_nav, 500, 8000, rule="as nav2 for RINEX 3 NAV, repeated records included"),
    Facet("long", long, check_obs, 64, 1000, rule="as obs2 with 100-1500 epochs"),
    Facet("longnav", longnav, check_nav, 64, 1000, rule="as nav2 with 15-120 clock epochs"),
]
