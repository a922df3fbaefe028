"""C01: RINEX 2 observations are returned exact, complete and in place"""

from hypothesis import strategies as st

import georinex as gr

from .. import strat, view
from ..core import Facet, fail
from ..io_ import fast_guaranteed, put
from ..model import build_obs2

NAME = "test0010.19o"


def check(case, rec):
    o = build_obs2(case)
    p = put(rec, o.text, NAME)
    t, svs, types = set(o.t), set(o.svs), o.all_types()
    rec.label(f"sys={case['sys']}", f"nl={min(o.nl, 4)}", "fast" if case["fast"] else "strict")
    nmax = max(len(e) for e in o.epoch_sats)
    if nmax > 12:
        rec.label("satellite list continues")
    if nmax > 24:
        rec.label("satellite list continues twice")
    if any(int(s[1:]) > 36 for s in o.svs):
        rec.label("satellite number > 36")
    rec.nontrivial(len(o.cells) >= 4 and len(svs) >= 2)
    ds = None
    if case["fast"]:
        ds, e = rec.attempt(gr.load, p, fast=True)
        if e is not None:
            if not isinstance(e, IndexError) or fast_guaranteed(o.text, o.nl, len(o.times)):
                fail(f"load(fast=True) raised {type(e).__name__}: {e}")
            rec.label("fast refused")
    if ds is None:
        ds = rec.call(gr.load, p, fast=False)
    view.same(o.cells, view.cells(ds), "RINEX 2 OBS")
    view.names_within(ds, types, "RINEX 2 OBS")
    view.coords_within(ds, t, svs, "RINEX 2 OBS")


def general():
    return strat.obs2(fast=st.booleans(), lay=st.fixed_dictionaries({
        "zero": st.booleans(), "trim": st.sampled_from([0, 1, 2]), "blankdigit": st.sampled_from([False, True, 2]), "trimhdr": st.booleans(), "blanksys": st.sampled_from([False, True, 2])}))


def wide():
    """many satellites and types per epoch, full density"""
    return strat.obs2(fast=st.booleans(), npool=st.sampled_from([12, 13, 24, 25, 36, 37, 48, 49, 60]), wide=st.just(True),
                      ntypes=st.sampled_from([1, 5, 6, 10, 11]), sys=st.sampled_from(["M", "M", "G", " "]),
                      ep=strat.epochs(4, st.sampled_from([11, 12, 13, 24, 25, 36, 37, 48, 60])), dens=st.just(100))


def long():
    """many epochs with few cells"""
    return strat.obs2(fast=st.booleans(), npool=st.integers(4, 14), ntypes=st.integers(1, 6), sys=st.sampled_from(["M", "G"]),
                      ep=strat.epochs(60, st.integers(1, 12), strat.DT_WHOLE, min_epochs=20), dens=st.sampled_from([100, 70]))


def huge():
    """a day's worth of epochs of a few satellites"""
    return strat.obs2(fast=st.booleans(), npool=st.integers(2, 6), ntypes=st.integers(1, 3), sys=st.sampled_from(["M", "G"]),
                      ep=strat.cycled(st.tuples(strat.DT_WHOLE, st.integers(1, 4)).map(list), 300, 2500), dens=st.sampled_from([100, 70]))


FACETS = [
    Facet("general", general, check, 900, 20000,
          rule="generated RINEX 2 OBS file (systems, satellites, types, epochs, blanks, layout), loaded fast or strict; non-trivial: >= 4 values and >= 2 satellites"),
    Facet("wide", wide, check, 160, 4000, rule="as general with 11-60 satellites per epoch and numbers up to 99"),
    Facet("long", long, check, 120, 3000, rule="as general with 20-60 epochs"),
    Facet("huge", huge, check, 48, 500, rule="as general with 300-2500 epochs of 1-4 satellites"),
]
