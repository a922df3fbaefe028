"""C02: RINEX 3 observations are returned exact, complete and in place"""

from hypothesis import strategies as st

import georinex as gr

from .. import strat, view
from ..core import Facet
from ..io_ import put
from ..model import build_obs3

NAME = "ABMF00GLP_R_20181330000_01D_30S_MO.rnx"


def check(case, rec):
    o = build_obs3(case)
    p = put(rec, o.text, NAME)
    nmax = max(len(e) for e in o.epoch_sats)
    fmax = max(len(v) for v in o.types.values())
    rec.label(f"sys={case['sys']}", f"codes {'1-13' if fmax < 14 else '14-26' if fmax < 27 else '27+'}")
    if nmax > 99:
        rec.label("> 99 satellites")
    if len(o.types) > 1:
        rec.label("several systems")
    if any(not any((t, s, k) in o.cells for k in o.types[s[0]]) for t, e in zip(o.t, o.epoch_sats) for s in e):
        rec.label("satellite without a value")
    rec.nontrivial(len(o.cells) >= 4 and len(o.svs) >= 2)
    ds = rec.call(gr.load, p)
    view.same(o.cells, view.cells(ds), "RINEX 3 OBS")
    view.names_within(ds, o.all_types(), "RINEX 3 OBS")
    view.coords_within(ds, set(o.t), set(o.svs), "RINEX 3 OBS")


def general():
    return strat.obs3(lay=st.fixed_dictionaries({
        "zero": st.booleans(), "trim": st.sampled_from([0, 1, 2]), "blankdigit": st.sampled_from([False, True, 2]), "trimhdr": st.booleans(), "long": st.booleans()}))


def mixed():
    """every epoch mixes systems whose code lists share names at different positions"""
    return strat.obs3(sys=st.just("M"), sysset=st.sampled_from([["G", "R", "E", "C", "J", "I", "S"], ["E", "G", "R"], ["G", "E"]]),
                      share=st.just(True), npool=st.integers(4, 30), ep=strat.epochs(10, st.integers(2, 30), min_epochs=2),
                      ntypes=st.lists(strat.NTYPES3, min_size=2, max_size=4))


def wide():
    """up to 120 satellites in an epoch"""
    return strat.obs3(sys=st.just("M"), sysset=st.just(["G", "R", "E", "C", "J", "I", "S"]), npool=st.sampled_from([98, 99, 100, 101, 120]),
                      wide=st.just(True), ntypes=st.lists(st.integers(1, 4), min_size=1, max_size=2),
                      ep=strat.epochs(3, st.sampled_from([60, 99, 100, 101, 120])))


def long():
    """many epochs, few satellites and codes"""
    return strat.obs3(npool=st.integers(3, 14), ntypes=st.lists(st.integers(1, 5), min_size=1, max_size=4), unused=st.just(0),
                      ep=strat.cycled(st.tuples(strat.DT_WHOLE, st.integers(1, 12)).map(list), 20, 60), dens=st.sampled_from([100, 60, 10]))


def huge():
    """some hundred epochs of a few satellites"""
    return strat.obs3(npool=st.integers(2, 4), ntypes=st.lists(st.integers(1, 2), min_size=1, max_size=2), unused=st.just(0),
                      ep=strat.cycled(st.tuples(strat.DT_WHOLE, st.integers(1, 3)).map(list), 150, 400), dens=st.just(100))


FACETS = [
    Facet("general", general, check, 1600, 30000,
          rule="generated RINEX 3 OBS file (systems, codes per system, satellites, epochs, blanks, layout); non-trivial: >= 4 values and >= 2 satellites"),
    Facet("mixed", mixed, check, 400, 8000, rule="as general, several systems sharing codes in every epoch"),
    Facet("wide", wide, check, 80, 1500, rule="as general with 60-120 satellites per epoch"),
    Facet("long", long, check, 48, 1000, rule="as general with 20-60 epochs"),
    Facet("huge", huge, check, 24, 200, rule="as general with 150-400 epochs of 1-3 satellites"),
]
