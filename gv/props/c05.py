"""C05: RINEX 3 navigation records are returned exact, complete and in place"""

from hypothesis import strategies as st

import georinex as gr

from .. import navmodel, strat, view
from ..core import Facet
from ..io_ import put


def check(case, rec):
    o = navmodel.build_nav3(case)
    p = put(rec, o.text, "BRDC00IGS_R_20201360000_01D_MN.rnx")
    for r in o.recs:
        rec.label(f"{r['sv'][0]}{r['n']}")
    rec.label("one system" if len({s[0] for s in o.svs}) == 1 else "several systems")
    rec.nontrivial(len(o.recs) >= 2 and len(o.svs) >= 2)
    ds = rec.call(gr.load, p)
    view.same(o.cells(), navmodel.strip_loose(view.cells(ds), o), "RINEX 3 NAV")
    view.coords_within(ds, set(o.times()), set(o.svs), "RINEX 3 NAV")


def laymix():
    """the layout of spares may differ from record to record"""
    return strat.nav3(laymix=st.just(True))


def long():
    """many records"""
    return strat.nav3(npool=st.integers(1, 6), dts=strat.cycled(strat.NAV_STEP, 15, 120), dens=st.sampled_from([100, 50, 20, 8]))


def wide():
    """many satellites"""
    return strat.nav3(systems=st.lists(st.sampled_from("GRECJIS"), min_size=4, max_size=7, unique=True), npool=st.integers(60, 160), wide=st.just(True), dts=st.lists(strat.NAV_DT, min_size=1, max_size=2), dens=st.just(100))


FACETS = [
    Facet("general", strat.nav3, check, 1600, 30000,
          rule="generated RINEX 3 NAV file (any mix of seven systems, spare layouts per satellite or system, blank fields, record order, layout); non-trivial: >= 2 records of >= 2 satellites"),
    Facet("laymix", laymix, check, 500, 8000, rule="as general, spare layout chosen per record"),
    Facet("wide", wide, check, 24, 400, rule="as general with 60-160 satellites of several systems"),
    Facet("long", long, check, 48, 1000, rule="as general with 15-120 clock epochs"),
]
