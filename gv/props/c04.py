"""C04: RINEX 2 navigation records are returned exact, complete and in place"""

from collections import Counter

from hypothesis import strategies as st

import georinex as gr

from .. import navmodel, strat, view
from ..core import Facet, require
from ..io_ import put


def check(case, rec):
    o = navmodel.build_nav2(case)
    p = put(rec, o.text, "brdc0010.19n")
    exp = o.cells()
    rec.label(f"kind={case['kind']}", f"order={case['order']}")
    if any(len(r["values"]) < {"N": 29, "G": 15, "E": 27}[case["kind"]] for r in o.recs):
        rec.label("omitted trailing field")
    rec.nontrivial(len(o.recs) >= 2 and len(o.svs) >= 2)
    ds = rec.call(gr.load, p)
    view.same(exp, navmodel.strip_loose(view.cells(ds), o), "RINEX 2 NAV")
    view.coords_within(ds, set(o.times()), set(o.svs), "RINEX 2 NAV")


def check_repeats(case, rec):
    """a repeated record may cost its own satellite the data, but no other satellite anything"""
    o = navmodel.build_nav2(case)
    p = put(rec, o.text, "brdc0010.19n")
    count = Counter((r["sv"], r["t"]) for r in o.recs)
    rep = {sv for (sv, _), n in count.items() if n > 1}
    exp = navmodel.strip_loose(o.cells(lambda r: r["sv"] not in rep), o)
    may: dict = {}
    for r in o.recs:
        for k, v in r["values"].items():
            may.setdefault((r["t"], r["sv"], k), []).append(v)
    rec.label("every satellite repeated" if not exp else "some satellites repeated")
    rec.nontrivial(bool(rep) and bool(exp))
    got = navmodel.strip_loose(view.cells(rec.call(gr.load, p)), o)
    view.same(exp, {k: v for k, v in got.items() if k[1] not in rep}, "satellites without repeated records")
    for k, v in got.items():
        if k[1] in rep:
            require(v in may.get(k, []), lambda: f"{k} is {v!r}, which no record of the satellite at this epoch holds: {may.get(k)}")


def long():
    """many records"""
    return strat.nav2(npool=st.integers(1, 8), dts=strat.cycled(strat.NAV_STEP, 15, 150), dens=st.sampled_from([100, 50, 20, 8]))


FACETS = [
    Facet("general", strat.nav2, check, 2400, 40000,
          rule="generated RINEX 2 NAV file (GPS, GLONASS, Galileo; record order, omitted trailing fields, layout); non-trivial: >= 2 records of >= 2 satellites"),
    Facet("long", long, check, 60, 1200, rule="as general with 15-150 clock epochs"),
    Facet("repeats", lambda: strat.nav2(dups2=st.integers(1, 4), dupsrc=st.sampled_from([1, 3, 100]), npool=st.integers(2, 6)), check_repeats, 700, 10000,
          rule="generated RINEX 2 NAV file with 1-4 repeated (satellite, clock epoch) records at random positions; non-trivial: repeats, and satellites without"),
]
