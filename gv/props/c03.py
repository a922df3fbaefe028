"""C03: loss-of-lock and signal-strength indicators stay with their observation"""

from hypothesis import strategies as st

import georinex as gr

from .. import opt, strat, view
from ..core import Facet, require
from ..io_ import put
from ..model import build_obs


def check(case, rec):
    o = build_obs(case)
    p = put(rec, o.text, "test0010.19o" if o.v == 2 else "test.rnx")
    meas, names = opt.pick_meas(o, case["meas"]) if case["meas"] else (None, None)
    kw = {"fast": False}
    if meas is not None:
        kw["meas"] = meas
    base = opt.expect(o, names=names)
    full = opt.expect(o, names=names, ind=True)
    n_ind = len(full) - len(base)
    rec.label(f"v{o.v}", "meas" if meas is not None else "no meas", "indicators" if n_ind else "no indicators")
    rec.nontrivial(n_ind >= 3 and len(o.svs) >= 2)
    allowed = set(names if names is not None else o.all_types())
    ds = rec.call(gr.load, p, useindicators=True, **kw)
    view.same(full, view.cells(ds), "with indicators")
    view.names_within(ds, allowed | {n + "lli" for n in allowed} | {n + "ssi" for n in allowed}, "with indicators")
    ds0 = rec.call(gr.load, p, **kw)
    view.same(base, view.cells(ds0), "without indicators")
    view.names_within(ds0, allowed, "without indicators")


MEAS = st.one_of(st.none(), opt.MEAS)


def obs2():
    return strat.obs2(ind=st.sampled_from([30, 80, 100]), stray=st.sampled_from([0, 0, 20]), meas=MEAS, npool=st.integers(1, 20),
                      ep=strat.epochs(6, st.integers(1, 20)))


def obs3():
    return strat.obs3(ind=st.sampled_from([30, 80, 100]), stray=st.sampled_from([0, 0, 20]), meas=MEAS, npool=st.integers(1, 20),
                      ep=strat.epochs(6, st.integers(1, 20)))


FACETS = [
    Facet("obs2", obs2, check, 900, 15000,
          rule="generated RINEX 2 OBS file with indicator digits, loaded with and without indicators, with and without a measurement selection; non-trivial: >= 3 indicator values and >= 2 satellites"),
    Facet("obs3", obs3, check, 800, 12000, rule="as obs2 for RINEX 3"),
]
