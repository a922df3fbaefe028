"""C06: repeated navigation records of one satellite are all kept, none mixed"""

from hypothesis import strategies as st

import georinex as gr

from .. import navmodel, strat, view
from ..core import Facet
from ..io_ import put


def check(case, rec):
    o = navmodel.build_nav3(case)
    p = put(rec, o.text, "BRDC00IGS_R_20201360000_01D_MN.rnx")
    exp = o.cells()
    names = {k[1] for k in exp}
    reps = sum("_" in n for n in names)
    rec.label(f"highest suffix {max((int(n.split('_')[1]) for n in names if '_' in n), default=0)}", f"order={case['order']}")
    rec.nontrivial(reps >= 1 and len(o.svs) >= 2)
    ds = rec.call(gr.load, p)
    view.same(exp, navmodel.strip_loose(view.cells(ds), o), "RINEX 3 NAV with repeated records")
    view.coords_within(ds, set(o.times()), names, "RINEX 3 NAV with repeated records")


def strategy():
    return strat.nav3(dups=st.one_of(st.integers(1, 4), st.integers(1, 20)), dupsrc=st.sampled_from([1, 2, 5, 100]),
                      npool=st.integers(1, 8), systems=st.lists(st.sampled_from("GRECJIS"), min_size=1, max_size=3, unique=True))


FACETS = [
    Facet("repeats", strategy, check, 2000, 30000,
          rule="generated RINEX 3 NAV file with 1-20 repeated (satellite, clock epoch) records at random positions, each with its own values; non-trivial: >= 1 repeat and >= 2 satellites"),
]
