"""C10: selecting measurements equals filtering the full result"""

from hypothesis import strategies as st

import georinex as gr

from .. import opt, strat, view
from ..core import Facet
from ..io_ import put
from ..model import build_obs


def check(case, rec):
    o = build_obs(case)
    p = put(rec, o.text, "test0010.19o" if o.v == 2 else "test.rnx")
    meas, names = opt.pick_meas(o, case["meas"])
    exp = opt.expect(o, names=names)
    rec.label(f"v{o.v}", f"form {case['meas'][0]}", "nothing matches" if not names else "all match" if names == o.all_types() else "some match")
    kinds = {k for k, _ in case["meas"][1]}
    if len(case["meas"][1]) > 1 and len(kinds) > 1:
        rec.label("overlapping prefixes")
    rec.nontrivial(0 < len(exp) < len(o.cells))
    ds = rec.call(gr.load, p, meas=meas, fast=False)
    view.same(exp, view.cells(ds), f"meas={meas!r}")
    view.names_within(ds, names, f"meas={meas!r}")


def obs2():
    return strat.obs2(meas=opt.MEAS, npool=st.integers(1, 16), ep=strat.epochs(5, st.integers(1, 16)))


def obs3():
    return strat.obs3(meas=opt.MEAS, npool=st.integers(1, 16), ep=strat.epochs(5, st.integers(1, 16)))


FACETS = [
    Facet("obs2", obs2, check, 1200, 20000,
          rule="generated RINEX 2 OBS file and a list of names, prefixes and unmatched names in any order with repeats; non-trivial: some but not all values selected"),
    Facet("obs3", obs3, check, 1000, 16000, rule="as obs2 for RINEX 3"),
]
