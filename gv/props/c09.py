"""C09: selecting satellite systems equals filtering the full result"""

from hypothesis import strategies as st

import georinex as gr

from .. import navmodel, opt, strat, view
from ..core import Facet, fail, require
from ..io_ import put
from ..model import build_obs

ALL = "GRECJIS"


def _selection(present: list[str], spec):
    """spec [form, [indices into present + absent systems]]"""
    form, idx, absent = spec
    letters = sorted(present) + ([x for x in ALL if x not in present] if absent else [])
    sel = []
    for i in idx:
        s = letters[i % len(letters)]
        if s not in sel:
            sel.append(s)
    if form == "letter":
        sel = sel[:1]
        return sel[0], set(sel)
    if form == "repeat":
        return sel + sel[:1], set(sel)
    return {"list": list, "tuple": tuple, "set": set}[form](sel), set(sel)


def check_obs(case, rec):
    o = build_obs(case)
    p = put(rec, o.text, "test0010.19o" if o.v == 2 else "test.rnx")
    present = {s[0] for s in o.svs}
    declared = present if o.v == 2 else set(o.hdr["declared"])
    use, sel = _selection(sorted(declared), case["use"])
    rec.label(f"v{o.v}", case["use"][0])
    exp = opt.expect(o, use=sel)
    rec.nontrivial(0 < len(exp) < len(o.cells))
    ds, e = rec.attempt(gr.load, p, use=use, fast=False)
    if e is not None:
        require(isinstance(e, KeyError) and not (sel & declared), lambda: f"load(use={use!r}) raised {type(e).__name__}: {e}")
        rec.label("KeyError")
        return
    view.same(exp, view.cells(ds), f"use={use!r}")
    view.coords_within(ds, set(o.t), {s for s in o.svs if s[0] in sel}, f"use={use!r}")


def check_nav(case, rec):
    o = navmodel.build_nav3(case)
    p = put(rec, o.text, "test_MN.rnx")
    present = {s[0] for s in o.svs}
    use, sel = _selection(sorted(present), case["use"])
    rec.label("nav3", case["use"][0])
    exp = o.cells(lambda r: r["sv"][0] in sel)
    rec.nontrivial(0 < len(exp) < len(o.cells()))
    ds, e = rec.attempt(gr.load, p, use=use)
    if e is not None:
        require(isinstance(e, KeyError) and not (sel & present), lambda: f"load(use={use!r}) raised {type(e).__name__}: {e}")
        return
    view.same(exp, navmodel.strip_loose(view.cells(ds), o), f"use={use!r}")
    view.coords_within(ds, set(o.times()), {k[1] for k in exp}, f"use={use!r}")


USE = st.tuples(st.sampled_from(["letter", "list", "tuple", "set", "repeat"]), st.lists(st.integers(0, 12), min_size=1, max_size=4), st.booleans()).map(list)


def obs2():
    return strat.obs2(use=USE, npool=st.integers(1, 30), ntypes=st.integers(1, 14), sys=st.sampled_from(["M", "M", "M", "G", " "]),
                      sysset=st.sampled_from([["G", "R"], ["G", "R", "E", "S", "C", "J"], ["E", "G"], ["R", "S"]]), ep=strat.epochs(6, st.integers(1, 30)))


def many():
    """tens of satellites of several systems"""
    systems = dict(use=st.tuples(st.sampled_from(["list", "tuple", "set", "repeat", "letter"]), st.lists(st.integers(0, 12), min_size=1, max_size=9), st.booleans()).map(list), npool=st.integers(25, 60), sys=st.just("M"), ep=strat.epochs(4, st.integers(20, 60)))
    return st.one_of(strat.obs2(ntypes=st.integers(1, 6), sysset=st.sampled_from([["G", "R"], ["G", "R", "E", "S"], ["S", "G", "R", "E", "C", "J"], ["R", "S"]]), **systems),
                     strat.obs3(ntypes=st.lists(st.integers(1, 6), min_size=1, max_size=4), sysset=st.lists(st.sampled_from(ALL), min_size=2, max_size=7, unique=True), **systems))


def obs3():
    return strat.obs3(use=USE, npool=st.integers(1, 20), sys=st.sampled_from(["M", "M", "M", "G"]),
                      sysset=st.lists(st.sampled_from(ALL), min_size=2, max_size=7, unique=True), ep=strat.epochs(6, st.integers(1, 20)))


def nav3():
    return strat.nav3(use=USE, systems=st.lists(st.sampled_from(ALL), min_size=1, max_size=5, unique=True), dups=st.sampled_from([0, 0, 2]))


FACETS = [
    Facet("obs2", obs2, check_obs, 900, 15000,
          rule="generated RINEX 2 OBS file and a selection of systems as letter, list, tuple, set or with repeats, present or not; non-trivial: some but not all values selected"),
    Facet("obs3", obs3, check_obs, 700, 12000, rule="as obs2 for RINEX 3"),
    Facet("nav3", nav3, check_nav, 600, 10000, rule="as obs2 for RINEX 3 NAV"),
    Facet("many", many, check_obs, 200, 3500, rule="as obs2 for RINEX 2 and 3 OBS files of 25 to 60 satellites"),
]
