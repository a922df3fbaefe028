"""C12: fast and strict RINEX 2 reading agree"""

from hypothesis import strategies as st

import hatanaka

import georinex as gr

from .. import opt, strat, view
from ..core import Facet, fail
from ..io_ import fast_estimate_holds, put
from ..model import build_obs2
from .c13 import pack


def check(case, rec):
    o = build_obs2(case)
    text = o.text
    kind, name = case["pack"], "test0010.19o"
    if case["crx"] and case["ver"] != "2":
        crx = hatanaka.rnx2crx(text)
        text, name = hatanaka.crx2rnx(crx), "test0010.19d"
        rec.label("CRINEX")
    if kind == "plain" and name.endswith("o"):
        p = put(rec, text, name)
    else:
        p = rec.tmp / (name if kind == "plain" else f"{name}.{kind}")
        p.write_bytes(pack(kind, (crx if name.endswith("d") else text).encode("ascii"), name, case["salt"]))
        rec.files["test0010.19o"] = o.text
    kw, lim, us, names, use = {}, None, None, None, None
    if case["tlim"]:
        kw["tlim"], lim = opt.pick_tlim(o, case["tlim"])
    if case["interval"]:
        kw["interval"], us = opt.pick_interval(case["interval"])
    if case["meas"]:
        kw["meas"], names = opt.pick_meas(o, case["meas"])
    if case["use"]:
        kw["use"], use = opt.pick_use(o, case["use"])
    if case["useind"]:
        kw["useindicators"] = True
    rec.label(f"options {len(kw)}", f"nl={min(o.nl, 4)}")
    strict = view.cells(rec.call(gr.load, p, fast=False, **kw))
    exp = opt.expect(o, use=use, names=names, lim=lim, interval=us, ind=case["useind"])
    view.same(exp, strict, f"strict {kw}")
    big = fast_estimate_holds(text, o.nl, len(o.t))
    rec.label("size allows the estimate" if big else "size below the estimate")
    f, e = rec.attempt(gr.load, p, fast=True, **kw)
    rec.nontrivial(len(o.t) >= 3 and len(exp) > 0)
    if e is not None:
        if not isinstance(e, IndexError):
            fail(f"load(fast=True, {kw}) raised {type(e).__name__}: {e}")
        if big:
            fail(f"load(fast=True, {kw}) raised IndexError although the file holds six satellites per epoch: {e}")
        if "strict" not in str(e) and "fast" not in str(e):
            fail(f"IndexError does not advise strict mode: {e}")
        rec.label("fast refused")
        return
    view.same(strict, view.cells(f), f"fast against strict {kw}")


def _opts(p):
    return dict(tlim=st.one_of(st.none(), opt.TLIM), interval=st.one_of(st.none(), st.none(), opt.INTERVAL), meas=st.one_of(st.none(), st.none(), opt.MEAS),
                use=st.one_of(st.none(), st.none(), opt.USE), useind=st.booleans(),
                pack=st.sampled_from(["plain"] * 5 + ["gz", "bz2", "zip", "Z"]), crx=st.sampled_from([False, False, False, True]))


def general():
    return strat.obs2(npool=st.integers(1, 30), ep=strat.epochs(20, st.integers(1, 30)), **_opts(0))


def long():
    """many epochs around the six-satellite estimate, every line full length"""
    return strat.obs2(npool=st.integers(5, 13), ntypes=st.sampled_from([1, 5, 6, 10, 4]), sys=st.sampled_from(["M", "G"]),
                      ep=strat.epochs(90, st.sampled_from([5, 6, 6, 7, 8, 4]), strat.DT_WHOLE, min_epochs=30), dens=st.sampled_from([100, 95]),
                      lay=st.fixed_dictionaries({"zero": st.booleans(), "trim": st.sampled_from([0, 0, 1, 2])}), **_opts(0))


FACETS = [
    Facet("general", general, check, 900, 15000,
          rule="generated RINEX 2 OBS file and options, plain or compressed (Hatanaka too), read fast and strict and compared with the model; non-trivial: >= 3 epochs and a non-empty result"),
    Facet("long", long, check, 160, 3000, rule="as general with 30-90 epochs of 4-8 satellites, around the documented estimate"),
]
