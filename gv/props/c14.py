"""C14: Hatanaka compression is transparent"""

import hatanaka
from hypothesis import strategies as st

import georinex as gr

from .. import content, opt, strat, view
from ..core import Facet, fail, require
from ..io_ import fast_guaranteed
from ..model import build_obs
from .c13 import pack, same_attrs

SUFFIX = {"plain": ["{n}", "{n}.txt"], "gz": ["{n}.gz", "{n}"], "bz2": ["{n}.bz2", "{n}.x"], "zip": ["{n}.zip", "{n}"], "Z": ["{n}.Z", "{n}"]}
SAME_HEADER = ["position", "position_geodetic", "interval", "t0", "t1", "fields", "rxmodel"]


def _load(rec, o, text, arg, fast, kw):
    ds, e = rec.attempt(gr.load, arg, fast=fast, **kw)
    if e is None:
        return ds
    if fast and o.v == 2 and isinstance(e, IndexError) and not fast_guaranteed(text, o.nl, len(o.t)):
        return rec.call(gr.load, arg, fast=False, **kw)
    fail(f"load({arg}, fast={fast}, {kw}) raised {type(e).__name__}: {e}")


def check(case, rec):
    o = build_obs(case)
    name, cname = ("test0010.19o", "test0010.19d") if o.v == 2 else ("TEST00XXX_R_20190010000_01D_30S_MO.rnx", "TEST00XXX_R_20190010000_01D_30S_MO.crx")
    crx = hatanaka.rnx2crx(o.text)
    d = rec.tmp / "a"
    d.mkdir()
    ref = d / name
    ref.write_text(o.text)
    rec.files[name], rec.files[cname] = o.text, crx
    kw, lim, us, names, use = {}, None, None, None, None
    if case["tlim"]:
        kw["tlim"], lim = opt.pick_tlim(o, case["tlim"])
    if case["interval"]:
        kw["interval"], us = opt.pick_interval(case["interval"])
    if case["meas"]:
        kw["meas"], names = opt.pick_meas(o, case["meas"])
    if case["use"]:
        kw["use"], use = opt.pick_use(o, case["use"])
    if case["useind"]:
        kw["useindicators"] = True
    exp = opt.expect(o, use=use, names=names, lim=lim, interval=us, ind=case["useind"])
    plain = _load(rec, o, o.text, ref, case["fast"], kw)
    view.same(exp, view.cells(plain), f"plain RINEX {kw}")
    t0 = rec.call(gr.gettime, ref)
    h0 = rec.call(gr.rinexheader, ref)
    rec.label(f"v{o.v}", f"options {len(kw)}")
    rec.nontrivial(len(exp) > 3)
    for i, kind in enumerate(case["kinds"]):
        pats = SUFFIX[kind]
        p = rec.tmp / pats[(case["suffix"] + i) % len(pats)].format(n=cname)
        p.write_bytes(pack(kind, crx.encode("ascii"), cname, case["variant"]))
        arg = str(p) if case["asstr"] else p
        what = f"CRINEX in {kind} {kw}"
        rec.label(kind)
        ds = _load(rec, o, hatanaka.crx2rnx(crx), arg, case["fast"], kw)
        view.same(exp, view.cells(ds), what)
        same_attrs(plain.attrs, ds.attrs, what, but=("filename", "fast_processing", "version"))
        require(ds.attrs.get("filename", p.name) == p.name, f"{what}: filename {ds.attrs.get('filename')!r}")
        t = rec.call(gr.gettime, arg)
        require(t.tolist() == t0.tolist(), f"{what}: gettime differs")
        h = rec.call(gr.rinexheader, arg)
        for k in SAME_HEADER:
            require((k in h) == (k in h0) and (k not in h or view.attr_equal(h[k], h0[k]) if k not in ("fields", "t0", "t1") else h.get(k) == h0.get(k)),
                    lambda: f"{what}: header {k}: {h.get(k)!r}, plain {h0.get(k)!r}")
        p.unlink()


def _o(**k):
    d = dict(tlim=st.one_of(st.none(), opt.TLIM), interval=st.one_of(st.none(), st.none(), opt.INTERVAL), meas=st.one_of(st.none(), opt.MEAS),
             use=st.one_of(st.none(), opt.USE), useind=st.booleans(), kinds=st.lists(st.sampled_from(["gz", "bz2", "zip", "Z", "plain"]), min_size=1, max_size=2, unique=True),
             suffix=st.integers(0, 1), variant=st.integers(0, 30), asstr=st.booleans(), fast=st.booleans())
    return {**d, **k}


def obs2():
    return strat.obs2(ver=st.sampled_from(["2.11", "2.10", "2.12", "2.00"]), npool=st.integers(1, 20), ntypes=st.integers(1, 12), ep=strat.epochs(8, st.integers(1, 20)), **_o())


def obs3():
    return strat.obs3(npool=st.integers(1, 12), ntypes=st.lists(st.integers(1, 15), min_size=1, max_size=3), ep=strat.epochs(8, st.integers(1, 12)), **_o())


RULE = "generated RINEX {} OBS file, compressed by hatanaka.rnx2crx and put in 1-2 containers, read with any options; non-trivial: more than 3 values selected"
FACETS = [
    Facet("obs2", obs2, check, 500, 9000, rule=RULE.format(2)),
    Facet("obs3", obs3, check, 400, 7000, rule=RULE.format(3)),
]
