"""C19: dataset attributes describe the file that was read"""

import gzip
import statistics

import numpy as np
from hypothesis import strategies as st

import georinex as gr

from .. import content, geod, navmodel, opt, strat, view
from ..core import Facet, require
from ..io_ import put, stream
from .c18 import TYPES, edit

SYSTEM_TIME = {"G": "GPS", "R": "GLO", "E": "GAL", "J": "QZS", "C": "BDT", "I": "IRN", "S": "GPS"}


def eq(ds, key, want, what):
    """want None: the attribute must be absent (or NaN)"""
    got = ds.attrs.get(key)
    if want is None:
        absent = got is None or (np.ndim(got) == 0 and not isinstance(got, str) and got != got)
        require(absent, lambda: f"{what}: attribute {key} is {got!r}, the file does not state it")
    else:
        require(got is not None, f"{what}: attribute {key} is missing, not {want!r}")
        require(view.attr_equal(got, want), lambda: f"{what}: attribute {key} is {got!r} instead of {want!r}")


def check_obs(case, rec):
    c = content.build(case)
    text, recs = edit(c, case)
    m = c.model
    first: dict[str, str] = {}
    for cont, label in recs:
        first.setdefault(label, cont)
    name = ["{}", "{}.gz", "A1B2.{}"][case["name"]].format(c.name)
    p = rec.tmp / name
    data = text.encode("ascii")
    p.write_bytes(gzip.compress(data, mtime=0) if name.endswith(".gz") else data)
    rec.files[c.name] = text
    kw, lim, us, use = {}, None, None, None
    if case["tlim"]:
        kw["tlim"], lim = opt.pick_tlim(m, case["tlim"])
    if case["interval"]:
        kw["interval"], us = opt.pick_interval(case["interval"])
    if case["use"]:
        kw["use"], use = opt.pick_use(m, case["use"])
    if case["ind"]:
        kw["useindicators"] = True
    src = stream(text) if case["stream"] else str(p) if case["asstr"] else p
    ds = rec.call(gr.load, src, fast=False, **kw)
    exp = opt.expect(m, use=use, lim=lim, interval=us, ind=case["ind"])
    what = f"{c.fmt} {kw}"
    view.same(exp, view.cells(ds), what)
    rec.label(c.fmt, f"{m.systems}", f"options {len(kw)}")

    def stated(label):
        return bool(first.get(label, "").strip())

    pos = [float(x) for x in first["APPROX POSITION XYZ"].split()] if stated("APPROX POSITION XYZ") else None
    if m.systems == "M":
        ts = m.hdr["ts"]
    else:
        ts = SYSTEM_TIME[m.systems]
    if stated("INTERVAL"):
        iv = float(first["INTERVAL"][:10])
    else:
        t = view.times_us(ds["time"].values) if "time" in ds.coords else []
        iv = statistics.median(b - a for a, b in zip(t, t[1:])) / 1e6 if len(t) > 1 else None
    want = {"version": m.hdr["version"], "rinextype": "obs", "filename": None if case["stream"] else name, "time_system": ts, "interval": iv, "position": pos,
            "rxmodel": (first.get("REC # / TYPE / VERS", "")[20:40].strip() or None) if m.v == 2 else None}
    offs = [(t, x) for t, x in m.hdr.get("offsets", [])]
    if m.v == 3:
        ts_in = [t for t in m.t if lim is None or lim[0] <= t <= lim[1]]
        keep = set(opt.slot_epochs(ts_in, us))
        offs = [(t, x) for t, x in offs if t in keep]
        rc = first.get("RCV CLOCK OFFS APPL", "").strip()
        want["receiver_clock_offset_applied"] = int(rc) if rc else None
    allowed = set(want) | {"position_geodetic", "fast_processing", "time_offset"}
    require(set(map(str, ds.attrs)) <= allowed, lambda: f"{what}: unexpected attributes {sorted(set(map(str, ds.attrs)) - allowed)}")
    for k, w in want.items():
        if not exp and k not in ds.attrs:
            continue  # nothing was read
        if k == "interval" and w is not None and k in ds.attrs:
            require(abs(float(ds.attrs[k]) - w) < 1e-6, lambda: f"{what}: interval {ds.attrs[k]!r} instead of {w!r}")
        else:
            eq(ds, k, w, what)
    if pos and any(pos) and exp:
        require("position_geodetic" in ds.attrs and geod.agree(ds.attrs["position_geodetic"], pos), lambda: f"{what}: position_geodetic {ds.attrs.get('position_geodetic')!r} of {pos}")
    elif not pos:
        require("position_geodetic" not in ds.attrs, f"{what}: position_geodetic without position")
    got = ds.attrs.get("time_offset")
    if m.v == 2 or not offs:
        require(got is None, lambda: f"{what}: time_offset {got!r}")
    elif got is None:
        require(not exp, f"{what}: time_offset is missing")
    else:
        tr = set(view.times_us(ds["time"].values))
        few = [x for t, x in offs if t in tr]
        require(list(got) in ([x for _, x in offs], few), lambda: f"{what}: time_offset {list(got)!r} instead of {[x for _, x in offs]!r}")
        rec.label("clock offsets")
    rec.nontrivial(len(exp) > 3 and len(ds.attrs) > 5)


def check_nav(case, rec):
    c = content.build(case)
    text, recs = edit(c, case)
    m = c.model
    everything: dict[str, list[str]] = {}
    for cont, label in recs:
        everything.setdefault(label, []).append(cont)
    name = ["{}", "{}.gz", "A1B2.{}"][case["name"]].format(c.name)
    p = rec.tmp / name
    data = text.encode("ascii")
    p.write_bytes(gzip.compress(data, mtime=0) if name.endswith(".gz") else data)
    rec.files[c.name] = text
    kw, keep = {}, lambda r: True
    if case["use"] and m.v == 3:
        letters = sorted({r["sv"][0] for r in m.recs})
        sel = {letters[i % len(letters)] for i in case["use"][1]}
        kw["use"] = sel
        keep = lambda r: r["sv"][0] in sel  # noqa: E731
    src = stream(text) if case["stream"] else str(p) if case["asstr"] else p
    ds = rec.call(gr.load, src, **kw)
    what = f"{c.fmt} {kw}"
    view.same(m.cells(keep), c.cells(ds), what)
    rec.label(c.fmt)
    eq(ds, "version", m.hdr["version"], what)
    eq(ds, "rinextype", "nav", what)
    eq(ds, "filename", None if case["stream"] else name, what)
    want = sorted({r["sv"][0] for r in m.recs if keep(r)})
    got = ds.attrs.get("svtype")
    require(got is not None and sorted(set(list(got))) == want, lambda: f"{what}: svtype {got!r} instead of {want}")
    ion: dict = {}
    if m.v == 2:
        if "ion" in m.hdr and all(everything.get(k, [""])[-1].strip() for k in ("ION ALPHA", "ION BETA")):
            ion["ionospheric_corr_GPS"] = m.hdr["ion"]
    else:
        have = {k[:4].strip(): m.hdr["ion"][k[:4].strip()] for k in everything.get("IONOSPHERIC CORR", []) if k.strip()}
        for a, s in (("GPSA", "GPS"), ("QZSA", "QZS"), ("BDSA", "BDS"), ("IRNA", "IRN")):
            b = a[:3] + "B"
            if a in have and b in have:
                ion[f"ionospheric_corr_{s}"] = have[a] + have[b]
        if "GAL" in have:
            ion["ionospheric_corr_GAL"] = have["GAL"]
    for s in ("GPS", "GAL", "QZS", "BDS", "IRN"):
        k = f"ionospheric_corr_{s}"
        eq(ds, k, ion.get(k), what)
    allowed = {"version", "rinextype", "filename", "svtype"} | set(ion)
    require(set(map(str, ds.attrs)) <= allowed, lambda: f"{what}: unexpected attributes {sorted(set(map(str, ds.attrs)) - allowed)}")
    rec.nontrivial(bool(ion))


def check_sp3(case, rec):
    o = navmodel.build_sp3(case)
    p = put(rec, o.text, "igs19362.sp3")
    ds = rec.call(gr.load, str(p) if case["salt"] & 1 else p)
    for k in ("coord_sys", "orbit_type", "agency", "Nepoch"):
        got, want = ds.attrs.get(k), o.hdr[k]
        require(got == want if not isinstance(want, str) else isinstance(got, str) and got.strip() == want.strip(), lambda: f"SP3: attribute {k} is {got!r} instead of {want!r}")
    require(len(ds.attrs) == 4, lambda: f"SP3: attributes {dict(ds.attrs)}")
    rec.label(f"sp3-{case['kind']}", "Nepoch of the header" if case["nep"] else "Nepoch of the data")
    rec.nontrivial(len(o.times) > 1)


KNOBS = dict(blank=st.sampled_from([0, 0, 30, 70]), dup=st.sampled_from([0, 0, 1, 2]), extra=st.lists(st.integers(0, 8), max_size=2), name=st.integers(0, 2), stream=st.booleans(), asstr=st.booleans(),
             use=st.one_of(st.none(), st.none(), opt.USE))


def obs():
    hdr = st.fixed_dictionaries({"pos": st.sampled_from([1, 1, 1, 0, 2]), "int": st.booleans(), "rx": st.booleans(), "t1": st.booleans(), "t0": st.booleans(), "order": st.booleans(),
                                 "ncomm": st.sampled_from([0, 1]), "rcvclk": st.sampled_from([None, 0, 1])})
    return content.with_knobs(content.any_of(("obs2", "obs3"), hdr=hdr, clk=st.booleans(), sys=st.sampled_from(["M", "M", "G", "R", "E", "S", "C", "J"])), ind=st.booleans(),
                              tlim=st.one_of(st.none(), st.none(), opt.TLIM), interval=st.one_of(st.none(), st.none(), opt.INTERVAL), **KNOBS)


def nav():
    return content.with_knobs(content.any_of(("nav2", "nav3")), **KNOBS)


RULE = "generated {} file with header records blanked, repeated, added and permuted, read with options from file or stream; every attribute compared with the header; non-trivial: {}"
FACETS = [
    Facet("obs", obs, check_obs, 900, 15000, rule=RULE.format("OBS 2/3", "more than 3 values and 5 attributes")),
    Facet("nav", nav, check_nav, 500, 8000, rule=RULE.format("NAV 2/3", "ionospheric coefficients stated")),
    Facet("sp3", strat.sp3, check_sp3, 300, 5000, rule="generated SP3 file: number of epochs, coordinate system, orbit type and agency of the header; non-trivial: >= 2 epochs"),
]
