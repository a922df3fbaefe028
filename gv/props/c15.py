"""C15: NetCDF conversion round-trips"""

import gzip
from datetime import datetime, timedelta

import numpy as np
import xarray
from hypothesis import strategies as st

import georinex as gr

from .. import content, opt, view
from ..core import Facet, require


def read_back(rec, fn, ds):
    """load a dataset into memory and release its file"""
    with rec.call(fn, ds) as d:
        return d.load()


def same_dataset(a, b, what: str, attrs: bool = True) -> None:
    """a: as returned, b: as read from NetCDF"""
    require(isinstance(b, xarray.Dataset), f"{what}: {type(b).__name__} instead of a Dataset")
    na, nb = {str(x) for x in a.variables}, {str(x) for x in b.variables}
    require(na == nb, lambda: f"{what}: variables differ: {sorted(na ^ nb)}")
    require({str(x) for x in a.coords} == {str(x) for x in b.coords}, f"{what}: coordinates differ")
    for n in a.variables:
        x, y = a[n], b[n]
        require(tuple(x.dims) == tuple(y.dims), lambda: f"{what}: {n} has dimensions {x.dims} and {y.dims}")
        p, q = np.asarray(x.values), np.asarray(y.values)
        require(p.shape == q.shape, lambda: f"{what}: {n} has shape {p.shape} and {q.shape}")
        if p.dtype.kind == "M":
            ok = q.dtype.kind == "M" and p.astype("datetime64[ns]").tolist() == q.astype("datetime64[ns]").tolist()
        elif p.dtype.kind in "OUS":
            ok = [str(v) for v in p.ravel().tolist()] == [str(v) for v in q.ravel().tolist()]
        else:
            ok = bool(np.array_equal(p.astype(float), q.astype(float), equal_nan=True))
        require(ok, lambda: f"{what}: {n} differs: {p.ravel()[:6]} and {q.ravel()[:6]}")
    if attrs:
        ka, kb = set(map(str, a.attrs)), set(map(str, b.attrs))
        require(ka == kb, lambda: f"{what}: attributes differ: {sorted(ka ^ kb)}")
        for k in ka:
            require(view.attr_equal(a.attrs[k], b.attrs[k]), lambda: f"{what}: attribute {k}: {a.attrs[k]!r} and {b.attrs[k]!r}")


def check(case, rec):
    c = content.build(case)
    data = c.text.encode("ascii")
    name = c.name
    if case["gz"]:
        name, data = name + ".gz", gzip.compress(data, mtime=0)
    src = rec.tmp / "in"
    src.mkdir()
    p = src / name
    p.write_bytes(data)
    rec.files[c.name] = c.text
    kw = {}
    if c.fmt.startswith("obs"):
        kw["fast"] = False
        if case["tlim"]:
            kw["tlim"] = opt.pick_tlim(c.model, case["tlim"])[0]
        if case["meas"]:
            kw["meas"] = opt.pick_meas(c.model, case["meas"])[0]
        if case["interval"]:
            kw["interval"] = opt.pick_interval(case["interval"])[0]
        if case["ind"]:
            kw["useindicators"] = True
    plain = rec.call(gr.load, p, **kw)
    d = rec.tmp / "out"
    d.mkdir()
    if case["todir"]:
        out, nc = d, d / (name + ".nc")
    else:
        out = nc = d / "result.nc"
    data_before = p.read_bytes()
    ret = rec.call(gr.load, str(p) if case["asstr"] else p, str(out) if case["asstr"] else out, overwrite=case["over"], **kw)
    what = f"{c.fmt} {kw}"
    require(sorted(x.name for x in d.iterdir()) == [nc.name], lambda: f"{what}: wrote {sorted(x.name for x in d.iterdir())}, expected {nc.name}")
    require(sorted(x.name for x in src.iterdir()) == [name] and p.read_bytes() == data_before, "the input or its directory was changed")
    view.same(c.cells(plain), c.cells(ret), f"{what}: returned by the conversion")
    if not kw.get("tlim") and not kw.get("meas") and not kw.get("interval") and not kw.get("useindicators"):
        view.same(c.expected, c.cells(ret), what)
    require({str(k) for k in plain.attrs} == {str(k) for k in ret.attrs} and all(view.attr_equal(plain.attrs[k], ret.attrs[k]) for k in plain.attrs),
            f"{what}: attributes of the conversion differ from the load")
    rec.label(c.fmt, "directory" if case["todir"] else "file")
    rec.nontrivial(len(c.cells(ret)) > 3)
    if c.fmt == "sp3":
        back = read_back(rec, xarray.open_dataset, nc)
        same_dataset(ret, back, f"{what}: NetCDF")
        return
    back = read_back(rec, gr.load, nc)
    same_dataset(ret, back, f"{what}: loaded NetCDF")
    fn = gr.rinexobs if c.fmt.startswith("obs") else gr.rinexnav
    back = read_back(rec, fn, str(nc))
    same_dataset(ret, back, f"{what}: {fn.__name__} of the NetCDF")
    other = gr.rinexnav if c.fmt.startswith("obs") else gr.rinexobs
    _, e = rec.attempt(other, nc)
    require(isinstance(e, LookupError), lambda: f"{what}: {other.__name__} of a file without that group: {type(e).__name__} instead of LookupError")
    info = rec.call(gr.rinexinfo, nc)
    require(list(info["rinextype"]) == [c.fmt[:3]] or info["rinextype"] == c.fmt[:3], lambda: f"{what}: rinexinfo says {info['rinextype']!r}")
    for k in ret.attrs:
        if k != "rinextype":
            require(k in info and view.attr_equal(info[k], ret.attrs[k]), lambda: f"{what}: rinexinfo {k}: {info.get(k)!r}")


def check_both(case, rec):
    """observations and navigation data of the same days, converted into one file"""
    want = {}
    nc = rec.tmp / "both.nc"
    for k, fc in enumerate(case["files"] if case["salt"] % 2 else case["files"][::-1]):
        t = datetime(*case["t0"][:6]) + timedelta(seconds=case["shift"] if content.fmt_of(fc).startswith("nav") and case["t0"][0] > 1980 else 0)
        c = content.build({**fc, "t0": [t.year, t.month, t.day, t.hour, t.minute, t.second, 0]})
        d = rec.tmp / str(k)
        d.mkdir()
        p = d / c.name
        p.write_text(c.text)
        rec.files[c.name] = c.text
        want[c.fmt[:3]] = rec.call(gr.load, p, nc, **({"fast": False} if c.fmt.startswith("obs") else {}))
        view.same(c.expected, c.cells(want[c.fmt[:3]]), f"{c.fmt}")
        rec.label(c.fmt)
    for _ in range(case["salt"] % 4):
        both = rec.call(gr.load, nc)
    both = rec.call(gr.load, nc)
    require(isinstance(both, dict) and set(both) == {"obs", "nav"}, lambda: f"load of a file of both kinds gives {type(both).__name__} {list(both) if isinstance(both, dict) else ''}")
    for k, fn in (("obs", gr.rinexobs), ("nav", gr.rinexnav)):
        with both[k] as ds:
            same_dataset(want[k], ds.load(), f"{k} of the file of both kinds")
        same_dataset(want[k], read_back(rec, fn, nc), f"{fn.__name__} of the file of both kinds")
    info = rec.call(gr.rinexinfo, nc)
    require(set(info["rinextype"]) == {"obs", "nav"}, lambda: f"rinexinfo of the file of both kinds: {info['rinextype']!r}")
    t = [view.times_us(want[k]["time"].values) for k in ("obs", "nav")]
    rec.nontrivial(all(t) and t[0][0] <= t[1][-1] and t[1][0] <= t[0][-1])


KNOBS = dict(gz=st.booleans(), todir=st.booleans(), asstr=st.booleans(), over=st.booleans(),
             tlim=st.one_of(st.none(), st.none(), opt.TLIM), meas=st.one_of(st.none(), st.none(), opt.MEAS), interval=st.one_of(st.none(), st.none(), opt.INTERVAL), ind=st.booleans())


def files(*fmts):
    return lambda: content.with_knobs(content.any_of(fmts), **KNOBS)


RULE = "generated small {} file (plain or gzip), converted to a directory or a named file{}; non-trivial: more than 3 values"
FACETS = [
    Facet("obs", files("obs2", "obs3"), check, 450, 7000, rule=RULE.format("OBS", " with options")),
    Facet("nav", files("nav2", "nav3"), check, 300, 5000, rule=RULE.format("NAV", "")),
    Facet("both", lambda: st.fixed_dictionaries({"files": st.tuples(content.any_of(("obs2", "obs3")), content.any_of(("nav2", "nav3"))).map(list), "t0": content.strat.t0s(False), "shift": st.sampled_from([0, 0, -7200, -30, 1, 5, 30, 60, 90]), "salt": content.strat.SALT}),
          check_both, 150, 2500, rule="a generated OBS and a generated NAV file of the same days, converted into one NetCDF file in either order; non-trivial: their times overlap"),
    Facet("sp3", files("sp3"), check, 150, 2500, rule=RULE.format("SP3", "")),
]
