"""C32: every public reader gives what the general one gives"""

import numpy as np
import xarray
from hypothesis import strategies as st

import georinex as gr

from .. import content, opt, view
from ..core import Facet, require
from ..io_ import fast_guaranteed, stream
from .c13 import pack

SUFFIX = {"plain": "", "gz": ".gz", "bz2": ".bz2", "zip": ".zip", "Z": ".Z"}


def same(a, b, what, skip=()):
    require(isinstance(b, xarray.Dataset), lambda: f"{what}: result is {type(b).__name__}")
    for kind, x, y in (("coordinates", a.coords, b.coords), ("variables", a.data_vars, b.data_vars)):
        require(list(map(str, x)) == list(map(str, y)) or set(x) == set(y), lambda: f"{what}: {kind} {list(y)} instead of {list(x)}")
        for k in x:
            require(x[k].dims == y[k].dims and x[k].dtype == y[k].dtype and np.array_equal(x[k].values, y[k].values, equal_nan=x[k].dtype.kind == "f"), lambda: f"{what}: {k} differs")
    ka, kb = ({str(k) for k in d.attrs} - set(skip) for d in (a, b))
    require(ka == kb, lambda: f"{what}: attributes {sorted(kb)} instead of {sorted(ka)}")
    for k in ka:
        require(view.attr_equal(a.attrs[k], b.attrs[k]), lambda: f"{what}: attribute {k}: {b.attrs[k]!r} instead of {a.attrs[k]!r}")


def equal(a, b) -> bool:
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and a and isinstance(a[0], str):
        return list(a) == list(b)
    if isinstance(a, slice):
        return a == b
    if isinstance(a, (np.ndarray, list, tuple)):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    return a == b


def options(case, c):
    """-> options of load(), the same for the reader of one version, what is selected"""
    m, kw, low, pick = c.model, {}, {}, {}
    if case["tlim"] and c.fmt != "sp3" and not (c.fmt == "nav2" and case["order"]):
        kw["tlim"], lim = opt.pick_tlim(_T(c.times), case["tlim"])
        low["tlim"] = (opt.dt_of(lim[0]), opt.dt_of(lim[1]))
        pick["lim"] = lim
    if c.fmt.startswith("obs"):
        if case["interval"]:
            kw["interval"], pick["interval"] = opt.pick_interval(case["interval"])
        if case["meas"]:
            kw["meas"], pick["names"] = opt.pick_meas(m, case["meas"])
        if case["use"]:
            kw["use"], pick["use"] = opt.pick_use(m, case["use"])
        if case["ind"]:
            kw["useindicators"] = pick["ind"] = True
        kw["fast"] = c.fmt == "obs2" and case["fast"] and fast_guaranteed(c.text, m.nl, len(m.t))
    elif c.fmt == "nav3" and case["use"]:
        s = sorted({x[0] for x in c.svs})
        form, idx = case["use"]
        sel = list(dict.fromkeys(s[i % len(s)] for i in (idx[:1] if form == "letter" else idx)))
        kw["use"] = sel[0] if form == "letter" else {"list": list, "tuple": tuple, "set": set}[form](sel)
        pick["use"] = set(sel)
    return kw, {**kw, **low}, pick


def expected(c, pick):
    if c.fmt.startswith("obs"):
        return opt.expect(c.model, **pick)
    if c.fmt.startswith("nav"):
        lim, use = pick.get("lim"), pick.get("use")
        return c.model.cells(lambda r: (lim is None or lim[0] <= r["t"] <= lim[1]) and (use is None or r["sv"][0] in use))
    return c.expected


def check(case, rec):
    c = content.build(case)
    kind = case["pack"]
    p = rec.tmp / (c.name + SUFFIX[kind])
    p.write_bytes(pack(kind, c.text.encode("ascii"), c.name, case["variant"]))
    rec.files[p.name] = c.text
    kw, low, pick = options(case, c)
    ds = rec.call(gr.load, p, **kw)
    exp = expected(c, pick)
    what = f"{c.fmt} {kind} {kw}"
    view.same(exp, c.cells(ds), f"load {what}")
    rec.label(c.fmt, kind, f"options {len(kw)}", *(["fast"] if kw.get("fast") else []))
    rec.nontrivial(len(exp) > 3)
    if c.fmt == "sp3":
        same(ds, rec.call(gr.load_sp3, p, None), f"load_sp3 {what}")
        return
    wide, narrow = {"obs2": (gr.rinexobs, gr.rinexobs2), "obs3": (gr.rinexobs, gr.rinexobs3), "nav2": (gr.rinexnav, gr.rinexnav2), "nav3": (gr.rinexnav, gr.rinexnav3)}[c.fmt]
    obs = c.fmt.startswith("obs")
    names = ("use", "tlim", "useindicators", "meas") if obs else ("use", "tlim")
    blank = {"useindicators": False}
    rest = {k: v for k, v in kw.items() if k not in names}
    high, deep = ([d.get(k, blank.get(k)) for k in names] for d in (kw, low))
    text, nofile = c.text, ("filename",)
    ways = [
        (wide, "path", (p,), kw, ()), (wide, "text", (str(p),), kw, ()), (wide, "stream", (stream(text),), kw, nofile),
        (narrow, "path", (p,), low, ()), (narrow, "text", (str(p),), low, nofile), (narrow, "stream", (stream(text),), low, nofile),
        (wide, "path, positional", (p, None, high[0], "OBS" if obs else "NAV", *high[1:]), rest, ()),
        (gr.load, "path, positional", (p, None, *high), rest, ()), (gr.load, "stream, positional", (stream(text), None, *high), rest, nofile),
        (narrow, "path, positional", (p, *(deep if obs or c.fmt == "nav3" else deep[1:])), rest, ()),
    ]
    for k in dict.fromkeys((3, case["pick"] % 10, (case["pick"] // 10) % 10, (case["pick"] // 100) % 10)):
        f, how, args, kws, skip = ways[k]
        if f is gr.rinexobs2 and how == "text" and kws["fast"]:
            how, args = "path", (p,)  # it documents a path or a stream
        same(ds, rec.call(f, *args, **kws), f"{f.__name__}, {how}, {what}", skip)
        rec.label(f"{f.__name__}, {how}")
    # times
    t = rec.call(gr.gettime, p)
    require(len(t) == len(c.times) and all(abs(a - b) < 1000 for a, b in zip(view.times_us(t), c.times)), lambda: f"gettime: {t[:8]}")
    times = {"obs2": gr.obstime2, "obs3": gr.obstime3, "nav2": gr.navtime2, "nav3": gr.navtime3}[c.fmt]
    for src in (p, str(p), stream(c.text)):
        u = rec.call(times, src)
        require(np.array_equal(np.asarray(t, dtype="M8[us]"), np.asarray(u, dtype="M8[us]")), lambda: f"{times.__name__} of a {type(src).__name__}: {u[:8]} instead of {t[:8]}")
    # headers
    h = rec.call(gr.rinexheader, p)
    read = {"obs2": gr.obsheader2, "obs3": gr.obsheader3, "nav2": gr.navheader2, "nav3": gr.navheader3}[c.fmt]
    for src in (p, str(p), stream(c.text)):
        g = rec.call(read, src)
        require(set(map(str, h)) == set(map(str, g)), lambda: f"{read.__name__} of a {type(src).__name__}: {sorted(map(str, set(h) ^ set(g)))}")
        for k in h:
            require(equal(h[k], g[k]), lambda: f"{read.__name__} of a {type(src).__name__}: {k}: {g[k]!r} instead of {h[k]!r}")
    if obs and (pick.get("names") is not None or pick.get("use") is not None):
        names, use = pick.get("names"), pick.get("use")
        meas = [kw["meas"]] if isinstance(kw.get("meas"), str) else kw.get("meas")
        if c.fmt == "obs2":
            g = rec.call(gr.obsheader2, p, False, meas)["fields"]
            want = [x for x in next(iter(c.model.types.values())) if names is None or x in names]
        else:
            g = rec.call(gr.obsheader3, p, use, meas)["fields"]
            g = {k: list(v) for k, v in g.items() if len(v) and k in c.model.types}  # other systems may be declared
            want = {s: [x for x in ty if names is None or x in names] for s, ty in c.model.types.items() if use is None or s in use}
            want = {k: v for k, v in want.items() if v}
        require(g == want, lambda: f"{read.__name__} {kw}: fields {g} instead of {want}")
        rec.label("header selection")


class _T:
    def __init__(self, t):
        self.t = t


KNOBS = dict(pick=st.integers(0, 999), pack=st.sampled_from(["plain", "plain", "plain", "gz", "bz2", "zip", "Z"]), variant=st.integers(0, 9), tlim=st.one_of(st.none(), opt.TLIM),
             interval=st.one_of(st.none(), st.none(), opt.INTERVAL), meas=st.one_of(st.none(), opt.MEAS), use=st.one_of(st.none(), opt.USE), ind=st.booleans(), fast=st.booleans())


def files(*fmts):
    return lambda: content.with_knobs(content.any_of(fmts), **KNOBS)


RULE = "generated small {} file, plain or compressed, with random options, read by every public function that accepts it: path, text, stream, keyword and positional arguments; non-trivial: more than 3 values expected"
FACETS = [
    Facet("obs2", files("obs2"), check, 120, 2500, rule=RULE.format("RINEX 2 OBS")),
    Facet("obs3", files("obs3"), check, 120, 2500, rule=RULE.format("RINEX 3 OBS")),
    Facet("nav", files("nav2", "nav3"), check, 150, 3000, rule=RULE.format("NAV")),
    Facet("select", lambda: content.with_knobs(content.small("nav3", systems=st.lists(st.sampled_from("GRECJIS"), min_size=2, max_size=5, unique=True), npool=st.integers(2, 7)),
                                               **{**KNOBS, "tlim": opt.TLIM, "use": opt.USE, "pack": st.sampled_from(["plain", "plain", "gz"])}), check, 120, 2000,
          rule=RULE.format("RINEX 3 NAV") + ", systems and times being selected"),
    Facet("sp3", files("sp3"), check, 60, 1200, rule=RULE.format("SP3")),
]
