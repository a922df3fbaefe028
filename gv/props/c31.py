"""C31: plots show exactly the loaded data"""

import io
import math
import random
import re
import runpy
import sys

import numpy as np
import pandas
from hypothesis import strategies as st

import georinex as gr

from .. import content, geod, opt, strat, view
from ..core import Facet, require
from ..io_ import fast_guaranteed, put, stream
from ..model import build_obs, mix
from . import c20


def _mpl():
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt

    plt.close("all")
    return plt


def lines_of(ax):
    return list(ax.get_lines())


def xtimes(ln) -> list[int]:
    """x data of a line as microseconds"""
    x = np.asarray(ln.get_xdata(orig=True))
    return view.times_us(x)


def check_obs(case, rec):
    plt = _mpl()
    import georinex.plots as grp

    o = build_obs(case)
    p = put(rec, o.text, "test0010.19o" if o.v == 2 else "test.rnx")
    src = stream(o.text) if case["stream"] else p
    kw = {"fast": False}
    if case["use"]:
        kw["use"] = opt.pick_use(o, case["use"])[0]
    ds, e = rec.attempt(gr.load, src, **kw)
    if e is not None:  # a system that is not in the file
        require(bool(case["use"]), lambda: f"load: {e}")
        return
    keep = ds.copy(deep=True)
    rec.call(grp.timeseries if case["top"] else grp.obstimeseries, ds)
    require(ds.identical(keep), "the dataset was changed")
    figs = [plt.figure(n) for n in plt.get_fignums()]
    cells = view.cells(ds)
    want = [k for k in ("L1", "L1C") if any(c[2] == k for c in cells)]
    require(len(figs) == len(want), lambda: f"{len(figs)} figures, expected one for each of {want}")
    for fig, k in zip(figs, want):
        axs = fig.axes
        require(len(axs) == 1, f"{k}: {len(axs)} axes")
        ax = axs[0]
        require(ax.get_ylabel() == k, lambda: f"axis labelled {ax.get_ylabel()!r} instead of {k!r}")
        if not case["stream"]:
            require(ax.get_title() == p.name, lambda: f"title {ax.get_title()!r} instead of {p.name!r}")
        leg = ax.get_legend()
        names = [t.get_text() for t in leg.get_texts()]
        lns = lines_of(ax)
        require(len(lns) == len(names), lambda: f"{len(lns)} lines, {len(names)} names in the legend")
        require(len(set(names)) == len(names), lambda: f"legend {names}")
        got = {}
        for ln, s in zip(lns, names):
            y = np.asarray(ln.get_ydata(orig=True), dtype=float)
            for t, v in zip(xtimes(ln), y.tolist()):
                if not math.isnan(v):
                    require((t, s, k) not in got, "a point is drawn twice")
                    got[(t, s, k)] = v
        exp = {c: v for c, v in cells.items() if c[2] == k}
        view.same(exp, got, f"points of the plot of {k}")
    plt.close("all")
    rec.label(f"v{o.v}", f"{len(want)} plots", "stream" if case["stream"] else "file")
    rec.nontrivial(bool(want) and len(cells) > 5)


def degrees_apart(lon1, lon2):
    return abs((lon1 - lon2 + 180) % 360 - 180)


def check_nav(case, rec):
    plt = _mpl()
    import georinex.plots as grp

    text, recs = c20.build(case)
    if not recs:
        return
    # satellites at positions that have a well-defined geodetic latitude
    p = put(rec, text, "t.19n")
    nav = rec.call(gr.load, p)
    keep = nav.copy(deep=True)
    rec.call(grp.timeseries, nav)
    require(nav.identical(keep), "the dataset was changed")
    figs = [plt.figure(n) for n in plt.get_fignums()]
    require(len(figs) == 1 and len(figs[0].axes) == 1, f"{len(figs)} figures")
    lns = {}
    for ln in lines_of(figs[0].axes[0]):
        s = str(ln.get_label())
        require(s not in lns, f"{s} is drawn twice")
        lns[s] = ln
    exp: dict = {}
    for sv, t, v in recs:
        if sv[0] in "GE":
            xyz = c20.reference(v, sv[0], t)
        elif sv[0] in "RS":
            xyz = tuple(v[a] * 1e3 for a in "XYZ")
        else:
            continue
        exp.setdefault(sv, {})[t] = xyz
    require(set(lns) == set(exp), lambda: f"tracks of {sorted(lns)}, expected {sorted(exp)}")
    for sv, ln in lns.items():
        lon = np.asarray(ln.get_xdata(orig=True), dtype=float).ravel()
        lat = np.asarray(ln.get_ydata(orig=True), dtype=float).ravel()
        ok = ~(np.isnan(lon) | np.isnan(lat))
        pts = [geod.geodetic(*exp[sv][t]) for t in sorted(exp[sv])]
        require(int(ok.sum()) == len(pts), lambda: f"{sv}: {int(ok.sum())} points, expected {len(pts)}")
        for a, b, (la, lo, alt), t in zip(lat[ok].tolist(), lon[ok].tolist(), pts, sorted(exp[sv])):
            r = math.dist(exp[sv][t], (0, 0, 0))
            if r < 7e6 or math.hypot(*exp[sv][t][:2]) < 1e5:
                continue
            require(abs(a - la) < 1e-3 and degrees_apart(b, lo) < 1e-3, lambda: f"{sv} at {t}: drawn at latitude {a}, longitude {b}; expected {la}, {lo}")
    plt.close("all")
    rec.label(*{s[0] for s in exp})
    rec.nontrivial(len(exp) > 1)


def check_map(case, rec):
    plt = _mpl()
    import georinex.plots_geo as gg
    from matplotlib.colors import to_rgba

    r = random.Random(case["salt"])
    rows = []
    for i in range(case["n"]):
        iv = r.choice([float("nan"), 0.02, 0.2, 0.5, 30.0, 15.0, 29.999, 14.999, 5.0, 4.999, 1.0, 0.1, 60.0, 10.0, 0.0, 3600.0, round(r.uniform(0.05, 100), 3)])
        rows.append((round(r.uniform(-89, 89), 6), round(r.uniform(-179, 179), 6), iv))
    names = [f"site{i % 7}.19o" for i in range(case["n"])]
    locs = pandas.DataFrame(rows, index=names, columns=["lat", "lon", "interval"], dtype=float)
    keep = locs.copy(deep=True)
    rec.call(gg.receiver_locations, locs)
    require(locs.equals(keep) and list(locs.index) == names, "the table was changed")
    compare_map(plt, names, rows)
    plt.close("all")
    for x in (None, 5, rows, {"lat": 1}):
        rec.call(gg.receiver_locations, x)
        require(not plt.get_fignums(), lambda: f"receiver_locations({x!r}) drew a figure")
    rec.nontrivial(case["n"] > 1)


def compare_map(plt, names, rows):
    figs = [plt.figure(n) for n in plt.get_fignums()]
    require(len(figs) == 1 and len(figs[0].axes) == 1, f"{len(figs)} figures")
    got = []
    for c in figs[0].axes[0].collections:
        if not hasattr(c, "get_offsets") or type(c).__name__ != "PathCollection":
            continue
        off = np.asarray(c.get_offsets(), dtype=float)
        require(off.shape == (1, 2), f"a marker of {off.shape[0]} points")
        got.append((str(c.get_label()), off[0, 1], off[0, 0], float(c.get_sizes()[0])))
    require(len(got) == len(rows), lambda: f"{len(got)} markers for {len(rows)} receivers")
    exp = [(n, *x) for n, x in zip(names, rows)]
    for g, e in zip(sorted(got), sorted(exp, key=lambda x: x[:3])):
        require(g[0] == e[0] and abs(g[1] - e[1]) < 1e-6 and abs(g[2] - e[2]) < 1e-6, lambda: f"marker {g}, expected {e}")
    # the shorter the interval the larger the marker
    sized = sorted((e[3], g[3]) for g, e in zip(sorted(got), sorted(exp, key=lambda x: x[:3])) if e[3] > 0)
    for (i1, s1), (i2, s2) in zip(sized, sized[1:]):
        require(s1 > s2 if i1 < i2 else True, lambda: f"intervals {i1} and {i2} s have markers of size {s1} and {s2}")


def check_other(case, rec):
    """data of other kinds is not drawn, and plotting does not fail"""
    plt = _mpl()
    import georinex.plots as grp

    c = content.build(case)
    p = put(rec, c.text, c.name)
    if c.fmt == "sp3":
        rec.call(grp.timeseries, rec.call(gr.load, p))
        require(not plt.get_fignums(), "a figure was drawn")
        rec.nontrivial()
    for x in (None, "text", {"nav": 1}, [1]):
        rec.call(grp.timeseries, x)
        rec.call(grp.obstimeseries, x)
        require(not plt.get_fignums(), lambda: f"timeseries({x!r}) drew a figure")
    rec.label(c.fmt)


def check_cli(case, rec):
    """the -p option of georinex.read, and georinex.loc"""
    plt = _mpl()
    d = rec.tmp / "in"
    d.mkdir()
    rows, names = [], []
    for i, fc in enumerate(case["files"]):
        o = build_obs(fc)
        n = f"s{i}.19o" if o.v == 2 else f"S{i}_MO.rnx"
        (d / n).write_text(o.text)
        rec.files[n] = o.text
        if any(o.hdr.get("pos", [])):
            rows.append((*geod.geodetic(*o.hdr["pos"])[:2], float("nan") if o.hdr.get("int") is None else float(f"{o.hdr['int']:10.3f}")))
            names.append(n)
    (d / "junk.19o").write_text("nothing\n")
    save = sys.argv
    try:
        sys.argv = ["georinex.loc", str(d), "-glob", "*o", "*O.rnx"]
        rec.call(runpy.run_module, "georinex.loc", run_name="__main__", alter_sys=True)
        compare_map(plt, names, rows)
        plt.close("all")
        o = build_obs(case["files"][0])
        n = "s0.19o" if o.v == 2 else "S0_MO.rnx"
        sys.argv = ["georinex.read", str(d / n), "-p", "-strict"]
        rec.call(runpy.run_module, "georinex.read", run_name="__main__", alter_sys=True)
        want = [k for k in ("L1", "L1C") if any(c[2] == k for c in o.cells)]
        require(len(plt.get_fignums()) == len(want), f"georinex.read -p drew {len(plt.get_fignums())} figures, expected {want}")
        for i, k in zip(plt.get_fignums(), want):
            got = points(plt.figure(i).axes[0], f"georinex.read -p: {k}")
            view.same({c[:2]: v for c, v in o.cells.items() if c[2] == k}, got, f"georinex.read -p: {k}")
    finally:
        sys.argv = save
        plt.close("all")
    rec.nontrivial(len(rows) > 0)


def points(ax, what) -> dict:
    """(time, satellite) -> value of the lines of an axis, by the names of its legend"""
    leg = ax.get_legend()
    names = [t.get_text() for t in leg.get_texts()] if leg is not None else []
    lns = [ln for ln in lines_of(ax) if len(np.ravel(ln.get_ydata(orig=True)))]
    require(len(lns) == len(names), lambda: f"{what}: {len(lns)} lines, legend {names}")
    got: dict = {}
    for ln, s in zip(lns, names):
        for t, v in zip(xtimes(ln), np.ravel(np.asarray(ln.get_ydata(orig=True), dtype=float)).tolist()):
            if not math.isnan(v):
                require((t, s) not in got, f"{what}: a point is drawn twice")
                got[(t, s)] = v
    return got


def check_plot(case, rec):
    """georinex.plot FILE SATELLITE... [-w TYPE...] [-t START STOP]"""
    plt = _mpl()
    o = build_obs(case)
    p = put(rec, o.text, "test0010.19o" if o.v == 2 else "test.rnx")
    cells = opt.expect(o, use={"G"})
    svs = sorted({c[1] for c in cells})
    if not svs:
        return
    r = random.Random(case["pick"])
    sel = r.sample(svs, min(len(svs), r.choice([1, 1, 2, 3])))
    types = [*sorted({c[2] for c in cells}), *sorted({c[2] for c in cells}), *dict.fromkeys([*o.all_types(), "X9Z", "L1", "L1C", "P1"])]
    what = [r.choice(types) for _ in range(r.choice([1, 2, 3, 4, 5]))] if r.random() < 0.85 else None
    flat = [str(p), *sel]
    if what is not None:
        flat += [r.choice(["-w", "--what"]), *what]
    lim = None
    if case["tlim"]:
        lim = opt.pick_tlim(o, case["tlim"])[1]
        flat += [r.choice(["-t", "--tlim"]), *(opt.dt_of(x).isoformat() for x in lim)]
    save = sys.argv
    try:
        sys.argv = ["georinex.plot", *flat]
        _, e = rec.attempt(runpy.run_module, "georinex.plot", run_name="__main__", alter_sys=True)
        cmd = f"georinex.plot {' '.join(flat[1:])}"
        if isinstance(e, IndexError) and o.v == 2 and not fast_guaranteed(o.text, o.nl, len(o.t)):
            rec.label("too small for fast reading")
            return
        require(e is None, lambda: f"{cmd}: {type(e).__name__}: {e}")
        figs = [plt.figure(n) for n in plt.get_fignums()]
        require(len(figs) == 1, lambda: f"{cmd}: {len(figs)} figures")
        axs = figs[0].axes
        n = 0
        for i, k in enumerate((what or ["L1C", "P1"])[:4]):
            exp = {c[:2]: v for c, v in cells.items() if c[2] == k and c[1] in sel and (lim is None or lim[0] <= c[0] <= lim[1])}
            require(len(axs) > i, lambda: f"{cmd}: {len(axs)} axes")
            view.same(exp, points(axs[i], f"{cmd}: {k}"), f"{cmd}: {k}")
            if exp:
                require(k in axs[i].get_title(), lambda: f"{cmd}: {k} has the title {axs[i].get_title()!r}")
                n += 1
        for ax in axs[len(what or ["L1C", "P1"]):]:
            require(not points(ax, cmd), lambda: f"{cmd}: more than was asked for is drawn")
        rec.label(f"{len(sel)} satellites", f"{n} plots", "limits" if lim else "no limits")
        rec.nontrivial(n > 0)
    finally:
        sys.argv = save
        plt.close("all")


def obs2():
    return strat.obs2(npool=st.integers(1, 10), ntypes=st.integers(3, 12), ep=strat.epochs(6, st.integers(1, 10)), use=st.one_of(st.none(), st.none(), opt.USE), stream=st.booleans(), top=st.booleans())


def obs3():
    return strat.obs3(npool=st.integers(1, 10), ntypes=st.lists(st.integers(4, 14), min_size=1, max_size=3), ep=strat.epochs(6, st.integers(1, 10)),
                      use=st.one_of(st.none(), st.none(), opt.USE), stream=st.booleans(), top=st.booleans())


WITH_G = st.sampled_from([["G"], ["G", "R"], ["R", "G", "E"], ["S", "G"]])


def small2():
    return strat.obs2(npool=st.integers(1, 10), ntypes=st.integers(1, 9), ep=strat.epochs(6, st.integers(1, 10)), sysset=WITH_G, tlim=st.one_of(st.none(), opt.TLIM), pick=st.integers(0, 1 << 30))


def small3():
    return strat.obs3(npool=st.integers(1, 10), ntypes=st.lists(st.integers(1, 9), min_size=1, max_size=3), ep=strat.epochs(6, st.integers(1, 10)), sysset=WITH_G, tlim=st.one_of(st.none(), opt.TLIM), pick=st.integers(0, 1 << 30))


FACETS = [
    Facet("obs", lambda: st.one_of(obs2(), obs3()), check_obs, 700, 9000, rule="generated RINEX 2/3 OBS file, every point drawn against the loaded data; non-trivial: has L1 or L1C data"),
    Facet("nav", c20.cases, check_nav, 160, 3000, rule="generated NAV file of GPS, Galileo, GLONASS and SBAS, every point of the tracks against an independent position; non-trivial: >= 2 satellites"),
    Facet("plot", lambda: st.one_of(small2(), small3()), check_plot, 240, 3000, rule="georinex.plot on generated OBS files with satellites, types and time limits, every point against the model; non-trivial: >= 1 type with data drawn"),
    Facet("map", lambda: st.fixed_dictionaries({"salt": st.integers(0, 1 << 40), "n": st.integers(0, 12)}), check_map, 160, 3000, rule="tables of receivers with any interval; non-trivial: >= 2 receivers"),
    Facet("other", lambda: content.any_of(("sp3", "sp3", "nav3")), check_other, 60, 600, rule="SP3 data and things that are no dataset; non-trivial: SP3 data"),
    Facet("cli", lambda: st.fixed_dictionaries({"files": st.lists(st.one_of(obs2(), obs3()), min_size=1, max_size=3)}), check_cli, 60, 1000, rule="georinex.loc and georinex.read -p on generated files; non-trivial: >= 1 receiver position"),
]
