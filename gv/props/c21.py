"""C21: receiver locations are collected correctly for any list of files"""

import math
import statistics

import hatanaka
from hypothesis import strategies as st

import georinex as gr
import georinex.geo as gg

from .. import content, geod, view
from ..core import Facet, require
from ..model import mix
from .c13 import pack

JUNK = [b"", b"\n\n\n", b"hello, this is no RINEX file\n", bytes(range(1, 200)), b"     9.11           OBSERVATION DATA    M (MIXED)           RINEX VERSION / TYPE\n",
        b"     3.04           METEOROLOGICAL DATA                     RINEX VERSION / TYPE\n", b"{\"a\": 1}\n", b"0" * 300]
SUF = {"plain": "", "gz": ".gz", "bz2": ".bz2", "zip": ".zip", "Z": ".Z"}


def one(rec, i, f):
    """write one file of the list -> (path, row or None)"""
    d = rec.tmp / f"d{f['dir'] % 3}"
    d.mkdir(exist_ok=True)
    if "junk" in f["c"]:
        p = d / [f"junk{i}.19o", f"README{i}", f"junk{i}", f".hidden{i}", f"junk{i}.txt.gz.bak"][f["variant"] % 5]
        p.write_bytes(JUNK[f["c"]["junk"] % len(JUNK)])
        rec.label("junk")
        return p, None
    c = content.build(f["c"])
    form, kind = f["form"], f["kind"]
    obs = c.fmt.startswith("obs")
    text, ext = c.text, {"obs2": "19o", "obs3": "rnx", "nav2": "19n", "nav3": "rnx", "sp3": "sp3"}[c.fmt]
    if form == "crx" and obs and f["c"]["ver"] != "2":
        text, ext = hatanaka.rnx2crx(text), {"obs2": "19d", "obs3": "crx"}[c.fmt]
        rec.label("crinex")
    name = f"site{f['name'] % 3}.{ext}{SUF[kind]}"
    p = d / name
    if p.exists():
        name = f"{i}{name}"
        p = d / name
    p.write_bytes(pack(kind, text.encode("ascii"), "site." + ext, f["variant"]))
    if len(rec.files) < 8:
        rec.files[f"{d.name}/{name}"] = text
    row = None
    if obs and any(c.model.hdr.get("pos", [])):
        row = [p.name, *geod.geodetic(*c.model.hdr["pos"])[:2], c.model.hdr.get("int")]
    if form == "nc" and c.fmt != "sp3":
        # both kinds in one file now and then
        nc = d / f"{f['name'] % 3 if f['c']['salt'] % 2 else i}x{f['dir']}.nc"
        if nc.exists():
            nc = d / f"{i}y.nc"
        ds = rec.call(gr.load, p, nc, **({"fast": False} if obs else {}))
        p = nc
        rec.label(f"nc {c.fmt[:3]}")
        if row:
            ts = view.times_us(ds["time"].values) if "time" in ds.coords else []
            iv = row[3]
            if iv is None and len(ts) > 1:
                iv = statistics.median(b - a for a, b in zip(ts, ts[1:])) / 1e6
            row = [p.name, row[1], row[2], iv] if c.expected or "position" in ds.attrs else None
    rec.label(c.fmt, "position" if row else "no position")
    return p, row


def check(case, rec):
    paths, rows = [], []
    for i, f in enumerate(case["files"]):
        p, row = one(rec, i, f)
        paths.append(p)
        if row:
            rows.append(row)
    arg = {"list": list, "tuple": tuple}[case["as"]](paths)
    if len(paths) == 1 and case["single"]:
        arg = paths[0]
    before = {p: p.read_bytes() for p in paths}
    locs = rec.call(gg.get_locations, arg)
    rec.nontrivial(len(rows) > 1)
    for col in ("lat", "lon", "interval"):
        require(col in locs.columns, f"column {col} is missing")
    got = [(str(n), float(r["lat"]), float(r["lon"]), float(r["interval"])) for n, r in locs.iterrows()]
    require(sorted(g[0] for g in got) == sorted(r[0] for r in rows), lambda: f"rows {sorted(g[0] for g in got)} instead of {sorted(r[0] for r in rows)}")
    left = list(got)
    for n, lat, lon, iv in rows:
        hit = next((g for g in left if g[0] == n and abs(g[1] - lat) < 1e-6 and abs((g[2] - lon + 180) % 360 - 180) < 1e-6
                    and (math.isnan(g[3]) if iv is None else abs(g[3] - iv) < 1e-6)), None)
        require(hit is not None, lambda: f"no row {n} at {lat:.7f} {lon:.7f} interval {iv}; rows of that name: {[g for g in left if g[0] == n]}")
        left.remove(hit)
    require(all(p.read_bytes() == b for p, b in before.items()), "a file was changed")
    # each file alone gives the same row
    k = mix(len(paths), case["pick"]) % len(paths) if paths else None
    if k is not None:
        alone = rec.call(gg.get_locations, paths[k])
        want = [g for g in got if g[0] == paths[k].name]
        require(len(alone) <= 1, "a single file gives several rows")
        if sum(p.name == paths[k].name for p in paths) == 1:
            a = [(str(n), float(r["lat"]), float(r["lon"]), float(r["interval"])) for n, r in alone.iterrows()]
            require(repr(a) == repr(want), lambda: f"{paths[k].name} alone: {a}, in the list: {want}")


def files():
    hdr = st.fixed_dictionaries({"pos": st.sampled_from([1, 1, 1, 1, 0, 2]), "int": st.booleans(), "rx": st.booleans(), "t1": st.booleans(), "order": st.booleans(), "ncomm": st.sampled_from([0, 0, 2])})
    obs = [content.small("obs2", hdr=hdr), content.small("obs3", hdr=hdr)]
    any_ = st.one_of(*obs, *obs, *obs, content.any_of(("nav2", "nav3", "sp3")), st.builds(lambda k: {"junk": k}, st.integers(0, 20)))
    f = st.fixed_dictionaries({"c": any_, "form": st.sampled_from(["plain", "plain", "crx", "nc"]), "kind": st.sampled_from(["plain", "plain", "gz", "bz2", "zip", "Z"]),
                               "dir": st.integers(0, 2), "name": st.integers(0, 2), "variant": st.integers(0, 9)})
    return st.fixed_dictionaries({"files": st.lists(f, max_size=7), "as": st.sampled_from(["list", "list", "tuple"]), "single": st.booleans(), "pick": st.integers(0, 100)})


FACETS = [Facet("lists", files, check, 1600, 25000,
                rule="lists of 0-7 generated files (OBS 2/3 plain, CRINEX, in any container, converted to NetCDF; NAV, SP3, foreign files) in three directories, some of the same name; "
                     "positions compared with an iterative ECEF-to-geodetic conversion; non-trivial: two or more rows")]
