"""C25: batch conversion converts every readable file and only those"""

import contextlib
import fnmatch
import io
import os
import random

import xarray
from hypothesis import strategies as st

import georinex as gr

from .. import content, opt
from ..core import Facet, require
from ..io_ import put  # noqa: F401
from ..model import mix
from .c13 import pack
from .c15 import same_dataset

GOOD = ["obs2", "obs3", "nav2", "nav3", "sp3"]
# stems shared by several names: an output is named after the whole input name
NAMES = {
    "obs2": ["site0010.19o", "b.19o", "c d.19O", "site0010.obs", "a.b.19o", "noext", "site0010.19o.txt"],
    "obs3": ["SITE00XXX_R_20190010000_01D_30S_MO.rnx", "b.rnx", "site0010.rnx", "site0010.19o", "noext3"],
    "nav2": ["site0010.19n", "b.19n", "site0010.19g", "site0010.nav"],
    "nav3": ["SITE00XXX_R_20190010000_01D_MN.rnx", "b.nav.rnx", "site0010.19p"],
    "sp3": ["igs20345.sp3", "b.sp3", "site0010.sp3"],
}
BAD = {
    "junk.19o": b"this is not a RINEX file\n1 2 3\n", "empty.19o": b"", "blank.rnx": b"\n" * 40, "binary.19n": bytes(range(256)) * 4, "x.rnx.gz": b"\x1f\x8b\x08\x00broken", "cut.19o.gz": b"",
    "notes.txt": b"observations of site0010.19o\n", "README": b"3.04 is the version\n", "v4.rnx": f"{'4.00':>9s}{'':11s}{'OBSERVATION DATA':20s}{'M':20s}RINEX VERSION / TYPE\n".encode(),
    "met.19m": f"{'2.11':>9s}{'':11s}{'METEOROLOGICAL DATA':40s}RINEX VERSION / TYPE\n".encode(), "z.zip": b"PK\x03\x04broken", "y.Z": b"\x1f\x9dbroken", "w.bz2": b"BZh9broken",
    "head.19o": f"{'2.11':>9s}{'':11s}{'OBSERVATION DATA':20s}{'G':20s}RINEX VERSION / TYPE\n".encode(), "old.nc": b"CDF\x01 broken", "old.19o.nc": b"nothing",
}
GLOBS = ["*"] * 20 + ["*.*"] * 4 + ["*.19*", "*.rnx*", "*o", "site*", "*n*", "*.gz", "[bS]*", "*.sp3", "*.19o", "sub/*", "*.txt", "*_MO.rnx"]


def matches(pattern: str, rel: str) -> bool:
    a, b = pattern.split("/"), rel.split("/")
    return len(a) == len(b) and all(fnmatch.fnmatchcase(x, p) for x, p in zip(b, a))


def snapshot(d):
    return {p.relative_to(d).as_posix(): p.read_bytes() if p.is_file() else None for p in sorted(d.rglob("*"))}


def options(case, models):
    """options that make sense for the first observation file"""
    kw: dict = {}
    if not case["opts"]:
        return kw
    o = next((m for m in models if hasattr(m, "epoch_sats")), None)
    if o is not None:
        if case["tlim"]:
            kw["tlim"] = opt.pick_tlim(o, case["tlim"])[0]
        if case["meas"]:
            kw["meas"] = opt.pick_meas(o, case["meas"])[0]
        if case["use"]:
            kw["use"] = opt.pick_use(o, case["use"])[0]
    if case["ind"]:
        kw["useindicators"] = True
    if case["fast"] is not None:
        kw["fast"] = case["fast"]
    return kw


def read_all(nc):
    """what one NetCDF file holds: group -> dataset"""
    out = {}
    for g in ("OBS", "NAV", None):
        try:
            with xarray.open_dataset(nc, group=g) as d:
                d.load()
        except OSError:
            continue
        if len(d.variables):
            out[g] = d
    return out


def run(rec, case, src, glob, out, kw):
    if case["pos"]:
        k2 = dict(kw)
        rec.call(gr.batch_convert, src, glob, out, k2.pop("use", None), k2.pop("tlim", None), k2.pop("useindicators", False), k2.pop("meas", None), **k2)
    else:
        rec.call(gr.batch_convert, src, glob, out, **kw)


def check(case, rec):
    r = random.Random(case["salt"])
    src = rec.tmp / "data"
    (src / "sub").mkdir(parents=True)
    lone = rec.tmp / "lone"
    models, good = [], {}
    for i, (fc, kind, where) in enumerate(zip(case["files"], case["packs"], case["places"])):
        if case["sametime"]:  # the options then matter to all files
            fc = {**fc, "t0": case["files"][0]["t0"][:6] + [0]}
        c = content.build(fc)
        n = NAMES[c.fmt][fc["salt"] % len(NAMES[c.fmt])]
        data = c.text.encode("ascii")
        if kind == "cutgz":
            n, data = n + ".gz", pack("gz", data, "a", 0)[:-9]
        elif kind == "crlf":
            data = data.replace(b"\n", b"\r\n")
        elif kind != "plain":
            data = pack(kind, data, n, fc["salt"])
            n += "." + kind
        if (src / "sub" / n).exists() or (src / n).exists():
            n = f"site{i}_{n}"
        p = src / ("sub" if where == "sub" else "") / n
        if case["links"][i]:
            q = rec.tmp / "elsewhere" / f"{i}.dat"
            q.parent.mkdir(exist_ok=True)
            q.write_bytes(data)
            p.symlink_to(q)
            rec.label("link")
        else:
            p.write_bytes(data)
        if len(rec.files) < 6:
            rec.files[n] = c.text
        models.append(c.model)
        good[p.relative_to(src).as_posix()] = c
    for k in case["bad"]:
        n = sorted(BAD)[k % len(BAD)]
        (src / n).write_bytes(BAD[n])
    if case["dirname"]:
        (src / "folder.19o").mkdir()
        (src / "folder.19o" / "inner.19o").write_bytes(b"x")
        (src / "broken.19o").symlink_to(src / "gone")
    kw = options(case, models)
    glob = case["glob"]
    out = src if case["out"] == "same" else rec.tmp / "out"
    out.mkdir(exist_ok=True)
    chosen = [p for p in sorted(src.rglob("*")) if p.is_file() and matches(glob, p.relative_to(src).as_posix())]
    # what each file alone gives with these options
    expected, unread = {}, set()
    for i, p in enumerate(chosen):
        if p.suffix == ".nc":
            unread.add(p.name)
            continue
        d = lone / str(i)
        d.mkdir(parents=True)
        q = d / p.name
        q.write_bytes(p.read_bytes())
        ds, e = rec.attempt(gr.load, q, **kw)
        if e is not None:
            unread.add(p.name)
            rec.label("unreadable: " + type(e).__name__)
        elif not len(ds.variables) or ds.sizes.get("time", 0) == 0:
            expected[p.name] = (p, ds, False)
        else:
            expected[p.name] = (p, ds, True)
            if not kw and p.relative_to(src).as_posix() in good:
                c = good[p.relative_to(src).as_posix()]
                content.view.same(c.expected, c.cells(ds), f"{c.fmt}")
    # some outputs are there already
    already = {}
    for p in chosen:
        if p.name in expected and expected[p.name][2] and r.randrange(100) < case["already"]:
            rec.call(gr.load, p, out, **kw) if r.random() < 0.7 else (out / (p.name + ".nc")).write_bytes(b"not NetCDF")
            already[p.name] = (out / (p.name + ".nc")).read_bytes()
    before = snapshot(src)
    before_out = snapshot(out)
    copies = {k: list(v) if isinstance(v, (list, tuple, set)) else v for k, v in kw.items()}
    form = {"str": str, "path": lambda x: x, "rel": lambda x: x.relative_to(rec.tmp), "home": lambda x: f"~/{x.name}"}[case["form"]]
    keep = os.getcwd(), os.environ.get("HOME", "/")
    os.chdir(rec.tmp)
    os.environ["HOME"] = str(rec.tmp)
    try:
        run(rec, case, form(src), glob, form(out), kw)
    finally:
        os.chdir(keep[0])
        os.environ["HOME"] = keep[1]
    require(all((list(kw[k]) if isinstance(kw[k], (list, tuple, set)) else kw[k]) == copies[k] for k in kw), "the options were changed")
    after = snapshot(src)
    for n, b in before.items():
        require(n in after and after[n] == b, lambda: f"{n} was {'changed' if n in after else 'removed'} by the conversion {glob!r} {kw}")
    now = snapshot(out)
    for n, b in before_out.items():
        require(n in now and now[n] == b, lambda: f"output directory: {n} was {'changed' if n in now else 'removed'} by the conversion")
    new = set(now) - set(before_out)
    what = f"batch_convert({glob!r}, {kw}) of {sorted(before)}"
    must = {n + ".nc" for n, (_, _, full) in expected.items() if full and n not in already}
    may = must | {n + ".nc" for n, (_, _, full) in expected.items() if not full}
    require(must <= new, lambda: f"{what}: no output {sorted(must - new)}")
    require(new <= may, lambda: f"{what}: unexpected output {sorted(new - may)}")
    if out is not src:
        require(set(after) == set(before), lambda: f"{what}: wrote {sorted(set(after) - set(before))} into the input directory")
    for n, (p, ds, full) in expected.items():
        if n + ".nc" not in new:
            continue
        groups = read_all(out / (n + ".nc"))
        if not full:
            require(all(not len(d.data_vars) or d.sizes.get("time", 0) == 0 for d in groups.values()), lambda: f"{what}: {n}.nc holds data, the load alone returned none")
            continue
        require(len(groups) == 1, lambda: f"{what}: {n}.nc holds {list(groups)}")
        g, d = next(iter(groups.items()))
        require(g == (None if "Nepoch" in ds.attrs else "OBS" if ds.attrs.get("rinextype") == "obs" else "NAV"), lambda: f"{what}: {n}.nc holds group {g}")
        same_dataset(ds, d, f"{what}: {n}.nc")
    rec.label(f"{len(must)} converted")
    if unread:
        rec.label("unreadable among the matches")
    if already:
        rec.label("already converted")
    if kw:
        rec.label("options")
    rec.nontrivial(len(must) >= 2)


def tiny(f):
    from .c16 import tiny as t

    return t(f)


def cases():
    return st.fixed_dictionaries({
        "files": st.lists(st.one_of([tiny(f) for f in GOOD]), min_size=3, max_size=6),
        "packs": st.lists(st.sampled_from(["plain"] * 5 + ["gz", "bz2", "zip", "Z", "gz", "bz2", "zip", "Z", "crlf", "cutgz"]), min_size=6, max_size=6),
        "places": st.lists(st.sampled_from(["", "", "", "", "", "", "", "sub"]), min_size=6, max_size=6),
        "bad": st.lists(st.integers(0, 40), max_size=5), "dirname": st.booleans(), "sametime": st.booleans(), "glob": st.sampled_from(GLOBS), "out": st.sampled_from(["other", "other", "same"]),
        "already": st.sampled_from([0, 50]), "pos": st.booleans(), "form": st.sampled_from(["str", "path", "rel", "home"]), "links": st.lists(st.sampled_from([False, False, False, True]), min_size=6, max_size=6), "salt": st.integers(0, 1 << 40),
        "opts": st.booleans(), "tlim": st.one_of(st.none(), opt.TLIM), "meas": st.one_of(st.none(), opt.MEAS), "use": st.one_of(st.none(), st.none(), opt.USE), "ind": st.booleans(),
        "fast": st.sampled_from([False, False, False, False, False, None, True])})


FACETS = [
    Facet("directories", cases, check, 600, 8000,
          rule="directories of 2-5 generated files of any kind and compression, up to 5 bad files (foreign, empty, damaged archives, unsupported versions, broken NetCDF), sub-directories, broken links, earlier outputs, "
               "15 patterns and any options; non-trivial: >= 2 files have to be converted"),
]
