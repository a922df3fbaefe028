"""C30: file finding and time conversion helpers are exact"""

import os
import random
from datetime import datetime, timedelta
from pathlib import Path

import numpy as np
import xarray
from hypothesis import strategies as st

import georinex as gr
from georinex.utils import globber, to_datetime

from .. import content, view
from ..core import Facet, require
from ..io_ import stream
from ..model import EPOCH, US

NAMES = ["a.19o", "b.19o", "a.19n", "A.19O", "a.rnx", "b.rnx.gz", "a.rnx.gz", "x", "19o", ".19o", ".hidden.rnx", "data 1.19o", "a[1].19o", "a-b.19o.Z", "c.19d", "file.tar.gz",
         "aa.19o", "ab.19o", "1.19o", "a.19o.nc", "é.19o", "a.sp3", "B.RNX"]
DIRS = ["", "", "", "sub", "sub/deep", "d.19o", "other"]
PATTERNS = ["*", "*.19o", "*.rnx*", "*o", "a*", "?.19o", "a.???", "[ab].19o", "[!a]*.19o", "*.gz", "*.*", "x", "a.19o", "sub/*", "*/*.19o", "**/*.19o", "**/*", "sub/**/*.rnx", "nothing*", "*.19[on]", "a[[]1].19o",
            "d.19o", "d.19o/*", ".*", "* *", "[a-b]?.19o"]


def seg_match(pat: str, s: str) -> bool:
    """one path component against one pattern component"""
    if not pat:
        return not s
    c = pat[0]
    if c == "*":
        return any(seg_match(pat[1:], s[i:]) for i in range(len(s) + 1))
    if c == "[" and "]" in pat[2:]:
        end = pat.index("]", 2)
        body, neg = pat[1:end], False
        if body[0] == "!":
            body, neg = body[1:], True
        if not s:
            return False
        hit, i = False, 0
        while i < len(body):
            if i + 2 < len(body) and body[i + 1] == "-":
                hit |= body[i] <= s[0] <= body[i + 2]
                i += 3
            else:
                hit |= body[i] == s[0]
                i += 1
        return hit != neg and seg_match(pat[end + 1:], s[1:])
    return bool(s) and c in ("?", s[0]) and seg_match(pat[1:], s[1:])


def match(pats: list[str], parts: list[str]) -> bool:
    if not pats:
        return not parts
    if pats[0] == "**":
        return match(pats[1:], parts) or (bool(parts[1:]) and match(pats, parts[1:]))
    return bool(parts) and seg_match(pats[0], parts[0]) and match(pats[1:], parts[1:])


def check_glob(case, rec):
    root = rec.tmp / "d"
    root.mkdir()
    files = set()
    for d, n, kind in case["files"]:
        p = root / d / n
        p.parent.mkdir(parents=True, exist_ok=True)
        if p.exists() or p.is_symlink():
            continue
        if kind == "dir":
            p.mkdir()
        elif kind == "broken":
            p.symlink_to(root / "no such file")
        elif kind == "fifo":
            os.mkfifo(p)
        elif kind == "link":
            target = rec.tmp / "target"
            target.write_text("t")
            p.symlink_to(target)
            files.add(p.relative_to(root).as_posix())
        else:
            p.write_text("x" * len(n) if kind == "file" else "")
            files.add(p.relative_to(root).as_posix())
    pats = case["pats"]
    exp = {f for f in files if any(match(p.split("/"), f.split("/")) for p in pats)}
    arg: object = list(pats)
    if case["form"] == "str" and len(pats) == 1:
        arg = pats[0]
    elif case["form"] == "tuple":
        arg = tuple(pats)
    before = list(pats)
    home = os.environ.get("HOME")
    try:
        path: object = root
        if case["path"] == "str":
            path = str(root)
        elif case["path"] == "home":
            os.environ["HOME"] = str(root)
            path = "~"
        got = rec.call(globber, path, arg)
    finally:
        if home is not None:
            os.environ["HOME"] = home
    require(isinstance(got, list) and all(isinstance(x, Path) for x in got), lambda: f"globber returned {got!r}")
    require(all(x.is_relative_to(root) for x in got), lambda: f"globber({pats}) of {sorted(files)} returned {[str(x) for x in got if not x.is_relative_to(root)]}, not in the directory")
    rel = [x.relative_to(root).as_posix() for x in got]
    require(set(rel) == exp, lambda: f"globber({pats}) of {sorted(files)}: missing {sorted(exp - set(rel))}, extra {sorted(set(rel) - exp)}")
    if len(pats) == 1:
        require(len(rel) == len(exp), lambda: f"globber({pats}) lists a file twice: {rel}")
    require(list(arg) == before or arg == before[0], "the patterns were changed")
    rec.label(f"{len(pats)} patterns", case["path"])
    rec.nontrivial(0 < len(exp) < len(files))
    # a file is found as itself, whatever the patterns
    for f in sorted(files)[:2]:
        p = root / f
        got = rec.call(globber, p if case["path"] != "str" else str(p), arg)
        require(got == [p], lambda: f"globber of the file {f} with {pats}: {got}")


def check_times(case, rec):
    r = random.Random(case["salt"])
    unit = case["unit"]
    shape = tuple(case["shape"])
    n = int(np.prod(shape, dtype=int))
    lo, hi = datetime(1700, 1, 1), datetime(2250, 1, 1)
    if unit != "ns":
        lo, hi = datetime(1, 1, 2), datetime(9999, 12, 30)
    if unit in ("ns", "us") and r.random() < 0.6:
        lo, hi = datetime(1980, 1, 6), datetime(2079, 12, 31)
    q = {"ns": 1, "us": 1, "ms": 1000, "s": 1_000_000}[unit]
    ts, sub = [], []
    for _ in range(n):
        us = r.randrange((lo - EPOCH) // US, (hi - EPOCH) // US)
        if r.random() < 0.4:
            us -= us % 1_000_000
        ts.append(us - us % q)
        sub.append(r.randrange(1000) if unit == "ns" and case["subus"] else 0)
    raw = [t * 1000 + s if unit == "ns" else t // q for t, s in zip(ts, sub)]
    arr = np.array(raw, dtype="int64").astype(f"datetime64[{unit}]").reshape(shape)
    da = xarray.DataArray(arr, dims=[f"d{i}" for i in range(len(shape))], name="time")
    if case["coord"] and len(shape) == 1:
        da = xarray.Dataset(coords={"time": arr})["time"]
        if case["pick"] and n:
            k = case["salt"] % n
            da = da[k]
            ts, sub = [ts[k]], [sub[k]]
            shape, n = (), 1
    keep = da.copy(deep=True)
    got = rec.call(to_datetime, da)
    require(da.identical(keep), "the argument was changed")
    if shape == ():
        require(isinstance(got, datetime), lambda: f"a scalar gave {got!r} ({type(got).__name__})")
    elif n != 1:
        require(isinstance(got, np.ndarray) and got.shape == tuple(x for x in shape if x != 1), lambda: f"shape {shape} gave {got!r}")
    flat = np.asarray(got, dtype=object).ravel().tolist()
    require(len(flat) == n, lambda: f"{n} times gave {len(flat)}")
    for x, t, s in zip(flat, ts, sub):
        require(isinstance(x, datetime), lambda: f"{x!r} is not a datetime")
        d = (x - EPOCH) // US - t
        require(d == 0, lambda: f"{unit} time {EPOCH + timedelta(microseconds=t)} +{s} ns became {x}")
    rec.label(unit, f"{len(shape)} dimensions")
    rec.nontrivial(n > 0)


def check_other(case, rec):
    d = datetime(2019, 1, 1, 2, 3, 4, 56789)
    things = [d, [d, d], (d,), None, "2019-01-01", 5, np.datetime64("2019-01-01T00:00:00.000001"), np.array(["2019-01-01"], dtype="datetime64[ns]"), {"a": 1}, d.date(), np.array([1.0]), float("1.5")]
    x = things[case["salt"] % len(things)]
    got = rec.call(to_datetime, x)
    require(got is x, lambda: f"to_datetime({x!r}) returned {got!r}")
    rec.nontrivial()


def check_loaded(case, rec):
    c = content.build(case)
    kw = {"fast": False} if c.fmt.startswith("obs") else {}
    ds = rec.call(gr.load, stream(c.text), **kw)
    rec.files[c.name] = c.text
    ts = view.times_us(ds["time"].values)
    got = rec.call(to_datetime, ds["time"])
    flat = np.asarray(got, dtype=object).ravel().tolist()
    require([(x - EPOCH) // US for x in flat] == ts, lambda: f"to_datetime of the loaded times: {flat[:5]}")
    for i, t in enumerate(ts):
        one = rec.call(to_datetime, ds["time"][i])
        require(isinstance(one, datetime) and (one - EPOCH) // US == t, lambda: f"to_datetime of one loaded time: {one!r}")
    rec.label(c.fmt)
    rec.nontrivial(len(ts) > 1)


FILE = st.tuples(st.sampled_from(DIRS), st.sampled_from(NAMES), st.sampled_from(["file"] * 6 + ["empty", "link", "dir", "broken", "fifo"])).map(list)

FACETS = [
    Facet("glob", lambda: st.fixed_dictionaries({
        "files": st.lists(FILE, min_size=1, max_size=14), "pats": st.lists(st.sampled_from(PATTERNS), min_size=1, max_size=4), "form": st.sampled_from(["list", "list", "tuple", "str"]),
        "path": st.sampled_from(["path", "str", "home"])}), check_glob, 2500, 40000,
        rule="directory trees of files, empty files, links, broken links, directories and pipes, 1-4 patterns, against an independent matcher; non-trivial: some but not all files match"),
    Facet("times", lambda: st.fixed_dictionaries({
        "salt": st.integers(0, 1 << 40), "unit": st.sampled_from(["ns", "ns", "us", "ms", "s"]), "shape": st.one_of(st.just([]), st.lists(st.integers(0, 5), min_size=1, max_size=3)),
        "subus": st.booleans(), "coord": st.booleans(), "pick": st.booleans()}), check_times, 2500, 40000,
        rule="DataArrays of times of any unit, 0-3 dimensions, years 1-9999, against integer arithmetic; non-trivial: not empty"),
    Facet("other", lambda: st.fixed_dictionaries({"salt": st.integers(0, 200)}), check_other, 40, 100, rule="arguments that are no DataArray; every case non-trivial"),
    Facet("loaded", lambda: content.any_of(("obs2", "obs3", "nav2", "nav3")), check_loaded, 500, 8000, rule="time coordinates of loaded generated files; non-trivial: more than one time"),
]
