"""C13: compression and container are transparent"""

import bz2
import gzip
import io
import os
import random
import string
import zipfile
from pathlib import Path

import ncompress
from hypothesis import strategies as st

import georinex as gr

from .. import content, view
from ..core import Facet, fail, require
from ..io_ import fast_guaranteed
from ..model import header_line

SUFFIXES = {
    "plain": ["{n}", "{n}.txt", "{s}", "{s}.RNX", "data.{s}.dat"],
    "gz": ["{n}.gz", "{n}.GZ", "{s}", "{n}", "{n}.Gz", "{s}.tmp"],
    "bz2": ["{n}.bz2", "{n}.BZ2", "{s}", "{n}", "{s}.part"],
    "zip": ["{n}.zip", "{s}.ZIP", "{s}", "{n}", "{n}.download"],
    "Z": ["{n}.Z", "{n}.z", "{s}", "{n}", "{s}.x"],
}

BULK = string.ascii_letters + string.digits + " .,-+"


def pack(kind: str, data: bytes, member: str, variant: int) -> bytes:
    if kind == "plain":
        return data
    if kind == "gz":
        if variant % 3 == 1:  # two members
            k = len(data) // 2
            return gzip.compress(data[:k], mtime=0) + gzip.compress(data[k:], mtime=0)
        return gzip.compress(data, compresslevel=variant % 10, mtime=variant)
    if kind == "bz2":
        if variant % 3 == 1:
            k = len(data) // 3
            return bz2.compress(data[:k]) + bz2.compress(data[k:])
        return bz2.compress(data, 1 + variant % 9)
    if kind == "zip":
        b = io.BytesIO()
        with zipfile.ZipFile(b, "w", [zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED, zipfile.ZIP_BZIP2, zipfile.ZIP_LZMA][variant % 4]) as z:
            z.writestr(["", "dir/"][variant % 2] + member, data)
        return b.getvalue()
    return ncompress.compress(data)


def same_header(a: dict, b: dict, what: str) -> None:
    ka, kb = {str(k) for k in a if k}, {str(k) for k in b if k}  # not blank header lines
    require(ka == kb, lambda: f"{what}: header keys differ: {sorted(ka ^ kb)}")
    for k, x in ((k, x) for k, x in a.items() if k):
        y = b[k]
        ok = x == y if isinstance(x, (str, dict)) or k in ("t0", "t1") else _same(x, y)
        require(ok, lambda: f"{what}: header {k}: {x!r} in the plain file, {y!r} here")


def _same(x, y) -> bool:
    if isinstance(x, dict):
        return isinstance(y, dict) and x.keys() == y.keys() and all(_same(x[k], y[k]) for k in x)
    if isinstance(x, slice) or isinstance(y, slice):
        return x == y
    return view.attr_equal(x, y)


def same_attrs(a: dict, b: dict, what: str, but=("filename", "fast_processing")) -> None:
    ka, kb = set(a) - set(but), set(b) - set(but)
    require(ka == kb, lambda: f"{what}: attributes differ: {sorted(map(str, ka ^ kb))}")
    for k in ka:
        require(view.attr_equal(a[k], b[k]), lambda: f"{what}: attribute {k}: {a[k]!r} and {b[k]!r}")


def _load(rec, c, arg, fast: bool):
    """fast mode may refuse a file that is too small for its estimate"""
    if fast and c.fmt == "obs2":
        ds, e = rec.attempt(gr.load, arg, fast=True)
        if e is None:
            return ds
        if not isinstance(e, IndexError) or fast_guaranteed(c.text, c.model.nl, len(c.model.t)):
            fail(f"load(fast=True) raised {type(e).__name__}: {e}")
    return rec.call(gr.load, arg, fast=False)


def form_of(p: Path, k: int):
    """the ways in which a caller may name a file"""
    k %= 6
    if k in (1, 4):
        return str(p)
    if k == 2:
        os.environ["HOME"] = str(p.parent.parent)
        return f"~/{p.parent.name}/{p.name}"
    if k in (3, 5):
        os.chdir(p.parent)
        return p.name if k == 3 else Path("..") / p.parent.name / p.name
    return p


def check(case, rec):
    cwd, home = os.getcwd(), os.environ.get("HOME")
    try:
        _check(case, rec)
    finally:
        os.chdir(cwd)
        if home is None:
            os.environ.pop("HOME", None)
        else:
            os.environ["HOME"] = home


def _check(case, rec):
    c = content.build(case)
    data = c.text.encode("ascii")
    if case["crlf"]:
        data = data.replace(b"\n", b"\r\n")
    if case["nonascii"]:
        data = content.add_comments(data, c.fmt, case["salt"], case["nonascii"])
    if case.get("bulk"):  # comments that do not compress well
        r = random.Random(case["salt"])
        a, b = data.index(b"\n") + 1, b"\r\n" if case["crlf"] else b"\n"
        data = data[:a] + b"".join(header_line("".join(r.choices(BULK, k=60)), "COMMENT").encode() + b for _ in range(case["bulk"])) + data[a:]
        rec.label(f"{len(data) >> 16} x 64 KiB")
    d0 = rec.tmp / "a"
    d0.mkdir()
    ref = d0 / c.name
    ref.write_bytes(data)
    if not case.get("bulk"):
        rec.files[c.name] = data.decode("latin-1")
    plain = _load(rec, c, ref, case["fast"])
    view.same(c.expected, c.cells(plain), "plain file")
    rinex = c.fmt != "sp3"
    if rinex:
        t0 = rec.call(gr.gettime, ref)
        require(all(abs(a - b) < 999.95 for a, b in zip(view.times_us(t0), c.times)) and len(t0) == len(c.times), "gettime of the plain file differs from the epochs written")
        h0 = rec.call(gr.rinexheader, ref)
        i0 = rec.call(gr.rinexinfo, ref)
    d1 = rec.tmp / "b"
    d1.mkdir()
    rec.label(c.fmt, f"nonascii={min(case['nonascii'], 1)}", f"crlf={case['crlf']}")
    rec.nontrivial(len(c.expected) > 3)
    for i, kind in enumerate(case["kinds"]):
        pats = SUFFIXES[kind]
        nm = pats[(case["suffix"] + i) % len(pats)].format(n=c.name, s="station1")
        p = d1 / nm
        p.write_bytes(pack(kind, data, c.name, case["variant"]))
        arg = form_of(p, case["asstr"] + i)
        what = f"{kind} as {nm}"
        rec.label(kind)
        ds = _load(rec, c, arg, case["fast"])
        view.same(c.expected, c.cells(ds), what)
        same_attrs(plain.attrs, ds.attrs, what)
        require(ds.attrs.get("filename", nm) == nm, lambda: f"{what}: filename {ds.attrs.get('filename')!r}")
        if rinex:
            tt = rec.call(gr.gettime, arg)
            require(tt.tolist() == t0.tolist(), f"{what}: gettime differs")
            same_header(h0, rec.call(gr.rinexheader, arg), what)
            same_header(i0, rec.call(gr.rinexinfo, arg), what)
        p.unlink()
    if rinex and case["stream"]:
        txt = c.text.replace("\n", "\r\n") if case["crlf"] else c.text
        s = io.StringIO(txt, newline="")
        s.seek(case["variant"] * 37 % (len(txt) + 1))
        ds = _load(rec, c, s, case["fast"])
        view.same(c.expected, c.cells(ds), "text stream")
        if not case["nonascii"] and not case.get("bulk"):
            same_attrs(plain.attrs, ds.attrs, "text stream")
        require("filename" not in ds.attrs, "text stream has a file name")
        s.seek(case["variant"] * 17 % (len(txt) + 1))
        require(rec.call(gr.gettime, s).tolist() == t0.tolist(), "text stream: gettime differs")
        s.seek(case["variant"] * 11 % (len(txt) + 1))
        h = rec.call(gr.rinexheader, s)
        if not case["nonascii"] and not case.get("bulk"):
            same_header(h0, h, "text stream")
        require(s.getvalue() == txt, "the stream's content was changed")
        rec.label("stream")



KNOBS = dict(
    kinds=st.lists(st.sampled_from(["gz", "bz2", "zip", "Z", "plain"]), min_size=1, max_size=3, unique=True),
    suffix=st.integers(0, 5), variant=st.integers(0, 30), nonascii=st.sampled_from([0, 0, 1, 3]), crlf=st.booleans(), asstr=st.integers(0, 5), stream=st.booleans(), fast=st.booleans())


def files(*fmts):
    return lambda: content.with_knobs(content.any_of(fmts), **KNOBS)


def large(*fmts):
    return lambda: content.with_knobs(content.any_of(fmts), **{**KNOBS, "bulk": st.sampled_from([700, 1500, 4000])})


RULE = "small generated {} file in 1-3 containers (gzip, bzip2, zip, LZW, plain; several compression variants and names) and as text stream, with bytes outside ASCII in comments and either line end, named by path, text, relative path or ~; non-trivial: more than 3 values"
FACETS = [
    Facet("obs", files("obs2", "obs3"), check, 600, 10000, rule=RULE.format("OBS")),
    Facet("nav", files("nav2", "nav3"), check, 400, 6000, rule=RULE.format("NAV")),
    Facet("sp3", files("sp3"), check, 350, 5000, rule=RULE.format("SP3")),
    Facet("large", large("obs2", "obs3", "nav2", "nav3"), check, 64, 600, rule="as above with 50 to 320 KiB of random comments in the header; non-trivial: more than 3 values"),
]
