"""C22: input that is not RINEX, SP3 or NetCDF is rejected with ValueError"""

import math
import random

from hypothesis import strategies as st

import georinex as gr

from .. import content, view
from ..core import Facet, fail, require
from ..io_ import stream
from ..model import mix
from .c13 import pack

FUNCS = {"load": gr.load, "gettime": gr.gettime, "rinexheader": gr.rinexheader, "rinexinfo": gr.rinexinfo, "rinexobs": gr.rinexobs, "rinexnav": gr.rinexnav}
NAMES = ["a.txt", "test0010.19o", "test0010.19n", "x.rnx", "noext", "y.sp3", "data.bin", "z.csv", "a.crx", "b.19d", "UPPER.OBS"]


def rejects(rec, fn, arg, what, kinds=(ValueError,), **kw):
    v, e = rec.attempt(FUNCS[fn], arg, **kw)
    if e is None:
        fail(f"{fn} of {what} returned {type(v).__name__} {str(v)[:200]!r} instead of raising {kinds[0].__name__}")
    require(isinstance(e, kinds), lambda: f"{fn} of {what} raised {type(e).__name__}: {e} instead of {kinds[0].__name__}")


def everywhere(rec, case, data: bytes, what: str, info=True, text=True, explicit=True):
    """reject from file and stream, through every reader"""
    p = rec.tmp / NAMES[case["name"] % len(NAMES)]
    kind = case.get("pack", "plain")
    packed = pack(kind, data, "a.19o", case["name"])
    if kind != "plain":
        p = p.with_name(p.name + "." + kind)
        rec.label(kind)
    p.write_bytes(packed)
    rec.files[p.name] = data[:4000].decode("latin-1")
    for fn in FUNCS:
        if fn == "rinexinfo" and (not info or told(data)):
            continue  # tells version and type of what is not supported
        if fn in ("rinexobs", "rinexnav") and not explicit:
            continue  # told explicitly what to read
        rejects(rec, fn, str(p) if case["asstr"] else p, f"{what} (file)")
        if text:
            rejects(rec, fn, stream(data.decode("latin-1")), f"{what} (stream)")
    out = rec.tmp / "out"
    out.mkdir()
    rejects(rec, "load", p, f"{what} (conversion)", out=out if case["asstr"] else out / "o.nc")
    require(not list(out.iterdir()), f"{what}: wrote an output file")
    require(p.read_bytes() == packed, "the input was changed")
    require(sorted(x.name for x in rec.tmp.iterdir()) == sorted([p.name, "out"]), "wrote a file next to the input")


def is_first_line(line: str) -> bool:
    """could this be meant as the first line of a supported file?"""
    if line.startswith(("#a", "#c", "#d")):
        return len(line.rstrip()) > 50
    try:
        v = float(line[:9])
        return v == v and 1 <= v < 4 and len(line) > 20
    except ValueError:
        return False


def told(data: bytes) -> bool:
    """the first line begins like a RINEX or SP3 file of any version and type"""
    line = next((x for x in data.decode("ascii", "ignore").split("\n") if x.strip()), "")
    if line.startswith(("#a", "#c", "#d")):
        return True
    try:
        return math.isfinite(float(line[:9])) and 20 < len(line) < 80
    except ValueError:
        return False


WORDS = ["hello", "3.04", "2.11", "RINEX", "VERSION", "/", "TYPE", "OBSERVATION", "G01", "#c", "#a", "%PDF-1.4", "{", "}", "<html>", "0", "1e9", "nan", ">", "END OF HEADER", "1,2,3", "NAV", "\t", "*", "PG01", "-1", "2019", "C", "O", "inf", "#", "##", "3"]


def free_text(r: random.Random) -> str:
    lines = []
    for _ in range(r.choice([1, 1, 2, 3, 12])):
        k = r.randint(0, 8)
        ln = r.choice(["", " ", "     "]) + r.choice([" ", ",", "  "]).join(r.choice(WORDS) for _ in range(r.randint(1, 14)))
        lines.append(ln[:r.choice([3, 10, 21, 41, 60, 79, 80, 81, 200])] if k else "")
    return "\n".join(lines) + r.choice(["", "\n"])


def check_text(case, rec):
    r = random.Random(case["salt"])
    kind = case["kind"]
    if kind == "blank":
        s = "".join(r.choice(["\n", " \n", "   ", "\t", "\r\n"]) for _ in range(r.randint(0, 40)))
    elif kind == "text":
        s = free_text(r)
    elif kind == "comment":
        s = "#" + r.choice("acd") + "".join(r.choice("abc xyz,;=019\n*P.") for _ in range(r.randint(0, 45)))
    else:
        s = r.choice([
            "time,lat,lon\n1,2,3\n", '{"a": [1, 2, 3]}\n', "<?xml version='1.0'?>\n<a/>\n", "#!/bin/sh\nexit 0\n", "#comment\na = 1\n", "#data of a station\n1 2 3\n", "#author,date\n",
            "SINEX\n%=SNX 2.02 IGS 19:001\n", "0\n" * 500, "x" * 100000, "9" * 400 + "\n", "3", "2.11", "#", "#c", "#cP", "#dV2019",
            "     2.11\n", "     3.04           O\n"])
    for ln in s.split("\n")[:20]:
        if ln.strip():
            if is_first_line(ln):
                s = "@" + s
            break
    rec.label(kind)
    rec.nontrivial(bool(s.strip()))
    if not s.isascii():
        fail("generator")
    if s[:2] in ("PK", "BZ"):
        s = "@" + s
    everywhere(rec, case, s.encode("ascii"), f"{kind} {s[:60]!r}")


def check_binary(case, rec):
    r = random.Random(case["salt"])
    n = r.choice([1, 2, 3, 10, 79, 80, 81, 500, 5000, 60000])
    kind = case["kind"]
    head = {"random": b"", "zeros": b"\0" * 4, "png": b"\x89PNG\r\n\x1a\n", "elf": b"\x7fELF\x02\x01\x01", "high": b"\xff\xd8\xff\xe0", "utf16": "3.04 OBSERVATION".encode("utf-16")}[kind]
    body = {"zeros": bytes(n)}.get(kind) or bytes(r.randrange(128, 256) if kind == "high" else r.randrange(256) for _ in range(n))
    data = head + body
    while data[:2] in (b"\x1f\x8b", b"PK", b"\x1f\x9d", b"BZ"):
        data = b"\0" + data
    line = next((x for x in data.decode("ascii", "ignore").splitlines() if x.strip()), "")
    if is_first_line(line):
        data = b"\0\0" + data
    rec.label(kind)
    rec.nontrivial(n > 3)
    everywhere(rec, case, data, f"{kind} bytes", text=False)


BAD_VERSION = ["X.YZ", "", "2.1X", "nan", "inf", "-inf", "1e400", "4.00", "4.02", "5.0", "0.9", "9.99", "-2.11", "2,11", "3.0.4", "two", "20.11", "300", "--3"]
BAD_TYPE = [("M", "METEOROLOGICAL DATA"), ("X", "X"), (" ", " "), ("o", "observation data"), ("n", "navigation data"), ("1", "1"), ("T", "T"), ("B", "B"), ("S", "SUMMARY FILE"), ("C", "CLOCK DATA"), ("C", "C"), ("?", "???")]


def check_first_line(case, rec):
    c = content.build(case)
    r = random.Random(mix(case["salt"], 7))
    lines = c.text.split("\n")
    first = lines[0]
    how = case["how"]
    info = True
    if c.fmt == "sp3":
        how = ["sp3version", "sp3cut"][r.randrange(2)]
        if how == "sp3version":
            new = "#" + r.choice("bef0ACDx *") + first[2:]
        else:
            new = first[:r.randrange(0, 30)]
            lines = [new] + lines[1:r.choice([1, 2, 3])]
    elif how == "version":
        v = r.choice(BAD_VERSION)
        new = f"{v:>9s}" + first[9:]
        info = v in ("X.YZ", "", "2.1X", "nan", "inf", "-inf", "1e400", "2,11", "3.0.4", "two", "--3")
    elif how == "type":
        t, s = r.choice(BAD_TYPE)
        new = first[:20] + f"{s:20s}" + first[40:]
        info = False
    elif how == "label":
        k = r.randrange(60, 80)
        ch = r.choice([x for x in "XabZ_/0-. " if x != first[k]])
        new = first[:k] + ch + first[k + 1:]
        if r.random() < 0.3:
            new = first[:60] + f"{r.choice(['COMMENT', '', 'RINEX VERSION', 'PGM / RUN BY / DATE', 'END OF HEADER', 'rinex version / type', 'CRINEX VERS   / TYPE'[:19]]):20s}"
        new = new.ljust(80)
    elif how == "cut":
        new = first[:r.randrange(0, 20 if c.fmt == "nav2" else 39)]
    elif how == "shift":
        new = (" " * r.randint(1, 20) + first)
    elif how == "gone":
        lines = lines[1:]
        new = lines[0]
    else:
        raise AssertionError(how)
    body = "\n".join([new] + lines[1:])
    if not new.strip():
        # what follows counts as first line
        nxt = next((x for x in lines[1:] if x.strip()), "")
        if is_first_line(nxt):
            body = "@\n" + body
    rec.label(c.fmt, how)
    rec.nontrivial()
    everywhere(rec, case, body.encode("ascii"), f"{c.fmt} with first line {new!r}", info=info, explicit=how != "type")


def check_header_cut(case, rec):
    """a file that ends within its header: no data, in finite time"""
    c = content.build(case)
    head = c.text[:c.model.header_end]
    start = head.index("\n") + 1
    # END OF HEADER itself may stay, cut in its trailing blanks
    k = start + mix(case["salt"], 3) % max(1, head.rindex("END OF HEADER") - start)
    s = head[:k]
    p = rec.tmp / c.name
    p.write_text(s)
    rec.files[c.name] = s
    rec.label(c.fmt)
    rec.nontrivial()
    for src in (p, stream(s)):
        for fn in ("load", "gettime", "rinexheader"):
            v, e = rec.attempt(FUNCS[fn], src)
            if e is None and fn == "load":
                require(not c.cells(v), lambda: f"load of a file cut within its header returned data {v}")
            elif e is None and fn == "gettime":
                require(len(v) == 0, lambda: f"gettime of a file cut within its header returned {v}")


def check_missing(case, rec):
    names = NAMES + ["missing.gz", "no/such/dir/a.19o", "a.zip", "a.Z", "a.bz2", "sp ace.rnx"]
    p = rec.tmp / names[case["salt"] % len(names)]
    for fn in FUNCS:
        rejects(rec, fn, str(p) if case["asstr"] else p, f"missing file {p.name}", (FileNotFoundError,))
    out = rec.tmp / "o.nc"
    rejects(rec, "load", p, f"missing file {p.name}", (FileNotFoundError,), out=out)
    require(not list(rec.tmp.iterdir()), "a file was written")
    rec.nontrivial()


PACK = st.sampled_from(["plain"] * 8 + ["gz", "bz2", "zip", "Z"])
B = dict(name=st.integers(0, 50), asstr=st.booleans())


def salted(**k):
    return st.fixed_dictionaries({"salt": st.integers(0, 1 << 40), **B, **k})


FACETS = [
    Facet("text", lambda: salted(pack=PACK, kind=st.sampled_from(["blank", "text", "text", "text", "comment", "known"])), check_text, 4000, 60000,
          rule="blank, free and foreign text (CSV, JSON, comments starting #a/#c/#d, numbers, very long lines) from file and stream through six readers; non-trivial: not blank"),
    Facet("binary", lambda: salted(pack=PACK, kind=st.sampled_from(["random", "zeros", "png", "elf", "high", "utf16"])), check_binary, 2000, 30000,
          rule="random and typical binary content without compression signature; non-trivial: more than 3 bytes"),
    Facet("first-line", lambda: content.with_knobs(content.any_of(), how=st.sampled_from(["version", "type", "label", "cut", "shift", "gone"]), pack=PACK, **B), check_first_line, 4000, 60000,
          rule="generated valid file whose first line has an unreadable or unsupported version, a foreign type, a changed label, is cut off, shifted or gone; every case non-trivial"),
    Facet("header-cut", lambda: content.any_of(("obs2", "obs3", "nav2", "nav3")), check_header_cut, 2000, 30000,
          rule="generated file that ends within its header; every case non-trivial"),
    Facet("missing", lambda: salted(), check_missing, 60, 400, rule="paths of files that do not exist; every case non-trivial"),
]
