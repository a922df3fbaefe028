"""C24: event records and unreadable epoch lines do not disturb other epochs"""

import random

from hypothesis import strategies as st

import georinex as gr

from .. import content, navmodel, opt, strat, view
from ..core import Facet, fail, require
from ..io_ import fast_guaranteed, put, stream
from ..model import build_obs, header_line, i2, mix, obs_field, sec_text

SPECIAL = [("MARKER 2", "MARKER NAME"), ("12345M001", "MARKER NUMBER"), ("  0.0000        0.0000        0.0000", "ANTENNA: DELTA H/E/N"), ("moved to another place", "COMMENT"), ("", "COMMENT"),
           ("  1234567.8901 -2345678.9012  3456789.0123", "APPROX POSITION XYZ"), ("1                   ANT TYPE", "ANT # / TYPE"), ("    15.000", "INTERVAL"), ("G01 123456.789 G02", "COMMENT"), ("> 2019 01 01 00 00", "COMMENT")]
BAD_DATE2 = ["19 13  1  0  0  0.0000000", "19  1 32  0  0  0.0000000", "19  1  1 24  0  0.0000000", "19  1  1  0 60  0.0000000", "xx  1  1  0  0  0.0000000", "19 ** **  0  0  0.0000000", "19  1  1  0  0  x.0000000",
             "19  2 30 12  0  0.0000000", "19  1  1  0  0            ", "                          ", "19  1  1    0  0.0000000 "]
BAD_DATE3 = ["2019 13 01 00 00  0.0000000", "2019 01 32 00 00  0.0000000", "2019 01 01 24 00  0.0000000", "2019 01 01 00 60  0.0000000", "xxxx 01 01 00 00  0.0000000", "2019 ** ** 00 00  0.0000000", "2019 02 30 12 00  0.0000000",
             "2019 01 01 00 00           ", "                           ", "0000 01 01 00 00  0.0000000"]


def event(o, r, d, t) -> str:
    """flag 2, 3 or 4 with its special records"""
    flag, n, timed = d["flag"], d["n"], d["timed"]
    recs = []
    for _ in range(n):
        c, lb = r.choice(SPECIAL)
        if o.v == 2 and c.startswith(">"):
            c = ""
        recs.append(header_line(c, lb, r.random() < 0.5))
    zero = r.random() < 0.5
    if o.v == 2:
        date = (f"{i2(t.year % 100, True)} {i2(t.month, zero)} {i2(t.day, zero)} {i2(t.hour, zero)} {i2(t.minute, zero)}{sec_text(t, zero)}" if timed else " " * 25)
        head = f" {date}  {flag}{n:3d}"
    else:
        date = (f"{t.year:4d} {i2(t.month, zero)} {i2(t.day, zero)} {i2(t.hour, zero)} {i2(t.minute, zero)}{sec_text(t, zero)}" if timed else " " * 27)
        head = f"> {date}  {flag}{n:3d}"
    if r.random() < 0.3:
        head = f"{head:80s}"
    return "\n".join([head] + recs) + "\n"


def unreadable(o, r, d) -> str:
    """a complete epoch whose time cannot be read"""
    sats = [f"{r.choice('GRE')}{k:02d}" for k in r.sample(range(1, 33), d["n"] * 3)] if d["n"] else []
    if o.v == 3:
        known = list(o.types)
        sats = [r.choice(known) + s[1:] for s in sats]
    def fields(k):
        return "".join((obs_field(r.getrandbits(60)) if r.random() < 0.9 else " " * 14) + r.choice("  125") + r.choice("  79") for _ in range(k))
    if o.v == 2:
        rows = [f" {r.choice(BAD_DATE2)[:25]:25s}  {d['eflag']}{len(sats):3d}" + "".join(sats[:12])]
        rows += [" " * 32 + "".join(sats[k:k + 12]) for k in range(12, len(sats), 12)]
        nt = len(next(iter(o.types.values())))
        for _ in sats:
            f = fields(nt)
            rows += [f[k:k + 80] for k in range(0, len(f), 80)]
    else:
        n = f"{len(sats):3d}" if r.random() < 0.7 else r.choice(["   ", " xx", "***"])
        rows = [f"> {r.choice(BAD_DATE3):27s}  {d['eflag']}{n}"]
        if r.random() < 0.2:
            rows = [r.choice([">", "> ", ">garbage", "> bad epoch line"])]
        rows += [s + fields(len(o.types[s[0]])) for s in sats]
    if r.random() < 0.5:
        rows = [x.rstrip() for x in rows]
    return "\n".join(rows) + "\n"


def check(case, rec):
    o = build_obs(case)
    marks = {}
    for k, d in enumerate(case["events"]):
        marks.setdefault(d["at"] % (len(o.epoch_span) + 1), []).append((k, d))
    parts = [o.text[:o.header_end]]
    for i in range(len(o.epoch_span) + 1):
        for k, d in marks.get(i, []):
            r = random.Random(mix(case["salt"], k, 5))
            if d["kind"] == "event":
                t = o.times[min(i, len(o.times) - 1)] if o.times else None
                if d["shift"] and t:
                    t = opt.dt_of(o.t[min(i, len(o.t) - 1)] + d["shift"])
                parts.append(event(o, r, {**d, "timed": d["timed"] and t is not None}, t))
            elif d["kind"] == "blank" and o.v == 2:
                parts.append("\n" * (1 + d["n"]) if r.random() < 0.5 else (" " * 80 + "\n") * (1 + d["n"]))
            else:
                parts.append(unreadable(o, r, d))
            rec.label(f"{d['kind']}{d['flag'] if d['kind'] == 'event' else ''}", f"at {'start' if i == 0 else 'end' if i == len(o.epoch_span) else 'middle'}")
        if i < len(o.epoch_span):
            a, b = o.epoch_span[i]
            parts.append(o.text[a:b])
    text = "".join(parts)
    p = put(rec, text)
    src = stream(text) if case["stream"] else p
    kw, lim, us, names, use = {}, None, None, None, None
    if case["tlim"]:
        kw["tlim"], lim = opt.pick_tlim(o, case["tlim"])
    if case["interval"]:
        kw["interval"], us = opt.pick_interval(case["interval"])
    if case["meas"]:
        kw["meas"], names = opt.pick_meas(o, case["meas"])
    if case["use"]:
        kw["use"], use = opt.pick_use(o, case["use"])
    if case["useind"]:
        kw["useindicators"] = True
    exp = opt.expect(o, use=use, names=names, lim=lim, interval=us, ind=case["useind"])
    times = rec.call(gr.gettime, src)
    require(len(times) == len(o.t) and all(abs(a - b) < 999.95 for a, b in zip(view.times_us(times), o.t)),
            lambda: f"gettime: {len(times)} times {[str(x) for x in times][:12]}, the file's regular epochs are {[str(x) for x in o.times][:12]}")
    ds = rec.call(gr.load, src, fast=False, **kw)
    view.same(exp, view.cells(ds), f"strict {kw}")
    if o.v == 2:
        ds, e = rec.attempt(gr.load, src, fast=True, **kw)
        if e is None:
            view.same(exp, view.cells(ds), f"fast {kw}")
        elif not isinstance(e, IndexError) or fast_guaranteed(text, o.nl, len(o.t)):
            fail(f"fast {kw}: {type(e).__name__}: {e}")
    rec.label(f"v{o.v}", f"options {len(kw)}")
    rec.nontrivial(len(exp) > 3 and bool(case["events"]))


BAD_NAV2 = ["19 13  1  0  0  0.0", "19  1 32  0  0  0.0", "19  1  1 24  0  0.0", "19  1  1  0 60  0.0", "xx  1  1  0  0  0.0", "19 ** **  0  0  0.0", "19  1  1  0  0  x.0", "19  2 30 12  0  0.0", "                   ", "19  1     0  0  0.0"]
BAD_NAV3 = ["2019 13 01 00 00 00", "2019 01 32 00 00 00", "2019 01 01 24 00 00", "2019 01 01 00 60 00", "xxxx 01 01 00 00 00", "2019 ** ** 00 00 00", "2019 02 30 12 00 00", "                   ", "2019 01    00 00 00"]
JUNK = ["garbage", "# a remark", "-----------------------------------------------------------------", "NAN", "COMMENT", "not a record at all, though longer than the line of any record: 12345678901234567890", "*", "G99"]


def check_nav(case, rec):
    """lines and records of unreadable time among the records of a NAV file"""
    o = navmodel.build_nav(case)
    marks: dict = {}
    for k, d in enumerate(case["junk"]):
        marks.setdefault(d["at"] % (len(o.recs) + 1), []).append((k, d))
    parts = [o.text[:o.header_end]]
    for i in range(len(o.recs) + 1):
        for k, d in marks.get(i, []):
            r = random.Random(mix(case["salt"], k, 6))
            kind = d["kind"]
            if kind == "record":
                a, b = o.recs[d["src"] % len(o.recs)]["span"]
                blk = "".join((x or " " * 80) + "\n" for x in o.text[a:b].split("\n")[:-1])  # an empty line ends a RINEX 3 NAV file
                cut, bad = (2, BAD_NAV2) if o.v == 2 else (3, BAD_NAV3)
                nm = blk[:cut] if r.random() < 0.7 else ("99" if o.v == 2 else blk[0] + "99")
                parts.append(f"{nm} {r.choice(bad)}{blk[22 if o.v == 2 else 23:]}")
            elif kind == "blank" and o.v == 2:
                parts.append(("" if r.random() < 0.5 else " " * 80) + "\n")
            elif kind == "blank":
                parts.append(" " * 80 + "\n")
            else:
                parts.append(r.choice(JUNK) + ("\n" if r.random() < 0.7 else " " * 60 + "\n"))
            rec.label(kind, f"at {'start' if i == 0 else 'end' if i == len(o.recs) else 'middle'}")
        if i < len(o.recs):
            a, b = o.recs[i]["span"]
            parts.append(o.text[a:b])
    text = "".join(parts)
    p = put(rec, text, "test0010.19n" if o.v == 2 else "test_MN.rnx")
    src = stream(text) if case["stream"] else p
    kw, keep = {}, lambda r: True
    if case["tlim"] and case["order"] == 0:
        kw["tlim"], lim = opt.pick_tlim(_T(o.times()), case["tlim"])
        keep = lambda r: lim[0] <= r["t"] <= lim[1]
    elif case["use"] and o.v == 3:
        kw["use"] = {sorted({s[0] for s in o.svs})[case["use"] % len({s[0] for s in o.svs})]}
        keep = lambda r: r["sv"][0] in kw["use"]
    exp = o.cells(keep)
    times = view.times_us(rec.call(gr.gettime, src))
    require(len(times) == len(o.times()) and all(abs(a - b) < 1000 for a, b in zip(times, o.times())), lambda: f"gettime: {times[:12]}, the readable records are at {o.times()[:12]}")
    ds = rec.call(gr.load, src, **kw)
    view.same(exp, navmodel.strip_loose(view.cells(ds), o), f"{kw}")
    if not kw:
        require(set(map(str, ds.sv.values.tolist())) == {k[1] for k in exp}, lambda: f"satellites {ds.sv.values.tolist()}")
    rec.label(f"v{o.v}", f"options {len(kw)}")
    rec.nontrivial(len(exp) > 3)


class _T:
    def __init__(self, t):
        self.t = t


def navs(fmt):
    junk = st.lists(st.fixed_dictionaries({"kind": st.sampled_from(["record", "record", "junk", "blank"]), "at": st.integers(0, 8), "src": st.integers(0, 9)}), min_size=1, max_size=4)
    return lambda: content.with_knobs(content.small(fmt), junk=junk, stream=st.booleans(), tlim=st.one_of(st.none(), st.none(), opt.TLIM), use=st.integers(0, 5))


EVENTS = st.lists(st.fixed_dictionaries({
    "kind": st.sampled_from(["event", "event", "event", "unreadable", "unreadable", "blank"]), "at": st.integers(0, 6), "flag": st.sampled_from([2, 3, 4]), "eflag": st.sampled_from([0, 0, 1]),
    "n": st.one_of(st.integers(0, 4), st.integers(0, 10)), "timed": st.booleans(), "shift": st.sampled_from([0, 0, 500_000, -500_000, 7_200_000_000, 86_400_000_000])}), min_size=1, max_size=4)
HDR = st.fixed_dictionaries({"pos": st.sampled_from([1, 0]), "int": st.booleans(), "rx": st.booleans(), "t1": st.booleans(), "order": st.booleans(), "ncomm": st.sampled_from([0, 0, 2])})
KNOBS = dict(events=EVENTS, stream=st.booleans(), tlim=st.one_of(st.none(), st.none(), opt.TLIM), interval=st.one_of(st.none(), st.none(), opt.INTERVAL),
             meas=st.one_of(st.none(), st.none(), st.none(), opt.MEAS), use=st.one_of(st.none(), st.none(), st.none(), opt.USE), useind=st.sampled_from([False, False, True]), )


def files(fmt):
    return lambda: content.with_knobs(content.small(fmt, hdr=HDR, pwr=st.sampled_from([0, 30])), **KNOBS)


RULE = "generated RINEX {} OBS file with 1-4 insertions before, between and after its epochs: event epochs (flags 2-4, 0-10 special records, timed or not), {}whole epochs with unreadable time; non-trivial: more than 3 values expected"
FACETS = [
    Facet("obs2", files("obs2"), check, 900, 15000, rule=RULE.format(2, "blank lines, ")),
    Facet("obs3", files("obs3"), check, 900, 15000, rule=RULE.format(3, "")),
    Facet("nav2", navs("nav2"), check_nav, 300, 5000, rule="generated RINEX 2 NAV file with 1-4 whole records of unreadable time, junk or blank lines between its records; non-trivial: more than 3 values expected"),
    Facet("nav3", navs("nav3"), check_nav, 300, 5000, rule="as nav2 for RINEX 3 NAV"),
]
