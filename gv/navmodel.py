"""Models of navigation and SP3 files (see model.py)."""

from __future__ import annotations

import random
from dataclasses import dataclass, field
from datetime import datetime, timedelta

from .model import US, either, header_line, i2, mix, t_us, within_two_digits

KEPLER = ["Crs", "DeltaN", "M0", "Cuc", "Eccentricity", "Cus", "sqrtA", "Toe", "Cic", "Omega0", "Cis",
          "Io", "Crc", "omega", "OmegaDot", "IDOT"]
CLK = ["SVclockBias", "SVclockDrift", "SVclockDriftRate"]
GLO = ["SVclockBias", "SVrelFreqBias", "MessageFrameTime", "X", "dX", "dX2", "health", "Y", "dY", "dY2", "FreqNum",
       "Z", "dZ", "dZ2", "AgeOpInfo"]
SBAS = GLO[:10] + ["URA"] + GLO[11:14] + ["IODN"]
METRES = {"X", "Y", "Z", "dX", "dY", "dZ", "dX2", "dY2", "dZ2"}

# field names in file order, per system (RINEX 3.04 tables A6-A18); None: a spare that has no name here
FIELDS3 = {
    "G": CLK + ["IODE"] + KEPLER + ["CodesL2", "GPSWeek", "L2Pflag", "SVacc", "health", "TGD", "IODC", "TransTime", "FitIntvl", "spare0", "spare1"],
    "J": CLK + ["IODE"] + KEPLER + ["CodesL2", "GPSWeek", "L2Pflag", "SVacc", "health", "TGD", "IODC", "TransTime", "FitIntvl", "spare0", "spare1"],
    "E": CLK + ["IODnav"] + KEPLER + ["DataSrc", "GALWeek", "spare0", "SISA", "health", "BGDe5a", "BGDe5b", "TransTime", "spare1", "spare2", "spare3"],
    "C": CLK + ["AODE"] + KEPLER + ["spare0", "BDTWeek", "spare1", "SVacc", "SatH1", "TGD1", "TGD2", "TransTime", "AODC", "spare2", "spare3"],
    "I": CLK + ["IODEC"] + KEPLER + ["spare0", "BDTWeek", "spare1", "URA", "health", "TGD", "spare2", "TransTime", "spare3", "spare4", "spare5"],
    "R": GLO,
    "S": SBAS,
}


def layout3(s: str, n: int) -> list[str]:
    """names of the n fields written in a record, for each supported layout of spares"""
    full = FIELDS3[s]
    if s == "E" and n == 27:
        return [f for f in full[:28] if f != "spare0"]
    if s == "C" and n == 27:
        return [f for f in full[:29] if f not in ("spare0", "spare1")]
    if s == "C" and n == 28:
        return [f for f in full[:29] if f != "spare1"]
    return full[:n]


LAYOUTS3 = {"G": [31, 30, 29, 28], "J": [31, 30, 29, 28], "E": [31, 29, 28, 27], "C": [31, 30, 29, 28, 27], "I": [31, 28], "R": [15], "S": [15]}

FIELDS2 = {
    "N": FIELDS3["G"][:29],
    "G": GLO,
    "E": FIELDS3["E"][:28],
}
LAYOUTS2 = {"N": [29, 28, 27], "G": [15, 14], "E": [28]}
NLINES = {"G": 7, "J": 7, "E": 7, "C": 7, "I": 7, "R": 3, "S": 3}


def nav_field(h: int, letter: str = "D") -> str:
    """19 characters D19.12"""
    kind = h & 15
    r = h >> 4
    if kind == 0:
        mant, ex = 0, 0
    elif kind == 1:
        mant, ex = (1 + r % 9) * 10**12, r % 4
    else:
        mant = 10**12 + r % (9 * 10**12)
        ex = (r >> 44) % 22 - 13
    neg = (r >> 50) & 1 and mant
    m = f"{mant:013d}"
    style = (r >> 52) & 3
    letter = letter[(r >> 55) % len(letter)]
    sg = "-" if neg else " "
    if style == 0 and kind > 1:  # 0.dddddddddddd or .dddddddddddd
        s = f"{sg}{'0' if (r >> 54) & 1 else ''}.{m[:12]}{letter}{ex + 1:+03d}"
    else:
        s = f"{sg}{m[0]}.{m[1:]}{letter}{ex:+03d}"
    assert len(s) <= 19, s
    return f"{s:>19s}"


def num(s: str) -> float:
    return float(s.replace("D", "E"))


@dataclass
class Nav:
    v: int
    text: str = ""
    svs: list[str] = field(default_factory=list)
    recs: list[dict] = field(default_factory=list)  # in file order: sv, t, values{name: v}, loose{name}, span
    header_end: int = 0
    hdr: dict = field(default_factory=dict)

    def times(self) -> list[int]:
        return sorted({r["t"] for r in self.recs})

    def cells(self, keep=lambda r: True) -> dict[tuple, float]:
        out = {}
        count: dict = {}
        for r in self.recs:
            if not keep(r):
                continue
            key = (r["sv"], r["t"])
            n = count.get(key, 0)
            count[key] = n + 1
            sv = r["sv"] if n == 0 else f"{r['sv']}_{n}"
            for k, v in r["values"].items():
                out[(r["t"], sv, k)] = v
        return out

    def loose(self) -> set:
        """cells that may read as zero or NaN: an omitted fit interval"""
        out = set()
        count: dict = {}
        for r in self.recs:
            n = count.get((r["sv"], r["t"]), 0)
            count[(r["sv"], r["t"])] = n + 1
            for k in r["loose"]:
                out.add((r["t"], r["sv"] if n == 0 else f"{r['sv']}_{n}", k))
        return out


def strip_loose(got: dict, nav: Nav) -> dict:
    """without the spare fields, and without zeros for omitted fit intervals"""
    ls = nav.loose()
    return {k: v for k, v in got.items() if not k[2].startswith("spare") and not (k in ls and v == 0)}


def record_times(case: dict) -> list[datetime]:
    t = datetime(*case["t0"][:6])
    out = []
    for dt in case["dts"]:
        out.append(t)
        t = t + US * (dt * 100_000)  # tenths of a second
    return within_two_digits(out) if case["v"] == 2 else out


def _schedule(case: dict, rng: random.Random, pool: list[str], times: list[datetime]) -> list[tuple[str, datetime]]:
    pairs = [(s, t) for t in times for s in pool if rng.randrange(100) < case["dens"]]
    if not pairs:
        pairs = [(pool[0], times[0])]
    if case["order"] == 1:
        rng.shuffle(pairs)
    elif case["order"] == 2:
        pairs.sort(key=lambda x: (x[0], x[1]))
    for _ in range(case.get("dups2", 0)):  # RINEX 2 repeats
        pairs.insert(rng.randint(0, len(pairs)), rng.choice(pairs[: case.get("dupsrc", 2)]))
    return pairs


def ion_lines3(rng: random.Random, modes: list[str]) -> tuple[list, dict]:
    L, vals = [], {}
    for m in modes:
        n = 3 if m == "GAL" else 4
        txt = [f"{'-' if rng.random() < .4 else ' '}{rng.randint(1, 9)}.{rng.randint(0, 9999):04d}{rng.choice('DE')}{rng.choice([-9, -8, -7, 4, 5, 0]):+03d}".rjust(12) for _ in range(n)]
        L.append((f"{m:4s} " + "".join(txt), "IONOSPHERIC CORR"))
        vals[m] = [num(x) for x in txt]
    return L, vals


def tsc_lines3(rng: random.Random, modes: list[str]) -> tuple[list, dict]:
    L, vals = [], {}
    for m in modes:
        a0 = f"{rng.uniform(-9.9, 9.9):.10f}D{rng.choice([-8, -9, -10]):+03d}".rjust(17)
        a1 = f"{rng.uniform(-9.9, 9.9):.9f}D{rng.choice([-14, -15]):+03d}".rjust(16)
        T, W = rng.choice([0, 61440, 432000, 503808]), rng.choice([1976, 2105, 511, 1])
        L.append((f"{m:4s} {a0}{a1}{T:7d}{W:5d}", "TIME SYSTEM CORR"))
        vals[m] = [num(a0), num(a1), T, W]
    return L, vals


def build_nav(case: dict) -> Nav:
    return build_nav2(case) if case["v"] == 2 else build_nav3(case)


def build_nav2(case: dict) -> Nav:
    salt = case["salt"]
    rng = random.Random(salt)
    kind = case["kind"]
    s0 = {"N": "G", "G": "R", "E": "E"}[kind]
    lay = case.get("lay", {})
    letter = {2: "DE"}.get(lay.get("E"), "E" if lay.get("E") else "D")
    o = Nav(2)
    ver = case.get("ver", "2.11")
    what = {"N": "N: GPS NAV DATA", "G": "G: GLONASS NAV DATA", "E": "E: Galileo NAV DATA"}[kind]
    if kind == "N" and lay.get("altname"):
        what = "NAVIGATION DATA"
    o.hdr["version"] = float(ver)
    body = [(f"{'pgm':20s}{'run by':20s}{'20190101':20s}", "PGM / RUN BY / DATE")]
    h = case.get("hdr", {})
    if h.get("ion"):
        al = [f"{rng.uniform(-9, 9):.{rng.choice([4, 4, 5])}f}D{rng.choice([-8, -7]):+03d}".rjust(12) for _ in range(4)]
        be = [f"{rng.uniform(-9, 9):.{rng.choice([4, 4, 5])}f}D{rng.choice([4, 5]):+03d}".rjust(12) for _ in range(4)]
        body.append(("  " + "".join(al), "ION ALPHA"))
        if h["ion"] != 2:
            body.append(("  " + "".join(be), "ION BETA"))
            o.hdr["ion"] = [num(x) for x in al + be]
    if h.get("leap"):
        body.append((f"{18:6d}", "LEAP SECONDS"))
    for _ in range(h.get("ncomm", 0)):
        body.append((rng.choice(["a comment", "", "1 2 3"]), "COMMENT"))
    o.hdr["records"] = body
    L = [header_line(f"{ver:>9s}{'':11s}{what:20s}{'':20s}", "RINEX VERSION / TYPE")]
    L += [header_line(c, lb) for c, lb in body] + [header_line("", "END OF HEADER")]
    if lay.get("trimhdr"):
        L = [x.rstrip() for x in L]
    out = ["\n".join(L) + "\n"]
    pos = o.header_end = len(out[0])
    nums = rng.sample(range(1, 100 if case.get("wide") else 37), case["npool"])
    pool = [f"{s0}{k:02d}" for k in nums]
    times = record_times(case)
    full = FIELDS2[kind]
    for i, (sv, t) in enumerate(_schedule(case, rng, pool, times)):
        r = random.Random(mix(salt, i, 3))
        n = LAYOUTS2[kind][r.choice(case.get("omit") or [0]) % len(LAYOUTS2[kind])]
        txt = [nav_field(mix(salt, i, k), letter) for k in range(n)]
        vals = {}
        for k in range(n):
            if full[k].startswith("spare"):
                continue
            v = num(txt[k])
            vals[full[k]] = v * 1e3 if kind == "G" and full[k] in METRES else v
        if kind == "E" and lay.get("spare", 0) == 0:  # spare of orbit 5 not written
            txt[22] = " " * 19
        elif kind == "E" and lay.get("spare") == 1:
            txt[22] = nav_field(0, letter)
        sec = f"{t.second + t.microsecond / 1e6:5.1f}"
        z = bool(lay.get("zero"))
        nm = sv[1:] if not (sv[1] == "0" and either(lay.get("blankdigit", 1), salt, i, sv)) else " " + sv[2]
        if z:
            sec = f"{t.second:02d}.{t.microsecond // 100000}".rjust(5)
        rows = [f"{nm} {t.year % 100:02d} {i2(t.month, z)} {i2(t.day, z)} {i2(t.hour, z)} {i2(t.minute, z)}{sec}" + "".join(txt[:3])]
        for k in range(3, 3 + 4 * NLINES[s0], 4):
            rows.append("   " + "".join(txt[k:k + 4]))
        if lay.get("trim", 1):
            rows = [x.rstrip() for x in rows]
        else:
            rows = [f"{x:80s}" for x in rows]
        blk = "\n".join(rows) + "\n"
        o.recs.append({"sv": sv, "t": t_us(t), "values": vals, "loose": [], "span": (pos, pos + len(blk))})
        out.append(blk)
        pos += len(blk)
    o.text = "".join(out)
    o.svs = sorted({r["sv"] for r in o.recs})
    return o


def build_nav3(case: dict) -> Nav:
    salt = case["salt"]
    rng = random.Random(salt)
    systems = case["systems"]
    lay = case.get("lay", {})
    letter = {2: "DE"}.get(lay.get("E"), "E" if lay.get("E") else "D")
    o = Nav(3)
    ver = case.get("ver", "3.03")
    o.hdr["version"] = float(ver)
    sysl = systems[0] if len(systems) == 1 else "M"
    body = [(f"{'pgm':20s}{'run by':20s}{'20190101 000000 UTC':20s}", "PGM / RUN BY / DATE")]
    h = case.get("hdr", {})
    if h.get("ion"):
        l, o.hdr["ion"] = ion_lines3(rng, h["ion"])
        body += l
    if h.get("tsc"):
        l, o.hdr["tsc"] = tsc_lines3(rng, h["tsc"])
        body += l
    if h.get("leap"):
        body.append((f"{18:6d}{18:6d}{1929:6d}{7:6d}", "LEAP SECONDS"))
    for _ in range(h.get("ncomm", 0)):
        body.append((rng.choice(["a comment", "", "1 2 3"]), "COMMENT"))
    o.hdr["records"] = body
    o.hdr["letter"] = sysl
    L = [header_line(f"{ver:>9s}{'':11s}{'N: GNSS NAV DATA':20s}{sysl:1s}{'':19s}", "RINEX VERSION / TYPE")]
    L += [header_line(c, lb) for c, lb in body] + [header_line("", "END OF HEADER")]
    if lay.get("trimhdr"):
        L = [x.rstrip() for x in L]
    out = ["\n".join(L) + "\n"]
    pos = o.header_end = len(out[0])
    pool: list[str] = []
    hi = 99 if case.get("wide") else 36
    order = list(systems)
    while len(pool) < case["npool"]:
        s = order.pop(0) if order else rng.choice(systems)
        sv = f"{s}{rng.randint(1, hi):02d}"
        if sv not in pool:
            pool.append(sv)
    times = [t.replace(microsecond=0) for t in record_times(case)]
    times = sorted(set(times))
    pairs = _schedule(case, rng, pool, times)
    # repeated records of one satellite at the same time
    for k in range(case.get("dups", 0)):
        pairs.insert(rng.randint(0, len(pairs)), rng.choice(pairs[: max(1, case.get("dupsrc", len(pairs)))]))
    per_sv = {}
    for i, (sv, t) in enumerate(pairs):
        r = random.Random(mix(salt, i, 3))
        s = sv[0]
        ls = LAYOUTS3[s]
        key = (i if case.get("laymix") else sv if case.get("laysv") else s)
        n = per_sv.setdefault((key, s), random.Random(mix(salt, case.get("layknob", 0), len(per_sv))).choice(ls))
        names = layout3(s, n)
        txt = [nav_field(mix(salt, i, k), letter) for k in range(n)]
        blanks = case.get("blank", 0)
        for k in range(3, n - 1):
            if s in "EC" and names[k] in ("IDOT", "DataSrc", "GALWeek", "BDTWeek", "spare0", "spare1"):
                continue  # a blank here is one of the layouts of spares
            if mix(salt, i, k, 9) % 100 < blanks:
                txt[k] = " " * 19
        field_of = dict(zip(names, txt))
        vals = {}
        for k, f in enumerate(names):
            if f.startswith("spare"):
                continue
            v = num(txt[k]) if txt[k].strip() else 0.0
            vals[f] = v * 1e3 if s in "RS" and f in METRES else v
        loose = ["FitIntvl"] if s in "GJ" and n == 28 else []
        nm = s + " " + sv[2] if sv[1] == "0" and either(lay.get("blankdigit"), salt, i, sv) else sv
        z = bool(lay.get("zero", 1))
        rows = [f"{nm} {t.year:4d} {i2(t.month, z)} {i2(t.day, z)} {i2(t.hour, z)} {i2(t.minute, z)} {i2(t.second, z)}" + "".join(txt[:3])]
        full = FIELDS3[s]
        for k in range(3, 3 + 4 * NLINES[s], 4):
            rows.append("    " + "".join(field_of[f] for f in full[k:k + 4] if f in field_of))
        if lay.get("trim"):
            rows = [x.rstrip() for x in rows]
        else:
            rows = [x if s == "C" and n == 27 and q == 5 else f"{x:80s}" for q, x in enumerate(rows)]
        blk = "\n".join(rows) + "\n"
        o.recs.append({"sv": sv, "t": t_us(t), "values": vals, "loose": loose, "span": (pos, pos + len(blk)), "n": n})
        out.append(blk)
        pos += len(blk)
    o.text = "".join(out)
    o.svs = sorted({r["sv"] for r in o.recs})
    return o


# ------------------------------------------------------------------ SP3
@dataclass
class SP3:
    text: str = ""
    svs: list[str] = field(default_factory=list)
    times: list[int] = field(default_factory=list)
    pos: dict[tuple, float] = field(default_factory=dict)  # (t, sv, axis) -> km
    vel: dict[tuple, float] = field(default_factory=dict)
    clk: dict[tuple, float] = field(default_factory=dict)
    dclk: dict[tuple, float] = field(default_factory=dict)
    hdr: dict = field(default_factory=dict)


def f14(h: int, big: bool = True) -> str:
    kind = h & 15
    r = h >> 4
    if kind == 0:
        v = 0
    elif kind == 1:
        v = 999_999_999_999  # missing clock
    elif kind < 4:
        v = r % 1_000_000
    elif kind == 4:  # fills all columns
        v = 1_000_000_000_000 + r % 8_999_999_999_999 if (r >> 41) & 1 else -(100_000_000_000 + r % 899_999_999_999)
        r = 0
    else:
        v = r % 45_000_000_000
    if (r >> 40) & 1 and v not in (0, 999_999_999_999):
        v = -v
    a = abs(v)
    return f"{'-' if v < 0 else ''}{a // 10**6}.{a % 10**6:06d}".rjust(14)


def build_sp3(case: dict) -> SP3:
    salt = case["salt"]
    rng = random.Random(salt)
    o = SP3()
    kind = case["kind"]  # a c d
    n = case["nsv"]
    if kind == "a" and case.get("blankid", True):
        ids = [f"{'':1s}{k:2d}" for k in rng.sample(range(1, 100), min(n, 85))]
    else:
        allid = [f"{s}{k:02d}" for s in "GRECJIL" for k in range(1, 100)]
        ids = rng.sample(allid, n if kind == "d" else min(n, 85))
        if case.get("blankdigit"):
            ids = [x[0] + " " + x[2] if x[1] == "0" else x for x in ids]
    if case.get("sorted"):
        ids.sort()
    n = len(ids)
    names = [x.replace(" ", "") for x in ids]
    o.svs = names
    times = []
    t = datetime(*case["t0"][:6]) + US * case["t0"][6]
    for dt, *_ in case["ep"]:
        times.append(t)
        t = t + US * dt
    o.times = [t_us(x) for x in times]

    def tt(t, sixty=False):
        fr = f"{t.microsecond:06d}00"
        forms = []  # other ways to write the same time
        if t.second == 0:
            u = t - timedelta(minutes=1)
            forms.append(f"{u.year:4d} {u.month:2d} {u.day:2d} {u.hour:2d} {u.minute:2d} 60.{fr}")
            if t.minute == 0:
                u = t - timedelta(hours=1)
                forms.append(f"{u.year:4d} {u.month:2d} {u.day:2d} {u.hour:2d} 60  0.{fr}")
                forms.append(f"{u.year:4d} {u.month:2d} {u.day:2d} {u.hour:2d} 59 60.{fr}")
        if t.hour == 0:
            u = t - timedelta(days=1)
            forms.append(f"{u.year:4d} {u.month:2d} {u.day:2d} 24 {t.minute:2d} {t.second:2d}.{fr}")
        if sixty and forms:
            return forms[mix(salt, t_us(t)) % len(forms)]
        return f"{t.year:4d} {t.month:2d} {t.day:2d} {t.hour:2d} {t.minute:2d} {t.second:2d}.{fr}"

    vel = case["vel"]
    # the number of epochs of the header is not always that of the file
    o.hdr = {"Nepoch": len(times) + (case.get("nep") or 0), "coord_sys": rng.choice(["IGS14", "ITR97", "WGS84", "IGb08", "WGS72", " WGS "]), "orbit_type": rng.choice(["HLM", "FIT", "EXT", "BCT", "BHN"]),
             "agency": rng.choice([" IGS", "ESOC", "COD ", "  AC", " NGS", "GFZ"]), "t0": o.times[0]}
    L = [f"#{kind}{'V' if vel else 'P'}{tt(times[0])} {o.hdr['Nepoch']:7d} {'ORBIT':>5s} {o.hdr['coord_sys']} {o.hdr['orbit_type']} {o.hdr['agency']}",
         "## 1936 172800.00000000   900.00000000 57798 0.0000000000000"]
    pad = 17 * max(5, (n + 16) // 17)
    idl = ids + ["  0"] * (pad - n)
    for k in range(0, pad, 17):
        head = f"+  {n:3d}   " if k == 0 else "+        "
        L.append(head + "".join(idl[k:k + 17]))
    for k in range(0, pad, 17):
        L.append("++       " + "".join(f"{rng.randint(0, 12):3d}" for _ in range(17)))
    L += ["%c G  cc GPS ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc"] * 2
    L += ["%f  1.2500000  1.025000000  0.00000000000  0.000000000000000"] * 2
    L += ["%i    0    0    0    0      0      0      0      0         0"] * 2
    for _ in range(case.get("ncomm", 4)):
        L.append("/* " + rng.choice(["PCV:IGS14", "", "a comment * here", "CCCCCCCC"]))
    for ei, (t, e) in enumerate(zip(times, case["ep"])):
        er = random.Random(mix(salt, ei, 5))
        L.append("*  " + tt(t, case.get("sixty") and ei > 0))
        here = [k for k in range(n) if er.randrange(100) < case["dens"]]
        if case.get("shuffle"):
            er.shuffle(here)
        foreign = [x for x in ("  0", "X01", "G00", f"{ids[0][0]}  ", "J9 ") if x.replace(" ", "") not in names] if case.get("foreign") else []
        for k in here:
            if foreign and er.random() < 0.3:  # a record of a satellite that the header does not list
                u = er.choice(foreign)
                L.append(f"P{u}" + "".join(f14(mix(salt, ei, 999, q)) for q in range(4)))
                if vel:
                    L.append(f"V{u}" + "".join(f14(mix(salt, ei, 998, q)) for q in range(4)))
            x = [f14(mix(salt, ei, k, q)) for q in range(8)]
            tail = er.choice(["", "  7  6  8 122", "  7  6  8 122 E"]) if kind != "a" else ""
            L.append(f"P{ids[k]}" + "".join(x[:4]) + tail)
            for q, ax in enumerate("xyz"):
                o.pos[(o.times[ei], names[k], ax)] = float(x[q])
            o.clk[(o.times[ei], names[k])] = float(x[3])
            if case.get("extra") and kind != "a":
                L.append(f"EP  55  55  55     222  1234567 -1234567  5999999      -30       21 -1230000")
            if vel == 1 or (vel == 2 and er.random() < 0.6):
                L.append(f"V{ids[k]}" + "".join(x[4:8]))
                for q, ax in enumerate("xyz"):
                    o.vel[(o.times[ei], names[k], ax)] = float(x[4 + q])
                o.dclk[(o.times[ei], names[k])] = float(x[7])
    if case.get("eof", 1):
        L.append("EOF")
    if case.get("pad"):
        L = [f"{x:80s}" for x in L]
    o.text = "\n".join(L) + ("\n" if case.get("nl", 1) else "")
    return o
