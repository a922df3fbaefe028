"""Models of the file formats: structural knobs -> file text and expected content.

Nothing here uses georinex.  Numbers in a file are a pure function of (salt, epoch,
satellite, type); expected values are float() of the characters written in the field.
"""

from __future__ import annotations

import math
import random
from dataclasses import dataclass, field
from datetime import datetime, timedelta

M64 = (1 << 64) - 1
# receiver clock offsets of one file
OFFSETS2 = [["-0.123456789", " 0.000000001", " 0.999999999"], [" 0.000000000"], ["-0.000000021", " 0.000000000"]]
OFFSETS3 = [["-0.123456789012", " 0.000000000001", " 0.999999999999", "-0.000000654321"], [" 0.000000000000"], ["-0.000000000021", " 0.000000000000"], ["-0.000000000021", ""],
            [f"{k * 7919 % 2000003 / 1e6 - 1:15.12f}" for k in range(1, 40)]]
EPOCH = datetime(1970, 1, 1)
US = timedelta(microseconds=1)


def mix(*xs: int) -> int:
    h = 0x9E3779B97F4A7C15
    for x in xs:
        h = (h ^ (x & M64)) * 0xBF58476D1CE4E5B9 & M64
        h ^= h >> 29
        h = h * 0x94D049BB133111EB & M64
        h ^= h >> 32
    return h


def t_us(t: datetime) -> int:
    return (t - EPOCH) // US


def header_line(content: str, label: str, trim: bool = False) -> str:
    assert len(content) <= 60, content
    ln = f"{content:60s}{label:20s}"
    return ln.rstrip() if trim else ln


# ------------------------------------------------------------------ OBS values
def obs_field(h: int) -> str:
    """14-character F14.3 field, or blank handled by the caller"""
    kind = h & 31
    r = h >> 5
    if kind < 14:
        v = 18_000_000_000 + r % 10_000_000_000
    elif kind < 18:
        v = -(r % 900_000_000_000)
    elif kind < 20:
        v = r % 100_000_000_000_00  # up to 9 999 999 999.999 +
        v %= 9_999_999_999_999
    elif kind == 20:
        v = 9_000_000_000_000 + r % 999_999_999_999  # fills all 14 characters
    elif kind == 21:
        v = -(900_000_000_000 + r % 99_999_999_999)  # fills all 14 with the sign
    elif kind == 22:
        v = 0
    elif kind == 23:
        v = r % 1000
    elif kind == 24:
        v = -(r % 1000)
    elif kind < 28:
        v = 20_000 + r % 40_000
    else:
        v = r % 8_000_000
        v = -v if r & 1 else v
    a = abs(v)
    s = f"{'-' if v < 0 else ''}{a // 1000}.{a % 1000:03d}"
    if a < 1000 and r & 2:  # written without the leading zero, e.g. -.353
        s = f"{'-' if v < 0 else ''}.{a % 1000:03d}"
    assert len(s) <= 14, s
    return f"{s:>14s}"


SYS2 = ["G", "R", "E", "S", "C", "J"]
SYS3 = ["G", "R", "E", "C", "J", "I", "S"]
TYPES2 = [a + b for b in "12578" for a in "CLPDST"] + ["C6", "L6", "D6", "S3", "C3", "L3"]
ATTR = "CSLXPWYMNIQABZ"
TYPES3 = [a + b + c for b in "1257689" for c in "CXWQI" for a in "CLDS"] + ["L3Q", "C3X", "C1P", "L1P", "X1 ".strip()[:2] + "C"]


def make_types(rng: random.Random, n: int, names: list[str], core: list[str]) -> list[str]:
    """n distinct names, the common ones likely, in random order"""
    core = [c for c in core if rng.random() < 0.6]
    rest = [x for x in names if x not in core]
    rng.shuffle(rest)
    out = (core + rest)[:n]
    rng.shuffle(out)
    return out


def make_pool(rng: random.Random, systems: list[str], n: int, wide: bool) -> list[str]:
    out: list[str] = []
    seen = set()
    hi = 99 if wide else 36
    # every system appears if there is room
    order = list(systems)
    while len(out) < n:
        s = order.pop(0) if order else rng.choice(systems)
        for _ in range(200):
            k = rng.choice([1, 9, 10, hi, rng.randint(1, hi), rng.randint(1, hi), rng.randint(1, hi)])
            if (s, k) not in seen:
                break
        else:
            break
        seen.add((s, k))
        out.append(f"{s}{k:02d}")
    return out


@dataclass
class Obs:
    """an observation file"""

    v: int
    text: str = ""
    systems: str = "M"
    types: dict[str, list[str]] = field(default_factory=dict)  # per system
    svs: list[str] = field(default_factory=list)
    times: list[datetime] = field(default_factory=list)
    # (t_us, sv, type) -> value / digit
    cells: dict[tuple, float] = field(default_factory=dict)
    lli: dict[tuple, float] = field(default_factory=dict)
    ssi: dict[tuple, float] = field(default_factory=dict)
    epoch_sats: list[list[str]] = field(default_factory=list)
    epoch_span: list[tuple[int, int]] = field(default_factory=list)  # character offsets in text
    header_end: int = 0
    nl: int = 1  # lines per satellite (v2)
    hdr: dict = field(default_factory=dict)  # what the header states

    @property
    def t(self) -> list[int]:
        return [t_us(x) for x in self.times]

    def all_types(self) -> set[str]:
        return {x for ts in self.types.values() for x in ts}

    def indicator_cells(self) -> dict[tuple, float]:
        """what useindicators adds, by the documented rule"""
        out = {}
        for (t, s, k), d in self.lli.items():
            if (k in ("L1", "L2", "L5")) if self.v == 2 else k.startswith(("L1", "L2")):
                out[(t, s, k + "lli")] = d
        for (t, s, k), d in self.ssi.items():
            if self.v == 3 or not k.startswith("S"):
                out[(t, s, k + "ssi")] = d
        return out


def sec_text(t: datetime, zero: bool, width: int = 11, digits: int = 7) -> str:
    us = t.microsecond
    frac = f"{us:06d}0"[:digits]
    s = f"{t.second:02d}" if zero else f"{t.second:d}"
    return f"{s}.{frac}".rjust(width)


def i2(n: int, zero: bool) -> str:
    return f"{n:02d}" if zero else f"{n:2d}"


def epoch_times(case: dict) -> list[datetime]:
    t = datetime(*case["t0"][:6]) + US * case["t0"][6]
    out = []
    for dt_us, _ in case["ep"]:
        out.append(t)
        t = t + US * dt_us
    return within_two_digits(out) if case["v"] == 2 else out


def within_two_digits(times: list[datetime]) -> list[datetime]:
    """whole days earlier, if need be, so that two-digit years tell them all: 1980 to 2079"""
    over = (max(times) - datetime(2079, 12, 31)).days
    return [t - US * 86_400_000_000 * over for t in times] if over > 0 else times


def header_facts(rng: random.Random, case: dict, times: list[datetime], systems: str) -> dict:
    """optional header content; case['hdr'] maps fact -> mode"""
    h = case["hdr"]
    f: dict = {}
    if h.get("pos") == 1:
        # a place near the surface of the Earth, or in orbit
        lat, lon = math.asin(rng.uniform(-1, 1)), rng.uniform(-math.pi, math.pi)
        alt = rng.choice([0.0, rng.uniform(-100, 9000), rng.uniform(-100, 9000), rng.uniform(3e5, 2e6)])
        special = mix(case["salt"], 4242) % 8
        if special == 0:  # on the equator, on a meridian through an axis
            lat = 0.0
        if special in (0, 1):
            lon = [0.0, 0.5, 1.0, -0.5][mix(case["salt"], 4243) % 4] * math.pi
        e2 = 0.0066943799901413165
        n = 6378137.0 / math.sqrt(1 - e2 * math.sin(lat) ** 2)
        x = [(n + alt) * math.cos(lat) * math.cos(lon), (n + alt) * math.cos(lat) * math.sin(lon), (n * (1 - e2) + alt) * math.sin(lat)]
        x = [0.0 if abs(v) < 1e-4 else v for v in x]
        f["pos_text"] = "".join(f"{v:14.4f}" for v in x)
        f["pos"] = [float(f"{v:14.4f}") for v in x]
    elif h.get("pos") == 2:
        f["pos_text"] = ""
    elif h.get("pos") == 3:
        f["pos_text"] = "".join(f"{0:14.4f}" for _ in range(3))
        f["pos"] = [0.0, 0.0, 0.0]
    if h.get("int"):
        f["int"] = rng.choice([1.0, 30.0, 15.0, 0.5, 0.05, 3600.0, 5.0, 0.2, 0.005, 12.345, 0.033])
    if h.get("rx"):
        f["rx"] = rng.choice(["TRIMBLE NETR9", "LEICA GR25", "ASHTECH", "JAVAD TRE_G3TH DELTA"])
    if h.get("t1"):
        f["t1"] = times[-1] if times else datetime(*case["t0"][:6])
    if h.get("t0", 1) or systems == "M":
        f["t0"] = times[0] if times else datetime(*case["t0"][:6])
        ts = {"G": "GPS", "R": "GLO", "E": "GAL", "J": "QZS", "C": "BDT", "I": "IRN", "S": "GPS"}
        f["ts"] = ts[systems] if systems in ts else rng.choice(["GPS", "GLO", "GAL", "BDT", "QZS"][: 5 if case["v"] == 3 else 3])
    return f


def _hdr_time(t: datetime, ts: str) -> str:
    # 5I6, F13.7, 5X, A3
    return f"{t.year:6d}{t.month:6d}{t.day:6d}{t.hour:6d}{t.minute:6d}{sec_text(t, False, 13)}     {ts}"


COMMENT_TEXT = ["teqc  2019Feb25     GFZ", "written for a test", "  2  3  5.000  G01G02", "END OF FILE NOT HERE", "-----", ""]


def build_obs(case: dict) -> Obs:
    return build_obs2(case) if case["v"] == 2 else build_obs3(case)


def _optional_header(case: dict, facts: dict, v: int) -> list[tuple[str, str]]:
    L: list[tuple[str, str]] = []
    if "pos_text" in facts:
        L.append((facts["pos_text"], "APPROX POSITION XYZ"))
    if "rx" in facts or v == 3:
        L.append((f"{'12345':20s}{facts.get('rx', 'RCV'):20s}{'1.0-5':20s}", "REC # / TYPE / VERS"))
    L.append((f"{'MARKER':60s}", "MARKER NAME"))
    L.append((f"{'0.0000':>14s}{'0.0000':>14s}{'0.0000':>14s}", "ANTENNA: DELTA H/E/N"))
    if "int" in facts:
        L.append((f"{facts['int']:10.3f}", "INTERVAL"))
    if "t0" in facts:
        L.append((_hdr_time(facts["t0"], facts["ts"]), "TIME OF FIRST OBS"))
    if "t1" in facts:
        L.append((_hdr_time(facts["t1"], facts.get("ts", "GPS")), "TIME OF LAST OBS"))
    return L


def type_lines2(types: list[str]) -> list[tuple[str, str]]:
    out = []
    for i in range(0, len(types), 9):
        head = f"{len(types):6d}" if i == 0 else " " * 6
        out.append((head + "".join(f"{t:>6s}" for t in types[i:i + 9]), "# / TYPES OF OBSERV"))
    return out


def either(knob, *key) -> bool:
    """a knob of the layout: off, on, or 2 for on here and off there"""
    return bool(mix(*[k if isinstance(k, int) else sum(map(ord, k)) for k in key], 31) >> 9 & 1) if knob == 2 else bool(knob)


def build_obs2(case: dict) -> Obs:
    salt = case["salt"]
    rng = random.Random(salt)
    o = Obs(v=2)
    letter = case["sys"]
    base = "G" if letter == " " else letter
    o.systems = base
    syslist = case.get("sysset") or (["G", "R", "E"] if base == "M" else [base])
    if base != "M":
        syslist = [base]
    types = make_types(rng, case["ntypes"], TYPES2, ["C1", "L1", "L2", "P2", "S1", "S2", "L5"])
    o.types = {s: types for s in SYS2}
    pool = make_pool(rng, syslist, case["npool"], case.get("wide", False))
    o.times = epoch_times(case)
    o.nl = (len(types) + 4) // 5
    lay = case.get("lay", {})
    zero = bool(lay.get("zero"))
    trim = lay.get("trim", 0)  # 0 pad to 80, 1 rstrip all, 2 mixed
    facts = header_facts(rng, case, o.times, base)
    o.hdr = facts
    ver = case.get("ver", "2.11")
    o.hdr["version"] = float(ver)
    L = [header_line(f"{ver:>9s}{'':11s}{'OBSERVATION DATA':20s}{letter:1s}{'':19s}", "RINEX VERSION / TYPE")]
    body = [(f"{'pgm':20s}{'run by':20s}{'20190101':20s}", "PGM / RUN BY / DATE")]
    opt = _optional_header(case, facts, 2)
    tl = type_lines2(types)
    if case["hdr"].get("wave"):
        body.append((f"{1:6d}{1:6d}", "WAVELENGTH FACT L1/2"))
    if case["hdr"].get("nsats"):
        body.append((f"{len(pool):6d}", "# OF SATELLITES"))
        o.hdr["nsats"] = len(pool)
    for _ in range(case["hdr"].get("ncomm", 0)):
        body.append((rng.choice(COMMENT_TEXT), "COMMENT"))
    if case["hdr"].get("order"):
        mid = opt + body[1:]
        rng.shuffle(mid)
        k = rng.randint(0, len(mid))
        body = body[:1] + mid[:k] + tl + mid[k:]
    else:
        body = body + opt[:-1] + tl + opt[-1:]
    o.hdr["records"] = body
    L += [header_line(c, lb) for c, lb in body]
    L.append(header_line("", "END OF HEADER"))
    if lay.get("trimhdr"):
        L = [x.rstrip() for x in L]
    out = ["\n".join(L) + "\n"]
    pos = len(out[0])
    o.header_end = pos
    dens, ind = case.get("dens", 90), case.get("ind", 0)
    stray = case.get("stray", 0)
    for ei, ((_, nsat), t) in enumerate(zip(case["ep"], o.times)):
        er = random.Random(mix(salt, ei, 77))
        sats = er.sample(pool, min(nsat, len(pool)))
        o.epoch_sats.append(sats)
        names = []
        for s in sats:
            nm = s
            if s[1] == "0" and either(lay.get("blankdigit"), salt, ei, s):
                nm = s[0] + " " + s[2]
            if s[0] == "G" and either(lay.get("blanksys"), salt, s, ei):
                nm = " " + nm[1:]
            names.append(nm)
        flag = 1 if er.random() < case.get("pwr", 0) / 100 else 0
        head = (f" {i2(t.year % 100, True)} {i2(t.month, zero)} {i2(t.day, zero)} {i2(t.hour, zero)} "
                f"{i2(t.minute, zero)}{sec_text(t, zero)}  {flag:1d}{len(sats):3d}")
        rows = [head + "".join(names[:12])]
        for k in range(12, len(names), 12):
            rows.append(" " * 32 + "".join(names[k:k + 12]))
        if case.get("clk"):
            rows[0] = f"{rows[0]:68s}{er.choice(OFFSETS2[mix(salt, 77) % len(OFFSETS2)])}"
        for s in sats:
            si = pool.index(s)
            flds = []
            for ti, k in enumerate(types):
                h = mix(salt, ei, si, ti)
                key = (t_us(t), s, k)
                if h % 100 < dens:
                    f14 = obs_field(h >> 7)
                    o.cells[key] = float(f14)
                    g = mix(h, 5)
                    l, sg = " ", " "
                    if g % 100 < ind:
                        l = str((g >> 8) % 8)
                        o.lli[key] = float(l)
                    if (g >> 16) % 100 < ind:
                        sg = str((g >> 24) % 10)
                        o.ssi[key] = float(sg)
                    flds.append(f14 + l + sg)
                elif stray and mix(h, 9) % 100 < stray:  # indicator without a value
                    g = mix(h, 11)
                    l = str(g % 8)
                    o.lli[key] = float(l)
                    flds.append(" " * 14 + l + " ")
                else:
                    flds.append(" " * 16)
            for k in range(0, len(flds), 5):
                rows.append(f"{''.join(flds[k:k + 5]):80s}")
        if trim == 1 or (trim == 2 and er.random() < 0.5):
            rows = [x.rstrip() for x in rows]
        elif trim == 2:
            rows = [x.rstrip() if er.random() < 0.5 else x for x in rows]
        else:
            rows = [f"{x:80s}" for x in rows]
        blk = "\n".join(rows) + "\n"
        out.append(blk)
        o.epoch_span.append((pos, pos + len(blk)))
        pos += len(blk)
    o.text = "".join(out)
    o.svs = sorted({s for e in o.epoch_sats for s in e})
    return o


def type_lines3(sys: str, types: list[str]) -> list[tuple[str, str]]:
    out = []
    for i in range(0, len(types), 13):
        head = f"{sys:1s}  {len(types):3d}" if i == 0 else " " * 6
        out.append((head + "".join(f" {t:3s}" for t in types[i:i + 13]), "SYS / # / OBS TYPES"))
    return out


def build_obs3(case: dict) -> Obs:
    salt = case["salt"]
    rng = random.Random(salt)
    o = Obs(v=3)
    base = case["sys"]
    o.systems = base
    syslist = [base] if base != "M" else list(case["sysset"])
    ntypes = case["ntypes"]  # list, cycled over the systems
    share = rng.sample(TYPES3, len(TYPES3))
    for i, s in enumerate(syslist):
        n = ntypes[(i + salt // 8) % len(ntypes)]
        if case.get("share"):  # systems share most codes, at different positions
            ts = share[: n + 2]
            rng.shuffle(ts)
            o.types[s] = ts[:n]
        else:
            o.types[s] = make_types(rng, n, TYPES3, ["C1C", "L1C", "S1C", "D1C", "L2W", "C5X"])
    declared = dict(o.types)
    if case.get("unused") and base == "M":  # a declared system without satellites
        extra = [s for s in SYS3 if s not in syslist]
        if extra:
            declared[extra[0]] = make_types(rng, 1 + case["unused"] % 20, TYPES3, ["C1C"])
    pool = make_pool(rng, syslist, case["npool"], case.get("wide", False))
    o.times = epoch_times(case)
    lay = case.get("lay", {})
    zero = bool(lay.get("zero", 1))
    trim = lay.get("trim", 0)
    facts = header_facts(rng, case, o.times, base)
    o.hdr = facts
    ver = case.get("ver", "3.03")
    o.hdr["version"] = float(ver)
    L = [header_line(f"{ver:>9s}{'':11s}{'OBSERVATION DATA':20s}{base:1s}{'':19s}", "RINEX VERSION / TYPE")]
    body = [(f"{'pgm':20s}{'run by':20s}{'20190101 000000 UTC':20s}", "PGM / RUN BY / DATE")]
    opt = _optional_header(case, facts, 3)
    if case["hdr"].get("rcvclk") is not None:
        opt.append((f"{case['hdr']['rcvclk']:6d}", "RCV CLOCK OFFS APPL"))
        o.hdr["rcvclk"] = case["hdr"]["rcvclk"]
    tl = []
    order = list(declared)
    if case["hdr"].get("order"):
        rng.shuffle(order)
    for s in order:
        tl += type_lines3(s, declared[s])
    for _ in range(case["hdr"].get("ncomm", 0)):
        body.append((rng.choice(COMMENT_TEXT), "COMMENT"))
    if case["hdr"].get("order"):
        mid = opt + body[1:]
        rng.shuffle(mid)
        k = rng.randint(0, len(mid))
        body = body[:1] + mid[:k] + tl + mid[k:]
    else:
        body = body + opt[:-1] + tl + opt[-1:]
    o.hdr["records"] = body
    o.hdr["declared"] = declared
    L += [header_line(c, lb) for c, lb in body]
    L.append(header_line("", "END OF HEADER"))
    if lay.get("trimhdr"):
        L = [x.rstrip() for x in L]
    out = ["\n".join(L) + "\n"]
    pos = len(out[0])
    o.header_end = pos
    dens, ind = case.get("dens", 90), case.get("ind", 0)
    stray = case.get("stray", 0)
    fmax = max(len(x) for x in declared.values())
    o.hdr["offsets"] = []
    for ei, ((_, nsat), t) in enumerate(zip(case["ep"], o.times)):
        er = random.Random(mix(salt, ei, 77))
        sats = er.sample(pool, min(nsat, len(pool)))
        o.epoch_sats.append(sats)
        flag = 1 if er.random() < case.get("pwr", 0) / 100 else 0
        head = (f"> {t.year:4d} {i2(t.month, zero)} {i2(t.day, zero)} {i2(t.hour, zero)} "
                f"{i2(t.minute, zero)}{sec_text(t, zero)}  {flag:1d}{len(sats):3d}")
        if case.get("clk"):
            off = er.choice(OFFSETS3[mix(salt, 77) % len(OFFSETS3)])
            head = f"{head:41s}{off}"
            if off:
                o.hdr["offsets"].append((t_us(t), float(off)))
        rows = [head]
        for s in sats:
            si = pool.index(s)
            nm = s[0] + " " + s[2] if s[1] == "0" and either(lay.get("blankdigit"), salt, ei, s) else s
            row = nm
            empty = er.random() < case.get("empty", 0) / 100
            for ti, k in enumerate(o.types[s[0]]):
                h = mix(salt, ei, si, ti)
                key = (t_us(t), s, k)
                if h % 100 < dens and not empty:
                    f14 = obs_field(h >> 7)
                    o.cells[key] = float(f14)
                    g = mix(h, 5)
                    l, sg = " ", " "
                    if g % 100 < ind:
                        l = str((g >> 8) % 8)
                        o.lli[key] = float(l)
                    if (g >> 16) % 100 < ind:
                        sg = str((g >> 24) % 10)
                        o.ssi[key] = float(sg)
                    row += f14 + l + sg
                elif stray and not empty and mix(h, 9) % 100 < stray:
                    g = mix(h, 11)
                    l = str(g % 8)
                    o.lli[key] = float(l)
                    row += " " * 14 + l + " "
                else:
                    row += " " * 16
            mode = trim if trim < 2 else er.randint(0, 1)
            if mode == 1:
                row = row.rstrip()
            elif lay.get("long"):
                row = f"{row:{3 + 16 * fmax}s}"
            rows.append(row)
        if trim == 1:
            rows[0] = rows[0].rstrip()
        blk = "\n".join(rows) + "\n"
        out.append(blk)
        o.epoch_span.append((pos, pos + len(blk)))
        pos += len(blk)
    o.text = "".join(out)
    o.svs = sorted({s for e in o.epoch_sats for s in e})
    return o
