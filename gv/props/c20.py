"""C20: broadcast ephemerides convert to the correct ECEF position"""

import math
import random
from datetime import datetime, timedelta

import numpy as np
from hypothesis import strategies as st

import georinex as gr

from .. import navmodel, strat, view
from ..core import Facet, require
from ..io_ import put
from ..model import header_line, i2, mix, t_us

GPS0 = datetime(1980, 1, 6)
GM = {"G": 3.986005e14, "E": 3.986004418e14}  # IS-GPS-200; Galileo OS SIS ICD
OMEGA_E = 7.2921151467e-5


def d19(x: float) -> str:
    s = f"{x:19.12E}".replace("E", "D")
    assert len(s) == 19
    return s


def num(s: str) -> float:
    return float(s.replace("D", "E"))


def elements(r: random.Random, s: str, case) -> dict:
    wild = r.random() < 0.3
    e = r.choice([0.0, r.uniform(1e-4, 0.02), r.uniform(1e-4, 0.02), r.uniform(0.02, 0.1), r.uniform(0.1, 0.4) if wild else 0.005])
    v = {
        "SVclockBias": r.uniform(-1e-3, 1e-3), "SVclockDrift": r.uniform(-1e-11, 1e-11), "SVclockDriftRate": 0.0,
        "Crs": r.uniform(-400, 400), "DeltaN": r.uniform(3e-9, 6e-9), "M0": r.uniform(-math.pi, math.pi), "Cuc": r.uniform(-2e-5, 2e-5),
        "Eccentricity": e, "Cus": r.uniform(-2e-5, 2e-5), "sqrtA": r.uniform(5440, 5441) if s == "E" else r.uniform(5153, 5154),
        "Cic": r.uniform(-1e-6, 1e-6), "Omega0": r.uniform(-math.pi, math.pi), "Cis": r.uniform(-1e-6, 1e-6), "Io": r.uniform(0.9, 1.0),
        "Crc": r.uniform(-400, 400), "omega": r.uniform(-math.pi, math.pi), "OmegaDot": r.uniform(-9e-9, -7e-9), "IDOT": r.uniform(-9e-10, 9e-10),
    }
    if wild:
        v["sqrtA"] = r.uniform(4000, 6500)
        v["Io"] = r.uniform(0, 1.6)
        for k in ("Cuc", "Cus", "Cic", "Cis"):
            v[k] *= 20
    return v


def reference(v: dict, s: str, t: datetime) -> tuple[float, float, float]:
    """IS-GPS-200 table 20-IV, with continuous week numbers"""
    A = v["sqrtA"] ** 2
    n = math.sqrt(GM[s] / A**3) + v["DeltaN"]
    week = v["GPSWeek" if s == "G" else "GALWeek"]
    tk = (t - (GPS0 + timedelta(seconds=week * 604800 + v["Toe"]))).total_seconds()
    M = v["M0"] + n * tk
    e = v["Eccentricity"]
    lo, hi = M - e - 1e-9, M + e + 1e-9  # bisection: E - e sin E increases
    for _ in range(200):
        mid = (lo + hi) / 2
        if mid - e * math.sin(mid) < M:
            lo = mid
        else:
            hi = mid
    E = (lo + hi) / 2
    nu = 2 * math.atan2(math.sqrt(1 + e) * math.sin(E / 2), math.sqrt(1 - e) * math.cos(E / 2))
    phi = nu + v["omega"]
    s2, c2 = math.sin(2 * phi), math.cos(2 * phi)
    u = phi + v["Cus"] * s2 + v["Cuc"] * c2
    rr = A * (1 - e * math.cos(E)) + v["Crs"] * s2 + v["Crc"] * c2
    i = v["Io"] + v["IDOT"] * tk + v["Cis"] * s2 + v["Cic"] * c2
    om = v["Omega0"] + (v["OmegaDot"] - OMEGA_E) * tk - OMEGA_E * v["Toe"]
    xp, yp = rr * math.cos(u), rr * math.sin(u)
    return (xp * math.cos(om) - yp * math.cos(i) * math.sin(om), xp * math.sin(om) + yp * math.cos(i) * math.cos(om), yp * math.sin(i))


def build(case):
    """-> text, records (sv, t, values)"""
    salt, ver = case["salt"], case["v"]
    rng = random.Random(salt)
    systems = case["systems"]
    if ver == 2:
        systems = [systems[0] if systems[0] in "GER" else "G"]
    svs = []
    for k in range(case["nsv"]):
        s = systems[k % len(systems)]
        svs.append(f"{s}{rng.randint(1, 36):02d}")
    svs = sorted(set(svs))
    t0 = datetime(*case["t0"][:3]) + timedelta(hours=case["t0"][3] % 24)
    t0 = max(t0, datetime(1980, 1, 14))
    recs = []
    for k, (dh, off) in enumerate(case["ep"]):
        t0 = t0 + timedelta(seconds=dh)
        if t0.year > 2079:
            break
        for j, sv in enumerate(svs):
            r = random.Random(mix(salt, k, j))
            if r.random() < 0.25 and len(svs) > 1:
                continue
            recs.append((sv, t0, off))
    if case["order"]:
        rng.shuffle(recs)
    if ver == 3:
        for _ in range(case.get("dups", 0)):  # a satellite may have several records of one time
            recs.insert(rng.randint(0, len(recs)), rng.choice(recs)) if recs else None
    out, L = [], []
    seen: dict = {}
    for n, (sv, t, off) in enumerate(recs):
        s = sv[0]
        again = seen[sv, t] = seen.get((sv, t), -1) + 1
        r = random.Random(mix(salt, n, 17))
        full = navmodel.FIELDS3[s]
        if s in "GE":
            v = elements(r, s, case)
            toe = (t - GPS0).total_seconds() + off  # the reference epoch differs from the clock epoch
            toe = max(toe, 0)
            v["Toe"] = toe % 604800
            v["GPSWeek" if s == "G" else "GALWeek"] = toe // 604800
        else:
            v = {k: r.uniform(-3e4, 3e4) for k in ("X", "Y", "Z")}
        txt = [d19(v.get(k, 0.0)) for k in full]
        vals = {k: num(x) for k, x in zip(full, txt)}
        out.append((f"{sv}_{again}" if again else sv, t, vals))
        if ver == 2:
            nf = {"G": 29, "E": 28, "R": 15}[s]
            if s == "E":
                txt[22] = " " * 19
            L.append(f"{int(sv[1:]):2d} {t.year % 100:02d} {t.month:2d} {t.day:2d} {t.hour:2d} {t.minute:2d}{t.second:5.1f}" + "".join(txt[:3]))
            txt, ind = txt[:nf], "   "
        else:
            L.append(f"{sv} {t.year:4d} {i2(t.month, 1)} {i2(t.day, 1)} {i2(t.hour, 1)} {i2(t.minute, 1)} {i2(t.second, 1)}" + "".join(txt[:3]))
            ind = "    "
        for q in range(3, 3 + 4 * navmodel.NLINES[s], 4):
            L.append(ind + "".join(txt[q:q + 4]))
    if ver == 2:
        what = {"G": "N: GPS NAV DATA", "R": "G: GLONASS NAV DATA", "E": "E: Galileo NAV DATA"}[systems[0]]
        H = header_line(f"{'2.11':>9s}{'':11s}{what:20s}", "RINEX VERSION / TYPE")
    else:
        H = header_line(f"{'3.04':>9s}{'':11s}{'N: GNSS NAV DATA':20s}M", "RINEX VERSION / TYPE")
    return "\n".join([H, header_line("", "END OF HEADER")] + [f"{x:80s}" for x in L]) + "\n", out


def check(case, rec):
    text, recs = build(case)
    if not recs:
        return
    p = put(rec, text, "t.19n")
    nav = rec.call(gr.load, p)
    for sv in sorted({r[0] for r in recs}):
        mine = {t_us(t): (t, v) for s, t, v in recs if s == sv}
        one = nav.sel(sv=sv)
        if case["form"] == 1:
            one = one.dropna(dim="time", how="all")
        elif case["form"] == 2:  # a single epoch
            one = one.sel(time=np.datetime64(sorted(mine)[case["salt"] % len(mine)], "us"))
        keep = one.copy(deep=True)
        X, Y, Z = rec.call(gr.keplerian2ecef, one)
        require(one.identical(keep) and all(one[k].attrs == keep[k].attrs for k in one.variables), f"{sv}: the input dataset was modified")
        times = view.times_us(np.atleast_1d(one["time"].values))
        xyz = [np.atleast_1d(np.asarray(a, dtype=float)) for a in (X, Y, Z)]
        for a in xyz:
            require(a.shape == (len(times),), lambda: f"{sv}: result of shape {a.shape} for {len(times)} epochs")
        rec.label(f"v{case['v']} {sv[0]}", f"form {case['form']}")
        for k, t in enumerate(times):
            got = [float(a[k]) for a in xyz]
            if t not in mine:
                require(not any(math.isfinite(g) for g in got), lambda: f"{sv}: position {got} at {np.datetime64(t, 'us')}, where the file has no record")
                rec.label("epoch without record")
                continue
            tt, v = mine[t]
            if sv[0] in "GE":
                ref = reference(v, sv[0], tt)
                tol = 1.0
                wk = v["GPSWeek" if sv[0] == "G" else "GALWeek"]
                if wk != (tt - GPS0).total_seconds() // 604800:
                    rec.label("reference epoch in another week")
                rec.nontrivial()
            else:
                ref = [v[a] * 1e3 for a in "XYZ"]
                tol = 1e-6
            d = math.dist(got, ref) if all(map(math.isfinite, got)) else math.inf
            require(d <= tol, lambda: f"{sv} at {np.datetime64(t, 'us')}: {d:.3f} m from the position of the broadcast algorithm: {got} instead of {list(ref)}")


def cases():
    return st.fixed_dictionaries({
        "v": st.sampled_from([2, 3, 3]), "salt": strat.SALT,
        "systems": st.sampled_from([["G"], ["E"], ["G", "E", "R", "S"], ["E", "G"], ["R"], ["G", "E", "R", "S"]]),
        "nsv": st.integers(1, 5), "t0": strat.t0s(False), "order": st.booleans(), "dups": st.sampled_from([0, 0, 0, 1, 3]), "form": st.sampled_from([0, 0, 1, 2]),
        "ep": st.lists(st.tuples(st.sampled_from([7200, 3600, 600, 1800, 86400, 302400, 604800, 30, 16]),
                                 st.sampled_from([0, 0, 16, -16, 7200, -7200, 3600, -14400, 86400, -86400])).map(list), min_size=1, max_size=6),
    })


FACETS = [
    Facet("positions", cases, check, 700, 15000,
          rule="generated NAV 2/3 files with realistic and wild orbits of GPS, Galileo, GLONASS and SBAS satellites, clock and reference epochs in the same or different weeks; position of every record against an independent implementation of IS-GPS-200; non-trivial: has a GPS or Galileo record"),
]
