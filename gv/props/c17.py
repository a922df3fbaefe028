"""C17: epoch times are exact and agree between the times and data readers"""

from datetime import datetime, timedelta

import numpy as np
from hypothesis import strategies as st

import georinex as gr

from .. import content, strat, view
from ..core import Facet, require
from ..io_ import put, stream
from ..model import US, header_line, i2, t_us, within_two_digits


def whole_ms(t_us_: int) -> int:
    return t_us_ // 1000


def gettime_ms(t) -> list[int]:
    require(isinstance(t, np.ndarray) and t.dtype.kind == "M" and t.ndim == 1, lambda: f"gettime returned {type(t).__name__} {getattr(t, 'dtype', '')}")
    return t.astype("datetime64[us]").astype("int64").tolist()


def near_ms(got: list[int], expected_us: list[float], what: str) -> None:
    """to the millisecond: rounded or truncated"""
    require(len(got) == len(expected_us), lambda: f"{what}: {len(got)} times instead of {len(expected_us)}")
    for g, e in zip(got, expected_us):
        require(abs(g - e) < 999.95, lambda: f"{what}: {np.datetime64(g, 'us')} instead of {np.datetime64(int(e), 'us')}")


def check(case, rec):
    """any small file: the times reader, the data reader and the model agree"""
    c = content.build(case)
    p = put(rec, c.text, c.name)
    src = stream(c.text) if case["stream"] else str(p) if case["asstr"] else p
    near_ms(gettime_ms(rec.call(gr.gettime, src)), c.times, "gettime")
    ds = rec.call(gr.load, src, fast=False)
    got = view.times_us(ds["time"].values)
    held = sorted({k[0] for k in c.expected})
    require(set(held) <= set(got) <= set(c.times), lambda: f"epochs of the data: {len(got)} returned, {len(set(held) - set(got))} missing, {len(set(got) - set(c.times))} not in the file")
    rec.label(c.fmt)
    rec.nontrivial(len(c.times) > 1)


def check_obs_times(case, rec):
    """epochs given to all seven decimals, anywhere in the calendar, also not in order"""
    v, lay = case["v"], case["lay"]
    t0 = datetime(*case["t0"][:6])
    base = []
    for dsec, _ in case["ep"]:
        t0 = t0 + timedelta(seconds=dsec)
        base.append(t0)
    if v == 2:
        base = within_two_digits(base)
    if case["unordered"]:
        base = [base[(i * 7 + 3) % len(base)] for i in range(len(base))] if len(base) % 7 else base[::-1]
    tenth = [frac for _, frac in case["ep"]]  # of a microsecond, 0 ... 9999999
    L = []
    z = lay["zero"]
    for t, f in zip(base, tenth):
        sec = (f"{t.second:02d}" if z else f"{t.second:d}") + f".{f:07d}"
        if v == 2:
            L.append(f" {t.year % 100:02d} {i2(t.month, z)} {i2(t.day, z)} {i2(t.hour, z)} {i2(t.minute, z)}{sec:>11s}  0  1G01")
            L.append(f"{'  20000000.000':80s}" if not lay["trim"] else "  20000000.000")
        else:
            L.append(f"> {t.year:4d} {i2(t.month, z)} {i2(t.day, z)} {i2(t.hour, z)} {i2(t.minute, z)}{sec:>11s}  0  1")
            L.append("G01  20000000.000")
    if v == 2:
        H = [header_line(f"{'2.11':>9s}{'':11s}{'OBSERVATION DATA':20s}{'G':20s}", "RINEX VERSION / TYPE"), header_line(f"{1:6d}{'C1':>6s}", "# / TYPES OF OBSERV")]
    else:
        H = [header_line(f"{'3.03':>9s}{'':11s}{'OBSERVATION DATA':20s}{'G':20s}", "RINEX VERSION / TYPE"), header_line(f"G  {1:3d} C1C", "SYS / # / OBS TYPES")]
    text = "\n".join(H + [header_line("", "END OF HEADER")] + L) + "\n"
    p = put(rec, text, "t.19o" if v == 2 else "t.rnx")
    exact = [t_us(t) + f / 10 for t, f in zip(base, tenth)]
    src = stream(text) if case["stream"] else p
    near_ms(gettime_ms(rec.call(gr.gettime, src)), exact, "gettime")
    rec.label(f"v{v}", f"unordered={case['unordered']}")
    rec.nontrivial(len(base) > 1 and any(tenth))
    if case["unordered"] or any(b - a < 2 for a, b in zip(exact, exact[1:])):
        return
    ds = rec.call(gr.load, src, fast=False)
    got = view.times_us(ds["time"].values)
    require(len(got) == len(exact), lambda: f"{len(got)} epochs of data instead of {len(exact)}")
    for g, e in zip(got, exact):
        require(abs(g - e) < 0.95, lambda: f"data: {np.datetime64(g, 'us')} instead of {np.datetime64(int(e), 'us')} +{e % 1:.1f} us")


FRAC = st.one_of(st.just(0), st.sampled_from([1, 9999999, 9999995, 5000000, 1000000, 9990000, 4, 5, 10, 1234567, 9999994, 70000, 2999999]), st.integers(0, 9999999),
                 st.integers(0, 999).map(lambda x: x * 10000))
DSEC = st.one_of(st.sampled_from([0, 1, 1, 30, 3600, 86399, 86400, 86401, 31 * 86400, 366 * 86400]), st.integers(0, 100000))


def obs_times():
    return st.fixed_dictionaries({
        "v": st.sampled_from([2, 3]), "t0": strat.t0s(False), "ep": st.lists(st.tuples(DSEC, FRAC).map(list), min_size=1, max_size=12),
        "unordered": st.sampled_from([False, False, True]), "stream": st.booleans(), "lay": st.fixed_dictionaries({"zero": st.booleans(), "trim": st.booleans()})})


def many():
    small = strat.cycled(st.tuples(st.sampled_from([0, 1, 1, 15, 30, 30]), FRAC).map(list), 200, 3000, 12)
    return obs_times().flatmap(lambda d: small.map(lambda ep: {**d, "ep": ep, "unordered": d["unordered"] or d["v"] == 3}))


def files(*fmts):
    return lambda: content.with_knobs(content.any_of(fmts), stream=st.booleans(), asstr=st.booleans())


FACETS = [
    Facet("seconds", obs_times, check_obs_times, 1200, 25000,
          rule="OBS 2/3 files of up to 12 epochs with seconds to seven decimals across day, month and year ends and 1980-2079; gettime within a millisecond, data within a microsecond, in file order; non-trivial: >= 2 epochs with fractional seconds"),
    Facet("many", many, check_obs_times, 200, 2000, rule="as seconds with 200-3000 epochs"),
    Facet("obs", files("obs2", "obs3"), check, 400, 7000, rule="generated small OBS file: gettime lists its epochs, the data has the epochs holding values; non-trivial: >= 2 epochs"),
    Facet("nav", files("nav2", "nav3"), check, 700, 10000, rule="as obs for NAV files with records in any order: gettime lists the sorted distinct clock epochs"),
]
