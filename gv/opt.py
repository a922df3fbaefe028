"""Reading options, and the expected result of an OBS model under any combination of them."""

from __future__ import annotations

from datetime import datetime, timedelta

from hypothesis import strategies as st

from .model import EPOCH, US, Obs


def dt_of(t: int) -> datetime:
    return EPOCH + US * t


# ---------------------------------------------------------------- specifications (JSON) -> options
def pick_use(o: Obs, spec) -> tuple[object, set[str]]:
    """spec [form, [indices]] -> (option value, systems)"""
    form, idx = spec
    letters = sorted(o.types) if o.v == 3 else sorted({s[0] for s in o.svs} | {"G", "R"})
    sel = []
    for i in idx:
        s = letters[i % len(letters)]
        if s not in sel:
            sel.append(s)
    if form == "letter":
        return sel[0], {sel[0]}
    return {"list": list, "tuple": tuple, "set": set}[form](sel), set(sel)


def pick_meas(o: Obs, spec) -> tuple[object, set[str]]:
    """spec [form, [[kind, index]...]] -> (option value, names selected)"""
    form, items = spec
    allt = sorted(o.all_types())
    sel = []
    for kind, i in items:
        full = allt[i % len(allt)]
        sel.append({"full": full, "two": full[:2], "one": full[:1], "none": "Z9", "near": near(allt, full, i)}[kind])
    if form == "str":
        sel = sel[:1]
    names = {t for t in allt if any(t.startswith(m) for m in sel)}
    return (sel[0] if form == "str" else {"list": list, "tuple": tuple}[form](sel)), names


def near(allt, full: str, i: int) -> str:
    """a name that resembles one of the file but selects nothing, if there is one"""
    c = [full + "X", full.lower(), full[:1] + "987654321"[i % 9], full[:-1] + "XQ9Z"[i % 4], full[1:], "L" + full[1:], "C" + full[1:]]
    c = [x for x in c if x and not any(t.startswith(x) for t in allt)]
    return c[i % len(c)]


def _limit(o: Obs, spec) -> int:
    """spec [kind, index, offset_us] -> a time in us relative to the file's epochs"""
    kind, i, off = spec
    ts = o.t
    t = ts[i % len(ts)]
    if kind == "epoch":
        return t
    if kind == "near":
        return t + off
    if kind == "before":
        return ts[0] - abs(off)
    return ts[-1] + abs(off)


def pick_tlim(o, spec) -> tuple[object, tuple[int, int]]:
    """spec [form, limit, limit] -> (option value, (start, stop) in us), start <= stop"""
    form, a, b = spec
    lo, hi = sorted((_limit(o, a), _limit(o, b)))
    t0, t1 = dt_of(lo), dt_of(hi)
    if form == "dt":
        v: object = (t0, t1)
    elif form == "list":
        v = [t0, t1]
    elif form == "iso":
        v = (t0.isoformat(), t1.isoformat())
    elif form == "isomix":
        v = (text_form(t0, a[1] + 3 * b[1]), text_form(t1, a[1] // 2 + b[1] // 3))
    else:
        v = [t0.isoformat(" "), t1.isoformat(" ")]
    return v, (lo, hi)


def text_form(t: datetime, n: int) -> str:
    """one of the ISO 8601 texts of a time: they differ in length and separators, hence in alphabetical order"""
    forms = [t.isoformat(), t.isoformat(" "), t.strftime("%Y%m%dT%H%M%S") + (f".{t.microsecond:06d}" if t.microsecond else ""),
             t.isoformat(timespec="microseconds"), t.isoformat(" ", timespec="microseconds")]
    if not t.microsecond and not t.second:
        forms += [t.strftime("%Y-%m-%dT%H:%M"), t.strftime("%Y-%m-%d %H:%M")]
        if not t.minute and not t.hour:
            forms += [t.strftime("%Y-%m-%d"), t.strftime("%Y%m%d")]
    return forms[n % len(forms)]


def pick_interval(spec) -> tuple[object, int | None]:
    """spec [form, us] -> (option value, us)"""
    form, us = spec
    if form == "td":
        return timedelta(microseconds=us), us
    if form == "int":
        us = max(us // 1_000_000, 0) * 1_000_000
        return us // 1_000_000, us
    return us / 1e6, us


def slot_epochs(ts: list[int], n: int | None) -> list[int]:
    """the first epoch, then always the first later one at or after first + k * n, k epochs being kept so far"""
    out: list[int] = []
    for t in ts:
        if not out or t >= ts[0] + len(out) * (n or 0):
            out.append(t)
    return out


def expect(o: Obs, *, use=None, names=None, lim=None, interval=None, ind=False) -> dict:
    ts = o.t
    if lim is not None:
        ts = [t for t in ts if lim[0] <= t <= lim[1]]
    keep = set(slot_epochs(ts, interval))
    out = {}
    src = [(o.cells, lambda k: k)]
    if ind:
        src.append((o.indicator_cells(), lambda k: k[:-3]))
    for d, base in src:
        for key, v in d.items():
            t, s, k = key
            if t in keep and (use is None or s[0] in use) and (names is None or base(k) in names):
                out[key] = v
    return out


# ---------------------------------------------------------------- strategies of specifications
IDX = st.integers(0, 40)
USE = st.tuples(st.sampled_from(["letter", "list", "tuple", "set"]), st.lists(IDX, min_size=1, max_size=4)).map(list)
MEAS = st.tuples(
    st.sampled_from(["list", "list", "tuple", "str"]),
    st.lists(st.tuples(st.sampled_from(["full", "full", "two", "one", "none", "near"]), IDX).map(list), min_size=1, max_size=5)).map(list)
LIMIT = st.tuples(
    st.sampled_from(["epoch", "epoch", "near", "before", "after"]), IDX,
    st.sampled_from([-1, 1, 1000, -1000, 500_000, -500_000, 10_000_000, -10_000_000, 86_400_000_000])).map(list)
TLIM = st.tuples(st.sampled_from(["dt", "dt", "list", "iso", "isolist", "isomix"]), LIMIT, LIMIT).map(list)
INTERVAL = st.tuples(
    st.sampled_from(["float", "float", "int", "td"]),
    st.one_of(st.sampled_from([1_000_000, 2_000_000, 5_000_000, 30_000_000, 60_000_000, 15_000_000, 500_000, 1_500_000, 100_000, 0, 1, 3_600_000_000, 90_000_000, 400_000_000_000]),
              st.integers(1, 100_000_000))).map(list)
