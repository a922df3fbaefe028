"""Any readable content: one small generated file of any of the five kinds."""

from __future__ import annotations

import random
from dataclasses import dataclass, field

from hypothesis import strategies as st

from . import navmodel, strat, view
from .model import build_obs, mix

NAME = {"obs2": "test0010.19o", "obs3": "TEST00XXX_R_20190010000_01D_30S_MO.rnx", "nav2": "test0010.19n", "nav3": "TEST00XXX_R_20190010000_01D_MN.rnx", "sp3": "igs20345.sp3"}


@dataclass
class Content:
    fmt: str
    text: str
    name: str
    model: object
    expected: dict
    times: list[int]  # what gettime() lists
    svs: set = field(default_factory=set)

    def cells(self, ds) -> dict:
        """the result as {key: number}, comparable with expected"""
        if self.fmt == "sp3":
            return sp3_cells(ds)
        got = view.cells(ds)
        return navmodel.strip_loose(got, self.model) if self.fmt.startswith("nav") else got


def sp3_cells(ds):
    import numpy as np

    t = view.times_us(ds["time"].values)
    sv = [str(s) for s in ds["sv"].values.tolist()]
    ax = [str(s) for s in ds["ECEF"].values.tolist()]
    out = {}
    for n in ("position", "velocity"):
        a = np.asarray(ds[n].transpose("time", "sv", "ECEF").values, dtype=float)
        for i, j, k in np.argwhere(~np.isnan(a)).tolist():
            out[(t[i], sv[j], n, ax[k])] = float(a[i, j, k])
    for n in ("clock", "dclock"):
        a = np.asarray(ds[n].transpose("time", "sv").values, dtype=float)
        for i, j in np.argwhere(~np.isnan(a)).tolist():
            out[(t[i], sv[j], n)] = float(a[i, j])
    return out


def sp3_expected(o):
    e = {(t, s, "position", a): v for (t, s, a), v in o.pos.items()}
    e.update({(t, s, "velocity", a): v for (t, s, a), v in o.vel.items()})
    e.update({(t, s, "clock"): v for (t, s), v in o.clk.items()})
    e.update({(t, s, "dclock"): v for (t, s), v in o.dclk.items()})
    return e


def fmt_of(case) -> str:
    if "v" not in case:
        return "sp3"
    return f"{'obs' if 'ep' in case else 'nav'}{case['v']}"


def build(case) -> Content:
    f = fmt_of(case)
    if f == "sp3":
        o = navmodel.build_sp3(case)
        return Content(f, o.text, NAME[f], o, sp3_expected(o), o.times, set(o.svs))
    if f.startswith("obs"):
        o = build_obs(case)
        return Content(f, o.text, NAME[f], o, dict(o.cells), o.t, set(o.svs))
    o = navmodel.build_nav(case)
    return Content(f, o.text, NAME[f], o, o.cells(), o.times(), set(o.svs))


def small(fmt: str, **over):
    """a case of a small file of one kind"""
    if fmt == "obs2":
        d = dict(npool=st.integers(1, 14), ntypes=st.one_of(st.integers(1, 7), st.integers(1, 12)), ep=strat.epochs(5, st.integers(1, 14)))
        return strat.obs2(**{**d, **over})
    if fmt == "obs3":
        d = dict(npool=st.integers(1, 10), ntypes=st.lists(st.integers(1, 14), min_size=1, max_size=3), ep=strat.epochs(5, st.integers(1, 10)))
        return strat.obs3(**{**d, **over})
    if fmt == "nav2":
        return strat.nav2(**{**dict(npool=st.integers(1, 5), dts=st.lists(strat.NAV_DT, min_size=1, max_size=4)), **over})
    if fmt == "nav3":
        return strat.nav3(**{**dict(npool=st.integers(1, 5), dts=st.lists(strat.NAV_DT, min_size=1, max_size=3)), **over})
    return strat.sp3(**{**dict(nsv=st.one_of(st.integers(1, 6), st.sampled_from([17, 18, 36]))), **over})


def any_of(fmts=("obs2", "obs3", "nav2", "nav3", "sp3"), **over):
    return st.one_of([small(f, **over) for f in fmts])


def with_knobs(base, **knobs):
    """base case with further knobs"""
    extra = st.fixed_dictionaries(knobs)
    return st.tuples(base, extra).map(lambda x: {**x[0], **x[1]})


NONASCII = ["Universität Bern".encode(), "Universität".encode("latin-1"), b"\xff\xfe\x80", "日本".encode(), b"caf\xc3"]


def add_comments(data: bytes, fmt: str, salt: int, n: int) -> bytes:
    """insert n comment lines with bytes outside ASCII (RINEX: header; SP3: before the first epoch)"""
    lines = data.split(b"\n")
    r = random.Random(mix(salt, 4242))
    for _ in range(n):
        c = r.choice(NONASCII)
        if fmt == "sp3":
            k = next(i for i, x in enumerate(lines) if x.startswith(b"%c"))
            lines.insert(k, b"/* " + c)
        else:
            k = next(i for i, x in enumerate(lines) if b"END OF HEADER" in x)
            lines.insert(r.randint(1, k), c.ljust(60) + b"COMMENT             ")
    return b"\n".join(lines)
