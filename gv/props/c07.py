"""C07: SP3 orbits are returned exact, complete and in place"""

from hypothesis import strategies as st
import numpy as np

import georinex as gr

from .. import navmodel, strat, view
from ..core import Facet, fail, require
from ..io_ import put


def sp3_cells(ds):
    t = view.times_us(ds["time"].values)
    sv = [str(s) for s in ds["sv"].values.tolist()]
    ax = [str(s) for s in ds["ECEF"].values.tolist()]
    out = {}
    for n in ("position", "velocity"):
        a = np.asarray(ds[n].transpose("time", "sv", "ECEF").values, dtype=float)
        for i, j, k in np.argwhere(~np.isnan(a)).tolist():
            out[(t[i], sv[j], n, ax[k])] = float(a[i, j, k])
    for n in ("clock", "dclock"):
        a = np.asarray(ds[n].transpose("time", "sv").values, dtype=float)
        for i, j in np.argwhere(~np.isnan(a)).tolist():
            out[(t[i], sv[j], n)] = float(a[i, j])
    return out


def expected(o):
    e = {(t, s, "position", a): v for (t, s, a), v in o.pos.items()}
    e.update({(t, s, "velocity", a): v for (t, s, a), v in o.vel.items()})
    e.update({(t, s, "clock"): v for (t, s), v in o.clk.items()})
    e.update({(t, s, "dclock"): v for (t, s), v in o.dclk.items()})
    return e


def poison():
    """recycle memory full of numbers, so that unset array elements cannot pass as zero or NaN"""
    junk = [np.full((n, 3), 777.0) for n in (1, 2, 17, 30, 60, 85, 120) for _ in range(6)]
    junk += [np.full((n, 2), 555.0) for n in (1, 2, 17, 30, 60, 85, 120) for _ in range(6)]
    del junk


def check(case, rec):
    o = navmodel.build_sp3(case)
    p = put(rec, o.text, f"igs19362.sp3{case['kind']}")
    rec.label(f"sp3-{case['kind']}", f"velocity={case['vel']}", "all present" if case["dens"] == 100 else "some absent")
    if len(o.svs) > 17:
        rec.label("header continues")
    for k, lb in (("20 22", " 60"), ("17 19", " 60"), ("14 16", " 24")):
        a, b = map(int, k.split())
        if any(ln.startswith("*") and ln[a - 1:b] == lb for ln in o.text.split("\n")):
            rec.label("time written with" + {20: " second 60", 17: " minute 60", 14: " hour 24"}[a])
    rec.nontrivial(len(o.svs) >= 2 and len(o.times) >= 2)
    poison()
    ds = rec.call(gr.load, p)
    view.same(expected(o), sp3_cells(ds), "SP3")
    require([str(s) for s in ds["sv"].values.tolist()] == o.svs or sorted(map(str, ds["sv"].values.tolist())) == sorted(o.svs),
            lambda: f"satellites {ds['sv'].values.tolist()} instead of {o.svs}")
    require(view.times_us(ds["time"].values) == o.times, "epochs differ")
    require(view.times_us(ds["t0"].values) == [o.hdr["t0"]], lambda: f"t0 is {ds['t0'].values}")
    for k in ("coord_sys", "orbit_type", "agency", "Nepoch"):
        got = ds.attrs.get(k)
        want = o.hdr[k]
        ok = got == want if not isinstance(want, str) else str(got).strip() == want.strip()
        require(ok, lambda: f"attribute {k} is {got!r} instead of {want!r}")


def long():
    """many epochs"""
    return strat.sp3(nsv=st.integers(1, 12), ep=strat.cycled(st.one_of(st.sampled_from([900_000_000, 300_000_000, 1_000_000]), st.integers(1, 5_000_000)).map(lambda x: [x]), 30, 300))


FACETS = [
    Facet("general", strat.sp3, check, 3000, 50000,
          rule="generated SP3-a/c/d file (1-120 satellites, absent and shuffled records, velocities for all/some/none, second 60, minute 60, hour 24, EP lines, records of satellites not in the header); non-trivial: >= 2 satellites and >= 2 epochs"),
    Facet("long", long, check, 80, 1500, rule="as general with 30-300 epochs"),
]
