"""C16: an existing NetCDF group is never lost or altered unless overwrite is asked (stateful)"""

import random

import numpy as np
import xarray
from hypothesis import strategies as st

import georinex as gr

from .. import content
from ..core import Facet, Violation, fail, require
from .c15 import same_dataset

KINDS = ["obs2", "obs3", "nav2", "nav3", "sp3"]
OWN = ["DAY1", "obs"]  # groups named by the caller
FOREIGN = ["OBS", "NAV", "DAY1", "OTHER", None]  # groups that something else wrote before


def foreign(r: random.Random) -> xarray.Dataset:
    """what another program may have stored"""
    d = xarray.Dataset(attrs={"note": "mine", "n": r.randrange(100)} if r.random() < 0.7 else {})
    if r.random() < 0.7:
        d = d.assign_coords(time=np.array(["2019-01-01T00:00:30", "2019-01-01T00:01:00"], dtype="datetime64[ns]")[: r.randint(1, 2)], sv=["G05", "G06", "R07"][: r.randint(1, 3)])
        if r.random() < 0.6:
            d["L1"] = (("time", "sv"), np.arange(float(d.time.size * d.sv.size)).reshape(d.time.size, d.sv.size))
    if r.random() < 0.3:
        d["scalar"] = 7.5
    return d


class Model:
    """what the output file must hold: group -> dataset (None: root group of SP3)"""

    def __init__(self, nc):
        self.nc = nc
        self.groups: dict = {}

    def read(self, rec, group):
        try:
            with xarray.open_dataset(self.nc, group=group) as d:
                return d.load()
        except OSError:
            return None

    def stored(self, rec, where):
        """compare the whole file with the model"""
        if not self.groups:
            require(not self.nc.exists(), f"{where}: the file exists though nothing was converted")
            return
        for g in ("OBS", "NAV", "OTHER", *OWN):
            d = self.read(rec, g)
            require((d is not None) == (g in self.groups), f"{where}: group {g} is {'present' if d is not None else 'gone'}")
            if d is not None:
                same_dataset(self.groups[g], d, f"{where}: group {g}")
        root = self.read(rec, None)
        if None in self.groups:
            same_dataset(self.groups[None], root, f"{where}: SP3 data")
        else:
            require(root is not None and len(root.variables) == 0, f"{where}: unexpected data in the root group")


def check(case, rec):
    files = {}
    for i, fc in enumerate(case["files"]):
        c = content.build(fc)
        p = rec.tmp / f"{i}{c.name}"
        p.write_text(c.text)
        rec.files[p.name] = c.text
        files[i] = (c, p)
    junk = rec.tmp / "junk.19o"
    junk.write_text("not a RINEX file\n" * 3)
    m = Model(rec.tmp / "out.nc")
    log = []
    held: list = []  # datasets that the caller still uses
    for k, salt in case["before"]:
        g, d = FOREIGN[k], foreign(random.Random(salt))
        if g in m.groups or (g is None and m.groups):
            continue
        d.to_netcdf(m.nc, group=g, mode="a" if m.groups else "w", format="NETCDF4")
        m.groups[g] = d
        log.append(f"{g or 'root'} group of another program, {len(d.variables)} variables")
        rec.label("foreign group")
    if log:
        m.stored(rec, log[-1])
    for k, (op, i, over, how) in enumerate(case["ops"]):
        if op == "load":
            log.append("load")
            where = " > ".join(log)
            if not m.groups:
                continue
            both = {"OBS", "NAV"} <= set(m.groups)
            if not {"OBS", "NAV"} & set(m.groups):
                continue  # SP3 is reopened with xarray
            got = rec.call(gr.load, m.nc)
            if both:
                require(isinstance(got, dict) and set(got) == {"obs", "nav"}, lambda: f"{where}: {type(got).__name__} {list(got)}")
                same_dataset(m.groups["OBS"], got["obs"].load(), where)
                same_dataset(m.groups["NAV"], got["nav"].load(), where)
                if how:
                    held.append(("nav", m.groups["NAV"], got["nav"]))
                else:
                    got["obs"].close(), got["nav"].close()
                rec.label("load of both")
            else:
                require(isinstance(got, xarray.Dataset), f"{where}: {type(got).__name__}")
                same_dataset(m.groups.get("OBS", m.groups.get("NAV")), got.load(), where)
                if how:
                    held.append(("dataset", m.groups.get("OBS", m.groups.get("NAV")), got))
                else:
                    got.close()
            continue
        if op == "bad":
            bad = [junk, rec.tmp / "missing.19o", files[i % len(files)][1]][how % 3]
            kw = {"tlim": ("2020-01-02", "2020-01-01")} if how % 3 == 2 else {}
            log.append(f"load({bad.name}, {kw}, overwrite={over})")
            _, e = rec.attempt(gr.load, bad, m.nc, overwrite=over, **kw)
            require(e is not None, f"{' > '.join(log)}: no exception")
            rec.label("failed conversion")
            m.stored(rec, " > ".join(log))
            continue
        c, p = files[i % len(files)]
        g = None if c.fmt == "sp3" else c.fmt[:3].upper()
        kw = {"fast": False} if g == "OBS" else {}
        fn = gr.rinexobs if g == "OBS" else gr.rinexnav
        if how == 2 and g:
            g = kw["group"] = OWN[i // 4 % 2] if over else OWN[i % 2]
            rec.label("own group")
        log.append(f"{c.fmt} {p.name} {kw.get('group', '')} overwrite={over}")
        where = " > ".join(log)
        if how and g:
            ds, e = rec.attempt(fn, p, m.nc, overwrite=over, **kw)
        else:
            ds, e = rec.attempt(gr.load, p, m.nc, overwrite=over, **kw)
        taken = g in m.groups or (g is None and m.groups)
        if taken and not over:
            require(isinstance(e, ValueError), lambda: f"{where}: {type(e).__name__} ({e}) instead of ValueError")
            rec.label("refused")
            rec.nontrivial()
        else:
            if e is not None:
                fail(f"{where}: {type(e).__name__}: {e}")
            others = {x: d for x, d in m.groups.items() if x != g}
            m.groups[g] = ds
            if g in OWN:
                d = rec.call(fn, m.nc, group=g)
                same_dataset(ds, d.load(), f"{where}: reopened by {fn.__name__}")
                d.close()
            if over and others:
                rec.label("overwrite with another kind present")
                # the other kind may be dropped by an overwrite, but not altered
                for x in others:
                    d = m.read(rec, x)
                    if d is None or (x is None and len(d.variables) == 0):
                        del m.groups[x]
            elif others:
                rec.label("added to the other kind")
            rec.label("converted")
        m.stored(rec, where)
    for what, want, got in held:
        same_dataset(want, got, f"{' > '.join(log)}: {what} loaded before")


def ops():
    op = st.tuples(st.sampled_from(["conv", "conv", "conv", "conv", "load", "bad"]), st.integers(0, 5), st.sampled_from([False, False, True]), st.integers(0, 2)).map(list)
    return st.lists(op, min_size=2, max_size=8)


def tiny(f):
    return content.small(f, npool=st.integers(1, 3), dts=st.lists(st.sampled_from([72000, 18000]), min_size=1, max_size=2)) if f.startswith("nav") else \
        content.small(f, npool=st.integers(1, 4), ntypes=st.integers(1, 4) if f == "obs2" else st.lists(st.integers(1, 4), min_size=1, max_size=2),
                      ep=content.strat.epochs(3, st.integers(1, 4))) if f.startswith("obs") else content.small(f, nsv=st.integers(1, 4))


BEFORE = st.one_of(st.just([]), st.just([]), st.lists(st.tuples(st.integers(0, len(FOREIGN) - 1), st.integers(0, 1 << 16)).map(list), min_size=1, max_size=3))


def histories(kinds):
    return lambda: st.fixed_dictionaries({"files": st.tuples(*[tiny(k) for k in kinds]).map(list), "ops": ops(), "before": BEFORE})


RULE = "histories of 2-8 conversions of {}, failing conversions and reloads on one output file, checked against a model of its groups after every step; non-trivial: a conversion had to be refused"
FACETS = [
    Facet("obs-nav", histories(["obs3", "nav3", "obs2", "nav2"]), check, 350, 6000, rule=RULE.format("4 OBS/NAV files")),
    Facet("sp3", histories(["obs2", "sp3", "nav2", "sp3"]), check, 200, 2500, rule=RULE.format("OBS, NAV and SP3 files")),
]
