"""C26: the command line does what the equivalent API call does"""

import contextlib
import io
import os
import random
import re
import runpy
import subprocess
import sys
from datetime import datetime

import numpy as np
import xarray
from hypothesis import strategies as st

import georinex as gr

from .. import content, opt
from ..core import SRC, Facet, fail, require
from ..model import EPOCH, US
from .c13 import pack
from .c15 import same_dataset
from .c16 import tiny
from .c25 import BAD, matches, read_all

SYSTEMS = "GCESJRI"


def command(module: str, args: list[str], outside: bool):
    """-> (exit status or exception, standard output)"""
    if outside:
        env = {**os.environ, "PYTHONPATH": str(SRC), "PYTHONDONTWRITEBYTECODE": "1"}
        p = subprocess.run([sys.executable, "-W", "ignore", "-m", module, *args], env=env, capture_output=True, text=True, timeout=120)
        return (None if p.returncode == 0 else RuntimeError(p.stderr[-400:])), p.stdout
    save, out = sys.argv, io.StringIO()
    sys.argv = [module] + args
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            runpy.run_module(module, run_name="__main__", alter_sys=True)
        return None, out.getvalue()
    except SystemExit as e:
        return (None if not e.code else e), out.getvalue()
    except Exception as e:
        return e, out.getvalue()
    finally:
        sys.argv = save


def selections(case, model, reader: bool):
    """-> (command line arguments, API arguments)"""
    args: list[list[str]] = []
    kw: dict = {"fast": True}
    obs = hasattr(model, "epoch_sats")
    if case["strict"]:
        args.append(["-strict"])
        kw["fast"] = False
    if case["ind"]:
        args.append(["-useindicators"])
        kw["useindicators"] = True
    if case["verb"]:
        args.append([["-v"], ["--verbose"]][case["long"]][0:1])
    if obs and case["tlim"]:
        t = opt.pick_tlim(model, ["iso", *case["tlim"][1:]])[0]
        args.append([["-t", "--tlim"][case["long"]], *t])
        kw["tlim"] = tuple(datetime.fromisoformat(x) for x in t)
    if obs and case["meas"]:
        m = list(opt.pick_meas(model, ["list", case["meas"][1]])[0])
        args.append([["-m", "--meas"][case["long"]], *m])
        kw["meas"] = m
    if obs and case["use"]:
        u = [x for x in opt.pick_use(model, ["list", case["use"][1]])[0] if x in SYSTEMS]
        if u:
            args.append([["-u", "--use"][case["long"]], *u])
            kw["use"] = set(u)
    elif case["use"] and not obs and hasattr(model, "systems") and isinstance(model.systems, (list, str)):
        u = [x for x in model.systems if x in SYSTEMS][:2]
        if u:
            args.append(["-u", *u])
            kw["use"] = set(u)
    if reader and obs and case["interval"]:
        s = opt.pick_interval(["float", case["interval"][1]])[0]
        args.append(["-interval", repr(s)])
        kw["interval"] = s
    random.Random(case["salt"]).shuffle(args)
    return args, kw


def write(rec, d, case, i=0, zero=False):
    c = content.build(case)
    if zero and "int" in getattr(c.model, "hdr", {}):
        # interval unknown
        old = f"{c.model.hdr['int']:10.3f}"
        k = c.text.index("INTERVAL") - 60
        require(c.text[k:k + 10] == old, "generator: INTERVAL")
        c.text = c.text[:k] + "     0.000" + c.text[k + 10:]
        c.model.hdr["int"] = 0.0
    data = c.text.encode("ascii")
    n = c.name
    k = case["salt"] % 7
    if k < 4:
        kind = ["gz", "bz2", "zip", "Z"][k]
        data, n = pack(kind, data, n, case["salt"]), f"{n}.{kind}"
    if i:
        n = f"f{i}_{n}"
    d.mkdir(exist_ok=True)
    p = d / n
    p.write_bytes(data)
    rec.files[n if k < 4 else c.name] = c.text
    return c, p


def compare(rec, want, dirs, what):
    """the output directories of command line and API hold the same"""
    a, b = (sorted(x.name for x in d.iterdir()) for d in dirs)
    require(a == b, lambda: f"{what}: the command wrote {a}, the API call {b}")
    for n in a:
        ga, gb = read_all(dirs[0] / n), read_all(dirs[1] / n)
        require(ga.keys() == gb.keys(), lambda: f"{what}: {n} holds groups {list(ga)} and {list(gb)}")
        for g in ga:
            same_dataset(gb[g], ga[g], f"{what}: {n} {g} (API call and command)")


def check_read(case, rec):
    c, p = write(rec, rec.tmp / "in", case["file"])
    args, kw = selections(case, c.model, True)
    a, b = rec.tmp / "cli", rec.tmp / "api"
    a.mkdir(), b.mkdir()
    kind = case["out"]
    out_a, out_b = {"dir": (a, b), "file": (a / "x.nc", b / "x.nc"), "none": (None, None), "bad": (a / "x.txt", b / "x.txt")}[kind]
    if out_a is not None:
        args.insert(case["salt"] % (len(args) + 1), [["-o", "--out"][case["long"]], str(out_a)])
    flat = [str(p)] + [x for y in args for x in y]
    outside = bool(case.get("outside"))
    e, text = command("georinex.read", flat, outside)
    got, e2 = rec.attempt(gr.load, p, out_b, **kw)
    what = f"georinex.read {' '.join(flat[1:])} ({c.fmt})"
    require((e is None) == (e2 is None), lambda: f"{what}: command: {type(e).__name__} {e}; API call: {type(e2).__name__} {e2}")
    rec.label(c.fmt, f"{len(kw) - 1} options", kind)
    if e2 is not None:
        rec.label("both fail")
    elif out_a is not None:
        compare(rec, got, (a, b), what)
        n = sorted(x.name for x in b.iterdir())
        require(n == [p.name + ".nc" if kind == "dir" else "x.nc"], lambda: f"{what}: wrote {n}")
        rec.nontrivial(len(kw) > 1)
    else:
        require(not list(a.iterdir()), f"{what}: wrote a file")
        rec.nontrivial(len(kw) > 1)
    if e2 is None:
        # the dataset is printed
        require("xarray.Dataset" in text, lambda: f"{what}: printed {text[:200]!r}")
        for d, n in got.sizes.items():
            require(re.search(rf"\b{re.escape(str(d))}: {n}\b", text), lambda: f"{what}: dimension {d}: {n} is not in the output {text[:300]!r}")
    require([x.name for x in p.parent.iterdir()] == [p.name], "wrote next to the input")


def check_batch(case, rec):
    src = rec.tmp / "in"
    first = None
    for i, f in enumerate(case["files"]):
        c, p = write(rec, src, f, i)
        if first is None or (not hasattr(first, "epoch_sats") and hasattr(c.model, "epoch_sats")):
            first = c.model
    for k in case["bad"]:
        n = sorted(BAD)[k % len(BAD)]
        (src / n).write_bytes(BAD[n])
    args, kw = selections(case, first, False)
    a, b = rec.tmp / "cli", rec.tmp / "api"
    a.mkdir(), b.mkdir()
    args.insert(case["salt"] % (len(args) + 1), [["-o", "--out"][case["long"]], str(a)])
    glob = case["glob"]
    flat = [str(src)] + ([] if glob is None else [glob]) + [x for y in args for x in y]
    names = sorted(x.name for x in src.iterdir())
    e, _ = command("georinex.rinex2hdf5", flat, bool(case.get("outside")))
    what = f"georinex.rinex2hdf5 {' '.join(flat[1:])} of {names}"
    require(e is None, lambda: f"{what}: {type(e).__name__}: {e}")
    rec.call(gr.batch_convert, src, "*" if glob is None else glob, b, **kw)
    compare(rec, None, (a, b), what)
    require(sorted(x.name for x in src.iterdir()) == names, "the input directory was changed")
    n = len(list(b.iterdir()))
    rec.label(f"{n} outputs", "options" if len(kw) > 1 else "no options")
    rec.nontrivial(n >= 1)


LINE = re.compile(r"^(.+): (\d{4}-\d\d-\d\dT[\d:.]+) (\d{4}-\d\d-\d\dT[\d:.]+) (\d+)(?: (\S+))?$")


def iso_us(s: str) -> int:
    return (datetime.fromisoformat(s) - EPOCH) // US


def check_time(case, rec):
    src = rec.tmp / "in"
    files = {}
    for i, f in enumerate(case["files"]):
        c, p = write(rec, src, f, i, zero=case["zero"])
        files[p.name] = c
    for k in case["bad"]:
        n = sorted(BAD)[k % len(BAD)]
        (src / n).write_bytes(BAD[n])
    if case["conv"]:
        # an earlier conversion lies next to the file
        p = src / sorted(files)[0]
        rec.attempt(gr.load, p, src, **({"fast": False} if files[p.name].fmt.startswith("obs") else {}))
    single = case["single"]
    if single:
        name = sorted(files)[case["salt"] % len(files)]
        flat, chosen = [str(src / name)], [name]
    else:
        flat, globs = [str(src)], case["globs"]
        if globs:
            flat += ["-glob", *globs]
        chosen = [n for n in files if any(matches(g, n) for g in globs or ["*"])]
    e, text = command("georinex.time", flat, bool(case.get("outside")))
    what = f"georinex.time {' '.join(flat[1:])} of {sorted(x.name for x in src.iterdir())}"
    exp = {n: files[n] for n in chosen if files[n].fmt != "sp3" and files[n].times}
    if single and not exp:
        require(e is not None, f"{what}: no error for a file without times")
        rec.label("refused")
        return
    require(e is None, lambda: f"{what}: {type(e).__name__}: {e}")
    seen: dict = {}
    rows = [x for x in (LINE.match(ln) for ln in text.splitlines()) if x]
    for m in rows:
        seen.setdefault(m[1], []).append(m)
    require(set(seen) == set(exp), lambda: f"{what}: reported {sorted(seen)}, expected {sorted(exp)}")
    for n, ms in seen.items():
        c = exp[n]
        times = c.times
        for m in ms:
            require(abs(iso_us(m[2]) - times[0]) < 1000 and abs(iso_us(m[3]) - times[-1]) < 1000,
                    lambda: f"{what}: {n}: reported {m[2]} to {m[3]}, expected {opt.dt_of(times[0])} to {opt.dt_of(times[-1])}")
            require(int(m[4]) == len(times), lambda: f"{what}: {n}: {m[4]} times, expected {len(times)}")
            iv = c.model.hdr.get("int") if c.fmt.startswith("obs") else None
            if iv is None:
                require(m[5] is None, lambda: f"{what}: {n}: interval {m[5]} though the header has none")
            else:
                require(m[5] is not None and float(m[5]) == float(f"{iv:10.3f}"), lambda: f"{what}: {n}: interval {m[5]}, header has {iv!r}")
                rec.label("interval")
    # the times themselves
    blocks = re.findall(r"\[[^\]]*\]", text)
    if len(rows) == 1 and len(exp) == 1:
        (n, c), = exp.items()
        got = re.findall(r"\d{4}-\d\d-\d\dT[\d:.]+", blocks[-1]) if blocks else []
        require(len(got) == len(c.times) and all(abs(iso_us(x[:26]) - t) < 1000 for x, t in zip(got, c.times)), lambda: f"{what}: {n}: listed {got[:6]}, expected {[str(opt.dt_of(t)) for t in c.times[:6]]}")
        rec.label("listing")
    rec.label(f"{len(exp)} files")
    rec.nontrivial(len(exp) > 0)


def _opts():
    return dict(
        strict=st.sampled_from([True, True, False]), ind=st.booleans(), verb=st.sampled_from([False, False, True]), long=st.integers(0, 1), salt=st.integers(0, 1 << 40),
        tlim=st.one_of(st.none(), opt.TLIM), meas=st.one_of(st.none(), opt.MEAS), use=st.one_of(st.none(), opt.USE), interval=st.one_of(st.none(), opt.INTERVAL))


def read_cases(outside=False):
    return st.fixed_dictionaries({**_opts(), "file": content.any_of(), "out": st.sampled_from(["dir", "dir", "file", "file", "none", "bad"]), "outside": st.just(outside)})


GLOB = ["*", "*.19*", "*.gz", "*.rnx*", "f*", "*n*", "*.sp3*", "*.Z"]


def batch_cases(outside=False):
    rich = content.small("obs3", npool=st.integers(1, 5), ntypes=st.lists(st.integers(6, 20), min_size=1, max_size=2), ep=content.strat.epochs(3, st.integers(1, 5)))
    return st.fixed_dictionaries({
        **_opts(), **{k: st.one_of(st.none(), st.none(), v) for k, v in (("tlim", opt.TLIM), ("use", opt.USE))}, "files": st.lists(st.one_of([tiny(f) for f in ("obs2", "obs3", "nav2", "nav3", "sp3")] + [rich]), min_size=1, max_size=4), "bad": st.lists(st.integers(0, 40), max_size=3),
        "glob": st.sampled_from([None, None, *GLOB]), "outside": st.just(outside)})


def time_cases(outside=False):
    return st.fixed_dictionaries({
        "salt": st.integers(0, 1 << 40), "files": st.lists(content.any_of(("obs2", "obs3", "nav2", "nav3", "obs3", "obs2", "sp3")), min_size=1, max_size=4), "bad": st.lists(st.integers(0, 40), max_size=3),
        "zero": st.sampled_from([False] * 5 + [True]), "conv": st.sampled_from([False, False, True]), "single": st.booleans(), "globs": st.one_of(st.just([]), st.lists(st.sampled_from(GLOB), min_size=1, max_size=2)), "outside": st.just(outside)})


FACETS = [
    Facet("read", read_cases, check_read, 600, 10000, rule="georinex.read with any options on a generated file of any kind and compression; non-trivial: >= 1 option that selects and a result"),
    Facet("rinex2hdf5", batch_cases, check_batch, 250, 5000, rule="georinex.rinex2hdf5 on generated directories with bad files; non-trivial: >= 1 output"),
    Facet("time", time_cases, check_time, 500, 8000, rule="georinex.time on a file or a directory with bad and converted files and patterns; non-trivial: >= 1 file with times"),
    Facet("processes", lambda: st.one_of(read_cases(True).map(lambda c: {**c, "which": "read"}), batch_cases(True).map(lambda c: {**c, "which": "batch"}), time_cases(True).map(lambda c: {**c, "which": "time"})),
          lambda case, rec: {"read": check_read, "batch": check_batch, "time": check_time}[case["which"]](case, rec), 24, 300,
          rule="the three commands run as separate processes; non-trivial as above"),
]
