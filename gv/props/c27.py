"""C27: results depend only on the input and options, and inputs stay untouched (stateful)"""

import copy
import io
import json
import os
import random
import shutil
import sys
import threading
from pathlib import Path
from types import SimpleNamespace

import numpy as np
import xarray
from hypothesis import strategies as st

from .. import content, fresh, opt
from ..core import SRC, Facet, require
from ..model import mix
from ..navmodel import Nav
from .c13 import pack
from .c16 import tiny
from .c25 import BAD

SEEDS = [0, 1, 271828]
_SERVERS: dict[int, fresh.Server] = {}

FUNCS = ["load"] * 6 + ["gettime", "gettime", "rinexheader", "rinexheader", "rinexinfo", "rinexobs", "rinexnav", "convert", "convert", "loadnc", "batch", "keplerian", "locations", "globber", "times"]
SHORT = ["load", "gettime", "rinexheader", "rinexinfo", "rinexobs", "rinexnav", "convert", "batch", "locations", "keplerian", "loadnc"]
OBS_KW = ("use", "tlim", "meas", "useindicators", "fast", "interval", "verbose")


def server(seed: int) -> fresh.Server:
    if seed not in _SERVERS:
        _SERVERS[seed] = fresh.Server(seed)
    return _SERVERS[seed]


def spec(v):
    """option value -> JSON"""
    from datetime import datetime, timedelta

    if isinstance(v, set):
        return {"set": sorted(v)}
    if isinstance(v, tuple):
        return {"tuple": [spec(x) for x in v]}
    if isinstance(v, list):
        return {"list": [spec(x) for x in v]}
    if isinstance(v, datetime):
        return {"dt": v.isoformat()}
    if isinstance(v, timedelta):
        return {"td": v // opt.US}
    return v


def same_value(a, b) -> bool:
    return type(a) is type(b) and a == b


def scribble(x, r: random.Random) -> None:
    """what a caller may do to a result that is theirs"""
    if isinstance(x, xarray.Dataset):
        for n in list(x.data_vars):
            a = x[n].values
            if a.dtype.kind == "f" and a.flags.writeable:
                a[...] = -1.0
        x.attrs.clear()
        x.attrs["mine"] = 1
    elif isinstance(x, dict):
        for k in list(x):
            if isinstance(x[k], (dict, list, xarray.Dataset, np.ndarray)):
                scribble(x[k], r)
            if r.random() < 0.5:
                del x[k]
        x["mine"] = 1
    elif isinstance(x, list):
        x.clear()
    elif isinstance(x, np.ndarray) and x.size and x.flags.writeable:
        x[...] = x.ravel()[-1]


def check(case, rec):
    d = rec.tmp / "in"
    d.mkdir()
    texts: list[str] = []
    models, fmts = [], []
    for fc in case["files"]:
        c = content.build(fc)
        texts.append(c.text)
        models.append(c.model)
        fmts.append(c.fmt)
    if case.get("funcs"):  # contents of one size: neither name, time nor size tells that a file was rewritten
        size = max(map(len, texts))
        texts = [t[:-1] + " " * (size - len(t)) + "\n" for t in texts]
    else:
        texts = [t[:-1] if fc["salt"] % 3 == 0 else t for t, fc in zip(texts, case["files"])]  # the last line need not end
    paths: list[Path] = []
    holds: list[int] = []  # which content the path holds now
    for i, fc in enumerate(case["files"]):
        kind = ["plain", "plain", "plain", "gz", "zip", "Z", "bz2"][fc["salt"] % 7]
        name = content.NAME[fmts[i]]
        if case.get("funcs"):
            kind = "plain"
        sub = d / str(i) if case.get("samename") else d
        sub.mkdir(exist_ok=True)
        p = sub / f"{'' if case.get('samename') else i}{name}{'' if kind == 'plain' else '.' + kind}"
        p.write_bytes(pack(kind, texts[i].encode("ascii"), name, 0))
        paths.append(p)
        holds.append(i)
        rec.files[p.name] = texts[i]
    streams = [io.StringIO(t) for t in texts]
    bad = []
    for k in case["bad"]:
        n = sorted(BAD)[k % len(BAD)]
        p = d / ("bad_" + n)
        p.write_bytes(BAD[n])
        bad.append(p)
    # option objects, shared by the calls
    o = next((m for m in models if hasattr(m, "epoch_sats")), None)
    pool: dict[str, list] = {"useindicators": [True, False], "fast": [False, False, True], "verbose": [False, True]}
    if o is not None:
        pool["tlim"] = [opt.pick_tlim(o, s)[0] for s in case["tlim"]]
        pool["meas"] = [opt.pick_meas(o, s)[0] for s in case["meas"]]
        pool["use"] = [opt.pick_use(o, s)[0] for s in case["use"]]
        pool["interval"] = [opt.pick_interval(s)[0] for s in case["interval"]]
    else:
        n = next((m for m in models if isinstance(m, Nav)), None)
        if n is not None:
            pool["tlim"] = [opt.pick_tlim(SimpleNamespace(t=n.times()), s)[0] for s in case["tlim"]]
    for form, idx in case["use"]:  # any systems, in the files or not
        sel = ["GRECJISX"[i % 8] for i in idx]
        pool.setdefault("use", []).append(sel[0] if form == "letter" else {"list": list, "tuple": tuple, "set": set}[form](sel))
    pristine = copy.deepcopy(pool)
    kept: list[list] = []  # [description, result, digest, touched]
    log: list[str] = []
    cwd, env = os.getcwd(), dict(os.environ)
    fails = calls = 0
    for k, (fn, i, how, salt) in enumerate(case["ops"]):
        r = random.Random(salt)
        if fn == "rewrite":
            # the file now holds something else
            j = salt % len(texts)
            i = i % len(paths)
            st_ = paths[i].stat()
            paths[i].write_bytes(texts[j].encode("ascii"))
            os.utime(paths[i], ns=(st_.st_atime_ns, st_.st_mtime_ns))  # not even the time of change differs
            holds[i] = j
            log.append(f"rewrite {paths[i].name} with content {j}")
            rec.label("rewrite")
            continue
        if fn == "scribble":
            if kept:
                e = kept[salt % len(kept)] if salt & 256 else kept[-1]
                scribble(e[1], r)
                e[3] = True
                log.append(f"alter the result of {e[0]}")
                rec.label("scribble")
            continue
        f = FUNCS[salt % len(FUNCS)] if not case.get("funcs") else SHORT[case["funcs"][salt % len(case["funcs"])]]
        isbad = bool(bad) and fn == "bad"
        i = i % len(paths)
        p = bad[i % len(bad)] if isbad else paths[i]
        fmt = "?" if isbad else fmts[holds[i]]
        if isbad and f in ("keplerian", "times"):
            f = "load"
        if f == "keplerian" and not fmt.startswith("nav"):
            f = "load"
        if f == "times" and fmt == "sp3":
            f = "load"
        if f == "rinexobs" and not isbad and not fmt.startswith("obs"):
            f = "rinexnav"
        if f == "rinexnav" and not isbad and not fmt.startswith("nav"):
            f = "rinexobs" if fmt.startswith("obs") else "load"
        form = ["path", "str", "stream", "stream", "path"][how % 5]
        if isbad or fmt == "sp3" or f in ("convert", "loadnc", "batch", "globber") and form == "stream":
            form = "path"
        if f in ("batch", "globber"):
            form = "path"
        kw = {}
        if f in ("load", "rinexobs", "convert", "batch", "loadnc", "times") and not isbad:
            for n in OBS_KW:
                if n in pool and r.random() < (0.75 if case.get("dense") else 0.4) and (fmt.startswith("obs") or n in ("use", "verbose", "tlim")):
                    if f == "batch" and n in ("interval",) or f == "rinexobs" and n == "verbose":
                        continue
                    kw[n] = pool[n][r.randrange(len(pool[n]))]
            if fmt.startswith("obs") and "fast" not in kw and f != "load":
                kw["fast"] = False
        if f == "rinexnav":
            kw = {n: v for n, v in kw.items() if n in ("use", "tlim")}
        src: object = {"path": p, "str": str(p), "stream": None}[form]
        if form == "stream":
            src = streams[holds[i]]
            plain = rec.tmp / "plain.txt"
            plain.write_text(texts[holds[i]])
            fsrc: object = str(plain)
            src.seek(salt % (len(texts[holds[i]]) + 1))  # wherever an earlier reader left it
        else:
            fsrc = str(p)
        if f == "locations":
            form, src, fsrc = "paths", [p, *paths[:2]], [str(x) for x in [p, *paths[:2]]]
        out_a = rec.tmp / "oa"
        out_b = rec.tmp / "ob"
        op = {"fn": f, "form": form, "src": fsrc, "kw": {n: spec(v) for n, v in kw.items()}}
        tail = "" if f in ("batch",) or how % 2 else "/x.nc"
        if f == "loadnc":
            tail = "/x.nc"
        desc = f"{f}({'stream' if form == 'stream' else p.name}, {kw})"
        log.append(desc)
        where = " > ".join(log[-6:]) if len(log) > 6 else " > ".join(log)
        before = {x: x.read_bytes() for x in d.rglob('*') if x.is_file()}
        was = streams[holds[i]].getvalue()
        out_a.mkdir()
        res, exc = fresh.run_op({**op, "out": str(out_a) + tail}, kw, src)
        got = fresh.outcome(res, exc)
        shutil.rmtree(out_a)
        calls += 1
        fails += exc is not None
        require({x: x.read_bytes() for x in d.rglob('*') if x.is_file()} == before, lambda: f"{where}: an input file was changed, or a file written next to it")
        require(streams[holds[i]].getvalue() == was and not streams[holds[i]].closed, lambda: f"{where}: the text stream was changed")
        for n in pool:
            require(all(same_value(a, b) for a, b in zip(pool[n], pristine[n])), lambda: f"{where}: the option objects {n} were changed: {pool[n]} instead of {pristine[n]}")
        require(os.getcwd() == cwd and dict(os.environ) == env, lambda: f"{where}: the working directory or environment was changed")
        # the same call alone in a process of its own
        seeds = SEEDS if case["allseeds"] else [SEEDS[(k + case["ops"][0][3]) % len(SEEDS)]]
        for s in seeds:
            out_b.mkdir()
            # fresh processes see the same paths
            shutil.move(out_b, out_a)
            alone = server(s).ask({**op, "out": str(out_a) + tail})
            shutil.rmtree(out_a)
            dd = fresh.differ(alone, got)
            require(dd is None, lambda: f"{where}: alone in a fresh process (hash seed {s}) and here {dd}")
        if exc is None:
            kept.append([desc, res, fresh.digest(res), False])
        rec.label(f, "failing" if exc is not None else "succeeding")
    for desc, res, dg, touched in kept:
        if not touched:
            dd = fresh.differ(dg, fresh.digest(res))
            require(dd is None, lambda: f"{' > '.join(log)}: the result of {desc} changed afterwards: {dd}")
    rec.nontrivial(calls >= 4 and fails < calls)


def repeats():
    """the same one or two functions on the same one or two files, again and again"""
    op = st.tuples(st.sampled_from(["call"] * 6 + ["rewrite"] * 3 + ["scribble"] * 3), st.integers(0, 5), st.integers(0, 9), st.integers(0, 1 << 32)).map(list)
    pair = st.one_of([st.lists(tiny(f), min_size=1, max_size=3) for f in ["obs2", "obs3", "nav2", "nav3", "sp3"]])
    return st.fixed_dictionaries({
        "files": pair, "bad": st.just([]), "ops": st.lists(op, min_size=5, max_size=10), "funcs": st.lists(st.integers(0, len(SHORT) - 1), min_size=1, max_size=2), "samename": st.booleans(),
        "tlim": st.lists(opt.TLIM, min_size=1, max_size=1), "meas": st.lists(opt.MEAS, min_size=1, max_size=1), "use": st.lists(opt.USE, min_size=1, max_size=1),
        "interval": st.lists(opt.INTERVAL, min_size=1, max_size=1), "allseeds": st.just(False)})


def selections():
    """several loads of one OBS file with most options given: many sets and names, other hash seeds"""
    op = st.tuples(st.just("call"), st.integers(0, 5), st.integers(0, 9), st.integers(0, 1 << 32)).map(list)
    f = st.one_of(
        content.small("obs3", npool=st.integers(1, 6), ntypes=st.lists(st.integers(1, 4), min_size=1, max_size=2), ep=content.strat.epochs(4, st.integers(1, 6)), sys=st.just("M"),
                      sysset=st.sampled_from([["G", "R"], ["E", "G", "R"], ["G", "R", "E", "C", "J", "I", "S"]]), empty=st.sampled_from([0, 30]), share=st.booleans()),
        content.small("obs2", npool=st.integers(1, 6), ntypes=st.integers(1, 4), ep=content.strat.epochs(4, st.integers(1, 6)), sys=st.just("M")))
    use = st.tuples(st.sampled_from(["set", "set", "list", "tuple"]), st.lists(st.integers(0, 40), min_size=2, max_size=4)).map(list)
    meas = st.tuples(st.just("list"), st.lists(st.tuples(st.sampled_from(["full", "full", "full", "two"]), st.integers(0, 40)).map(list), min_size=1, max_size=2)).map(list)
    return st.fixed_dictionaries({
        "files": st.lists(f, min_size=1, max_size=1), "bad": st.just([]), "ops": st.lists(op, min_size=4, max_size=6), "funcs": st.sampled_from([[0], [0, 4], [6]]), "samename": st.just(False),
        "tlim": st.lists(opt.TLIM, min_size=1, max_size=1), "meas": st.lists(meas, min_size=2, max_size=2), "use": st.lists(use, min_size=2, max_size=2),
        "interval": st.lists(opt.INTERVAL, min_size=1, max_size=1), "dense": st.just(True), "allseeds": st.just(True)})


class Baton:
    """threads that take turns: each runs a given number of lines of georinex, then the next one goes on"""

    def __init__(self, n: int, turns: list[int]):
        self.cv = threading.Condition()
        self.alive = list(range(n))
        self.turn, self.k, self.turns, self.left, self.switches = 0, 0, turns, turns[0], 0
        self.off = False

    def _next(self, me: int) -> None:
        i = self.alive.index(me)
        self.turn = self.alive[(i + 1) % len(self.alive)]
        self.k += 1
        self.left = self.turns[self.k % len(self.turns)]
        self.switches += self.turn != me
        self.cv.notify_all()

    def wait(self, me: int) -> None:
        while self.turn != me and not self.off:
            if not self.cv.wait(20):
                self.off = True  # whoever has the turn waits for something else: let all run
                self.cv.notify_all()

    def tracer(self, me: int):
        def local(frame, event, arg):
            if event == "line" and not self.off:
                with self.cv:
                    self.left -= 1
                    if self.left <= 0:
                        self._next(me)
                        self.wait(me)
            return local

        def enter(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(str(SRC)) else None

        return enter

    def run(self, me: int, fn, out: list) -> None:
        with self.cv:
            self.wait(me)
        sys.settrace(self.tracer(me))
        try:
            out[me] = fn()
        finally:
            sys.settrace(None)
            with self.cv:
                if self.turn == me and len(self.alive) > 1:
                    self._next(me)
                self.alive.remove(me)


def one_call(case, c, p, others, fn, salt):
    """-> function, options, source of a call on content c at path p"""
    if fn == "keplerian" and not c.fmt.startswith("nav"):
        fn = "load"
    kw = {}
    if fn == "load" and c.fmt.startswith("obs"):
        kw = {"fast": False, "useindicators": bool(salt & 1)}
        if salt & 6 == 6:
            kw["use"] = opt.pick_use(c.model, case["use"])[0]
        if salt & 24 == 24:
            kw["meas"] = opt.pick_meas(c.model, case["meas"])[0]
        if salt & 96 == 96:
            kw["interval"] = opt.pick_interval(case["interval"])[0]
    if fn == "load" and salt & 384 == 384 and (c.fmt.startswith("obs") or isinstance(c.model, Nav)):
        kw["tlim"] = opt.pick_tlim(c.model if c.fmt.startswith("obs") else SimpleNamespace(t=c.model.times()), case["tlim"])[0]
    return fn, kw, [p, *others] if fn == "locations" else p


def ask_alone(fn, kw, src):
    form = "paths" if isinstance(src, list) else "path"
    return server(0).ask({"fn": fn, "form": form, "src": [str(x) for x in src] if form == "paths" else str(src), "kw": {n: spec(v) for n, v in kw.items()}, "out": ""})


def contents(case, rec):
    d = rec.tmp / "in"
    d.mkdir()
    cs = [content.build(fc) for fc in case["files"]]
    ps = []
    for i, c in enumerate(cs):
        p = d / f"{i}{content.NAME[c.fmt]}"
        p.write_text(c.text)
        rec.files[p.name] = c.text
        ps.append(p)
    return cs, ps


def check_preempt(case, rec):
    cs, ps = contents(case, rec)
    if len(cs) < 2:
        return
    calls = [one_call(case, cs[k], ps[k], ps, case["fns"][k % len(case["fns"])], case["salts"][k]) for k in (0, 1)]
    want = [ask_alone(*c) for c in calls]

    def run(k):
        return fresh.outcome(*fresh.run_op({"fn": calls[k][0]}, calls[k][1], calls[k][2]))

    def traced(at):
        """the first call in a thread, with at(file, line) called before each of georinex's lines"""
        out: list = []

        def local(frame, event, arg):
            if event == "line":
                at(frame.f_code.co_filename, frame.f_lineno)
            return local

        def enter(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(str(SRC)) else None

        def work():
            sys.settrace(enter)
            try:
                res = fresh.run_op({"fn": calls[0][0]}, calls[0][1], calls[0][2])
            finally:
                sys.settrace(None)
            out.append(fresh.outcome(*res))

        th = threading.Thread(target=work, daemon=True)
        th.start()
        th.join(120)
        return out

    seen: dict[tuple, int] = {}

    def count(f, n):
        seen[f, n] = seen.get((f, n), 0) + 1

    traced(count)
    r = random.Random(case["salts"][2])
    lines = sorted(seen)
    points = {ln: 1 + r.randrange(seen[ln]) for ln in r.sample(lines, min(len(lines), case["points"], max(12, 50000 // sum(seen.values()))))}
    now: dict[tuple, int] = {}
    others: list = []
    off = []

    def stop(f, n):
        now[f, n] = now.get((f, n), 0) + 1
        if points.get((f, n)) == now[f, n] and not off:
            th = threading.Thread(target=lambda: others.append(((Path(f).name, n), run(1))), daemon=True)
            th.start()
            th.join(10)
            if th.is_alive():
                off.append(1)  # it waits for something that the first call holds

    got = traced(stop)
    what = [f"{fn}({src if isinstance(src, list) else src.name}, {kw})" for fn, kw, src in calls]
    require(bool(got), lambda: f"{what[0]} with {what[1]} run in between did not end")
    dd = fresh.differ(want[0], got[0])
    require(dd is None, lambda: f"{what[0]}: alone and with {what[1]} run in another thread at {len(others)} of its lines: {dd}")
    for (f, n), x in others:
        dd = fresh.differ(want[1], x)
        require(dd is None, lambda: f"{what[1]}: alone and run in another thread while {what[0]} is at {f}:{n}: {dd}")
    rec.label(calls[0][0], "same call" if calls[0][0] == calls[1][0] else "different calls", "given up" if off else "run to the end")
    rec.nontrivial(len(others) >= 10)


def preempt():
    fmts = [
        content.small("obs2", npool=st.integers(1, 14), ntypes=st.integers(1, 20), ep=content.strat.epochs(3, st.integers(1, 14)), sys=st.just("M")),
        content.small("obs3", npool=st.integers(1, 5), ntypes=st.lists(st.integers(1, 15), min_size=1, max_size=2), ep=content.strat.epochs(3, st.integers(1, 5)), sys=st.just("M")),
        tiny("nav2"), tiny("nav3"), tiny("sp3")]
    fn = st.sampled_from(["load"] * 3 + ["rinexheader", "gettime", "rinexheader", "rinexinfo", "locations", "keplerian"])
    return st.fixed_dictionaries({
        "files": st.one_of([st.lists(f, min_size=2, max_size=2) for f in fmts]), "fns": st.lists(fn, min_size=1, max_size=2), "salts": st.lists(st.integers(0, 511), min_size=3, max_size=3),
        "points": st.sampled_from([30, 50, 80]), "tlim": opt.TLIM, "meas": opt.MEAS, "use": opt.USE, "interval": opt.INTERVAL})


def check_threads(case, rec):
    cs, ps = contents(case, rec)
    calls = [one_call(case, cs[i % len(cs)], ps[i % len(cs)], ps, fn, salt) for fn, i, salt in case["calls"]]
    want = [ask_alone(*c) for c in calls]
    b = Baton(len(calls), case["turns"])
    out: list = [None] * len(calls)
    ths = [threading.Thread(target=b.run, args=(k, lambda c=c: fresh.run_op({"fn": c[0]}, c[1], c[2]), out), daemon=True) for k, c in enumerate(calls)]
    for t in ths:
        t.start()
    for t in ths:
        t.join(120)
    what = [f"{fn}({src if isinstance(src, list) else src.name}, {kw})" for fn, kw, src in calls]
    for k, w in enumerate(want):
        require(out[k] is not None, lambda: f"{what[k]} in a thread beside {what} did not end")
        dd = fresh.differ(w, fresh.outcome(*out[k]))
        require(dd is None, lambda: f"{what[k]}: alone and in a thread beside {what}, in turns of {case['turns']} lines: {dd}")
        rec.label(calls[k][0], "failing" if out[k][1] is not None else "succeeding")
    rec.label("switches >= 10" if b.switches >= 10 else "few switches")
    if b.off:
        rec.label("turns given up")
    rec.nontrivial(b.switches >= 4 and any(x[1] is None for x in out))


def threads():
    call = st.tuples(st.sampled_from(["load"] * 6 + ["gettime", "gettime", "rinexheader", "rinexheader", "rinexinfo", "locations", "keplerian"]), st.integers(0, 5), st.integers(0, 511)).map(list)
    return st.fixed_dictionaries({
        "files": st.lists(st.one_of([tiny(f) for f in ["obs2", "obs3", "nav2", "nav3", "sp3"]]), min_size=1, max_size=3), "calls": st.lists(call, min_size=2, max_size=3),
        "turns": st.lists(st.integers(1, 60), min_size=1, max_size=6), "tlim": opt.TLIM, "meas": opt.MEAS, "use": opt.USE, "interval": opt.INTERVAL})


OP = st.tuples(st.sampled_from(["call"] * 10 + ["bad", "rewrite", "scribble", "scribble"]), st.integers(0, 5), st.integers(0, 9), st.integers(0, 1 << 32)).map(list)


def histories(kinds, n):
    return lambda: st.fixed_dictionaries({
        "files": st.lists(st.one_of([tiny(f) for f in kinds]), min_size=2, max_size=4), "bad": st.lists(st.integers(0, 40), min_size=0, max_size=2), "ops": st.lists(OP, min_size=4, max_size=n),
        "tlim": st.lists(opt.TLIM, min_size=2, max_size=2), "meas": st.lists(opt.MEAS, min_size=2, max_size=2), "use": st.lists(opt.USE, min_size=2, max_size=2),
        "interval": st.lists(opt.INTERVAL, min_size=2, max_size=2), "allseeds": st.sampled_from([False, False, False, True])})


RULE = "histories of 4-{} calls (loads, times, headers, conversions, failing calls) with files rewritten and results altered in between; every call compared with the same call in a fresh process of another hash seed; non-trivial: >= 4 calls"
FACETS = [
    Facet("histories", histories(["obs2", "obs3", "nav2", "nav3", "sp3"], 9), check, 220, 4000, rule=RULE.format(9)),
    Facet("observations", histories(["obs2", "obs3"], 7), check, 120, 2000, rule=RULE.format(7)),
    Facet("repeats", repeats, check, 250, 4000,
          rule="histories of 5-10 operations with one or two functions on up to three files of one kind and size (also of one name, in different directories), results altered and contents exchanged in between; non-trivial: >= 4 calls"),
    Facet("selections", selections, check, 170, 4000,
          rule="histories of 4-6 loads or conversions of one OBS file of several systems with most options given, each compared with fresh processes of three hash seeds; non-trivial: >= 4 calls"),
    Facet("threads", threads, check_threads, 300, 6000,
          rule="2-3 calls in threads which take turns of 1-60 lines of georinex's code (a schedule that replays), each result compared with the same call alone in a fresh process; non-trivial: >= 4 switches and a call that succeeds"),
    Facet("preemptions", preempt, check_preempt, 60, 2000,
          rule="two calls on files of one kind: the second runs to its end in another thread at up to 80 different lines of the first; both compared with the same call alone in a fresh process; non-trivial: >= 10 such points"),
]
