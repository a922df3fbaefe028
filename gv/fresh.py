"""Operations on georinex described as JSON, their results as comparable digests, and a
server that runs each of them in a process in which nothing else has been called.

python -m gv.fresh: reads one operation per line, forks, answers with one digest per line.
"""

from __future__ import annotations

import hashlib
import io
import json
import os
import resource
import signal
import subprocess
import sys
from datetime import datetime, timedelta
from pathlib import Path


# ------------------------------------------------------------------ digests
def digest(x):
    """a JSON value that tells two results apart"""
    import numpy as np
    import xarray

    if isinstance(x, xarray.Dataset):
        return {"variables": {str(n): _array(x[n].values, [str(d) for d in x[n].dims]) for n in x.variables}, "coords": sorted(map(str, x.coords)),
                "attrs": {str(k): digest(v) for k, v in x.attrs.items()}}
    if isinstance(x, xarray.DataArray):
        return ["DataArray", _array(x.values, [str(d) for d in x.dims])]
    if isinstance(x, np.ndarray):
        return _array(x, None)
    if isinstance(x, np.generic):
        return ["scalar", repr(x.item()) if x.dtype.kind != "M" else str(x.astype("datetime64[ns]"))]
    if isinstance(x, dict):
        return {"dict": {str(k): digest(v) for k, v in x.items()}}
    if isinstance(x, (list, tuple)):
        return [type(x).__name__] + [digest(v) for v in x]
    if isinstance(x, (set, frozenset)):
        return ["set"] + sorted(repr(v) for v in x)
    if type(x).__name__ == "DataFrame":
        return {"DataFrame": {str(c): [repr(v) for v in x[c].tolist()] for c in x.columns}, "index": [repr(v) for v in x.index.tolist()]}
    return f"{type(x).__name__} {x!r}"


def _array(a, dims):
    import numpy as np

    a = np.asarray(a)
    if a.dtype.kind == "M":
        b = a.astype("datetime64[ns]").astype("int64")
    elif a.dtype.kind in "OUST":
        b = None
    elif a.dtype.kind == "f":
        b = np.where(np.isnan(a), np.nan, a) + 0.0
    else:
        b = a
    raw = json.dumps([str(v) for v in a.ravel().tolist()]).encode() if b is None else np.ascontiguousarray(b).tobytes()
    return [dims, "text" if b is None else str(a.dtype), list(a.shape), hashlib.blake2b(raw, digest_size=8).hexdigest(), str(a.ravel()[:8].tolist())[:200]]


def differ(a, b, where="") -> str | None:
    """the first difference of two digests"""
    if isinstance(a, dict) and isinstance(b, dict):
        if a.keys() != b.keys():
            return f"{where}: {sorted(a.keys() ^ b.keys())}"
        for k in a:
            d = differ(a[k], b[k], f"{where}/{k}")
            if d:
                return d
        return None
    return None if a == b else f"{where}: {str(a)[:200]} and {str(b)[:200]}"


# ------------------------------------------------------------------ operations
def option(spec):
    """JSON -> option value"""
    if isinstance(spec, dict):
        (k, v), = spec.items()
        if k == "set":
            return set(v)
        if k == "tuple":
            return tuple(option(x) for x in v)
        if k == "list":
            return [option(x) for x in v]
        if k == "dt":
            return datetime.fromisoformat(v)
        if k == "td":
            return timedelta(microseconds=v)
        raise ValueError(spec)
    return spec


def run_op(op: dict, kw: dict, src):
    """-> (result, exception).  src: path, text stream, or list of paths"""
    import georinex as gr
    import georinex.geo
    import xarray
    from georinex.utils import globber, to_datetime

    fn = op["fn"]
    try:
        if fn == "convert":
            ds = gr.load(src, op["out"], **kw)
            back = {}
            for nc in sorted(Path(op["out"]).parent.glob("*.nc") if op["out"].endswith(".nc") else Path(op["out"]).glob("*.nc")):
                for g in ("OBS", "NAV", None):
                    try:
                        with xarray.open_dataset(nc, group=g) as d:
                            back[f"{nc.name} {g}"] = d.load()
                    except OSError:
                        continue
            return {"returned": ds, "written": back}, None
        if fn == "loadnc":
            gr.load(src, op["out"], overwrite=True, **kw)
            with gr.load(Path(op["out"])) as d:
                return d.load(), None
        if fn == "batch":
            gr.batch_convert(src.parent, "*", op["out"], **kw)
            back = {}
            for nc in sorted(Path(op["out"]).glob("*.nc")):
                for g in ("OBS", "NAV"):
                    try:
                        with xarray.open_dataset(nc, group=g) as d:
                            back[f"{nc.name} {g}"] = d.load()
                    except OSError:
                        continue
            return back, None
        if fn == "keplerian":
            ds = gr.load(src, **kw)
            out = {}
            for s in sorted(map(str, ds.sv.values)):
                if s[0] not in "GERS":
                    continue
                one = ds.sel(sv=s).dropna(dim="time", how="all")
                was = digest(one)
                try:
                    out[s] = list(gr.keplerian2ecef(one))
                except Exception as e:
                    out[s] = type(e).__name__
                if differ(was, digest(one)):
                    out[s] = "the argument was changed: " + str(differ(was, digest(one)))
            return out, None
        if fn == "locations":
            return georinex.geo.get_locations(src), None
        if fn == "globber":
            return sorted(x.name for x in globber(src.parent, ["*"])), None
        if fn == "times":
            ds = gr.load(src, **kw)
            return to_datetime(ds.time), None
        f = {"load": gr.load, "gettime": gr.gettime, "rinexheader": gr.rinexheader, "rinexinfo": gr.rinexinfo, "rinexobs": gr.rinexobs, "rinexnav": gr.rinexnav}[fn]
        return f(src, **kw), None
    except Exception as e:
        return None, e


def outcome(res, exc):
    return {"raised": type(exc).__name__} if exc is not None else {"result": digest(res)}


# ------------------------------------------------------------------ server
def main() -> int:
    from . import core

    proto = os.dup(1)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    lim = 8 << 30
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    core.setup_environment()
    os.write(proto, b"ready\n")
    for line in sys.stdin:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            signal.setitimer(signal.ITIMER_VIRTUAL, core.CPU_LIMIT)  # ends the process
            os.close(r)
            try:
                op = json.loads(line)
                kw = {k: option(v) for k, v in op["kw"].items()}
                src = op["src"]
                if op["form"] == "stream":
                    src = io.StringIO(Path(src).read_bytes().decode("ascii", "ignore"))
                elif op["form"] == "path":
                    src = Path(src)
                elif op["form"] == "paths":
                    src = [Path(x) for x in src]
                ans = outcome(*run_op(op, kw, src))
            except BaseException as e:
                ans = {"error": f"{type(e).__name__}: {e}"}
            with os.fdopen(w, "w") as f:
                f.write(json.dumps(ans))
            os._exit(0)
        os.close(w)
        with os.fdopen(r) as f:
            text = f.read()
        os.waitpid(pid, 0)
        os.write(proto, (text or json.dumps({"error": "process ended"})).encode() + b"\n")
    return 0


class Server:
    """one pristine process per hash seed; every operation runs in a fork of it"""

    def __init__(self, seed: int):
        self.seed = seed
        root = str(Path(__file__).resolve().parent.parent)
        env = {**os.environ, "PYTHONHASHSEED": str(seed), "PYTHONPATH": root}
        cwd = os.getcwd()
        if seed:  # nor does the rest of the environment matter
            env.update(TZ=["America/St_Johns", "Asia/Tokyo"][seed % 2], LC_ALL="C", LANG="C")
            cwd = "/"
        self.p = subprocess.Popen([sys.executable, "-W", "ignore", "-B", "-m", "gv.fresh"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, text=True, cwd=cwd)
        self._line()

    def _line(self) -> str:
        s = self.p.stdout.readline()
        if not s:
            raise RuntimeError("harness: the fresh process server ended")
        return s

    def ask(self, op: dict):
        self.p.stdin.write(json.dumps(op) + "\n")
        self.p.stdin.flush()
        ans = json.loads(self._line())
        if "error" in ans:
            raise RuntimeError(f"harness: {ans['error']}")
        return ans


if __name__ == "__main__":
    sys.exit(main())
