"""The observable meaning of what georinex returns, and its comparison with an expectation.

Everything raised in this file counts against the code under test: it means that a
result could not be read as a dataset over (time, sv).
"""

from __future__ import annotations

import numpy as np
import xarray

from .core import Violation


def times_us(values) -> list[int]:
    a = np.asarray(values)
    if a.size == 0:
        return []
    if a.dtype.kind != "M":
        a = np.asarray(a, dtype="datetime64[us]")
    if np.isnat(a).any():
        raise Violation("a time is NaT")
    return a.astype("datetime64[ns]").astype("int64").__floordiv__(1000).ravel().tolist()


def exact_us(values) -> None:
    a = np.asarray(values)
    if a.size and a.dtype.kind == "M":
        ns = a.astype("datetime64[ns]").astype("int64")
        if (ns % 1000).any():
            raise Violation("a time has a sub-microsecond part")


def cells(ds, suffix_ok: bool = True) -> dict[tuple, float]:
    """non-NaN cells {(t_us, sv, name): value}; checks the coordinates on the way"""
    if not isinstance(ds, xarray.Dataset):
        raise Violation(f"result is {type(ds).__name__}, not a Dataset")
    out: dict[tuple, float] = {}
    if "time" not in ds.coords or "sv" not in ds.coords:
        if len(ds.data_vars) == 0:
            return out
        raise Violation(f"result has data but coordinates {list(ds.coords)}")
    t = times_us(ds["time"].values)
    sv = [str(s) for s in np.atleast_1d(ds["sv"].values).tolist()]
    if len(set(t)) != len(t):
        raise Violation("time coordinate has repeated epochs")
    if any(b < a for a, b in zip(t, t[1:])):
        raise Violation("time coordinate is not in increasing order")
    if len(set(sv)) != len(sv):
        raise Violation(f"sv coordinate has repeated satellites: {sorted(sv)}")
    exact_us(ds["time"].values)
    for name in ds.data_vars:
        v = ds[name]
        if set(v.dims) != {"time", "sv"}:
            raise Violation(f"variable {name} has dimensions {v.dims}")
        a = np.asarray(v.transpose("time", "sv").values, dtype=float)
        if a.shape != (len(t), len(sv)):
            raise Violation(f"variable {name} has shape {a.shape}, coordinates {(len(t), len(sv))}")
        ii, jj = np.nonzero(~np.isnan(a))
        vals = a[ii, jj].tolist()
        n = str(name)
        for i, j, x in zip(ii.tolist(), jj.tolist(), vals):
            out[(t[i], sv[j], n)] = x
    return out


def close(a: float, b: float, rel: float = 1e-12) -> bool:
    if a == b:
        return True
    return abs(a - b) <= rel * max(abs(a), abs(b))


def _name(k) -> str:
    if isinstance(k, tuple) and k and isinstance(k[0], int):
        return f"({np.datetime64(k[0], 'us')}, {', '.join(map(str, k[1:]))})"
    return str(k)


def same(expected: dict, got: dict, what: str = "", rel: float = 1e-12) -> None:
    """both sides {key: number}; raise Violation with the first differences"""
    bad = []
    for k, v in expected.items():
        if k not in got:
            bad.append(f"{_name(k)}: {v!r} is missing")
        elif not close(v, got[k], rel):
            bad.append(f"{_name(k)}: {got[k]!r} instead of {v!r}")
        if len(bad) >= 4:
            break
    for k, v in got.items():
        if k not in expected:
            bad.append(f"{_name(k)}: {v!r} should not be there")
            if len(bad) >= 8:
                break
    if bad:
        raise Violation(f"{what}: {len(expected)} values expected, {len(got)} returned; " + "; ".join(bad))


def names_within(ds, allowed: set, what: str) -> None:
    extra = [str(n) for n in ds.data_vars if str(n) not in allowed]
    if extra:
        raise Violation(f"{what}: unexpected variables {extra}")


def coords_within(ds, times: set, svs: set, what: str) -> None:
    if "time" in ds.coords:
        extra = [t for t in times_us(ds["time"].values) if t not in times]
        if extra:
            raise Violation(f"{what}: epochs that the file does not hold: {[str(np.datetime64(t, 'us')) for t in extra[:4]]}")
    if "sv" in ds.coords:
        extra = [str(s) for s in np.atleast_1d(ds["sv"].values).tolist() if str(s) not in svs]
        if extra:
            raise Violation(f"{what}: satellites that the file does not hold: {extra[:6]}")


def attr_equal(a, b) -> bool:
    """attributes compared as NetCDF sees them"""
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    x, y = np.atleast_1d(np.asarray(a)), np.atleast_1d(np.asarray(b))
    if x.dtype.kind in "US" or y.dtype.kind in "US":
        return x.astype(str).ravel().tolist() == y.astype(str).ravel().tolist()
    if x.dtype.kind == "O" or y.dtype.kind == "O":
        return list(map(str, x.ravel().tolist())) == list(map(str, y.ravel().tolist()))
    x, y = x.astype(float).ravel(), y.astype(float).ravel()
    return x.shape == y.shape and all(close(p, q, 1e-12) or (p != p and q != q) for p, q in zip(x.tolist(), y.tolist()))
