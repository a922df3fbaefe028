"""Facets, recorder and the single-process execution of one facet of one property."""

from __future__ import annotations

import hashlib
import json
import logging
import os
import signal
import sys
import time
import traceback
import typing as T
import warnings
from contextlib import contextmanager
from dataclasses import dataclass, field
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path("/repo")
SRC = REPO / "src"
HYP = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
CPU_LIMIT = 60.0  # seconds of CPU time one generated case may take
SHRINK_BUDGET = 40.0  # wall seconds spent on minimising a failure


class Violation(Exception):
    """the code under test broke the property on this case"""


class Hang(BaseException):
    """the code under test did not finish within CPU_LIMIT seconds of CPU time"""


class Abort(KeyboardInterrupt):
    """stop generating: time budget used, or failure minimised long enough"""


@dataclass
class Facet:
    name: str
    strategy: T.Callable[[], T.Any]  # -> hypothesis strategy of JSON-able cases
    check: T.Callable[[T.Any, "Rec"], None]
    quick: int
    thorough: int
    rule: str = ""
    hang_is_violation: bool = True
    # a finite list of cases, run completely (every one, divided over the shards)
    cases: T.Callable[[str], list] | None = None


@dataclass
class Rec:
    """what one execution of a check function did"""

    tmp: Path
    prop: str = ""
    labels: list[str] = field(default_factory=list)
    is_nontrivial: bool = False
    files: dict[str, str] = field(default_factory=dict)
    notes: list[str] = field(default_factory=list)

    def label(self, *names: str) -> None:
        self.labels.extend(names)

    def nontrivial(self, yes: bool = True) -> None:
        self.is_nontrivial = self.is_nontrivial or bool(yes)

    def call(self, fn, *args, **kwargs):
        """call code under test where the property promises a result"""
        try:
            return fn(*args, **kwargs)
        except (Violation, Abort):
            raise
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            at = next((f"{Path(f.filename).name}:{f.lineno}" for f in reversed(tb)
                       if "/georinex/" in f.filename), "?")
            shown = ", ".join([_short(a) for a in args] + [f"{k}={_short(v)}" for k, v in kwargs.items()])
            raise Violation(f"{getattr(fn, '__name__', fn)}({shown}) raised {type(e).__name__}: {e} [{at}]")

    def known(self, key: str, msg: str) -> None:
        """a violation that is exactly the listed finding `key`; anything not listed is a violation"""
        if f"{self.prop}:{key}" not in listed_findings():
            raise Violation(msg)
        self.labels.append(f"known finding {key}")

    def attempt(self, fn, *args, **kwargs):
        """-> (value, None) or (None, exception)"""
        try:
            return fn(*args, **kwargs), None
        except (Violation, Abort):
            raise
        except Exception as e:
            return None, e


def _short(x) -> str:
    s = repr(x)
    return s if len(s) < 120 else s[:117] + "..."


def fail(msg: str) -> T.NoReturn:
    raise Violation(msg)


def require(cond, msg: str | T.Callable[[], str]) -> None:
    if not cond:
        raise Violation(msg if isinstance(msg, str) else msg())


def setup_environment() -> None:
    """import the code under test from /repo's working tree, and Hypothesis"""
    sys.dont_write_bytecode = True
    if HYP not in sys.path:
        sys.path.append(HYP)
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    import numpy, pandas, xarray, netCDF4, scipy  # noqa: F401,E401

    try:
        import pymap3d, hatanaka, ncompress  # noqa: F401,E401
    except ImportError:
        pass
    # never use byte code of the code under test that was compiled earlier
    sys.path.insert(0, str(SRC))
    old = sys.pycache_prefix
    sys.pycache_prefix = os.environ.get("GV_SCRATCH", "/tmp") + "/no-pycache"
    import georinex
    import georinex.geo  # noqa: F401

    sys.pycache_prefix = old
    where = Path(georinex.__file__).resolve()
    if SRC not in where.parents:
        raise SystemExit(f"harness error: georinex imported from {where}, not {SRC}")
    import hypothesis  # noqa: F401


def case_digest(case) -> int:
    h = hashlib.blake2b(json.dumps(case, sort_keys=True).encode(), digest_size=8)
    return int.from_bytes(h.digest(), "big")


def sub_seed(*parts) -> int:
    h = hashlib.blake2b(repr(parts).encode(), digest_size=8)
    return int.from_bytes(h.digest(), "big")


@contextmanager
def _silence():
    """code under test prints; keep the real stdout for the harness"""
    save = sys.stdout
    null = open(os.devnull, "w")
    sys.stdout = null
    try:
        yield
    finally:
        sys.stdout = save
        null.close()


def _on_timer(signum, frame):
    raise Hang()


def classify(e: BaseException) -> str | None:
    """message if this exception is the code under test's fault, else None"""
    if isinstance(e, Violation):
        return str(e)
    if isinstance(e, Hang):
        return f"no result after {CPU_LIMIT:.0f} seconds of CPU time"
    tb = traceback.extract_tb(e.__traceback__)
    for f in tb:
        if str(SRC) in f.filename:
            return f"uncaught {type(e).__name__}: {e} [{Path(f.filename).name}:{f.lineno}]"
    # the generators never see results; the checks only read the case and results
    mine = [f for f in tb if "/gv/" in f.filename]
    if isinstance(e, (LookupError, TypeError, ValueError, AttributeError)) and not any(
            Path(f.filename).stem in ("model", "navmodel", "strat", "opt", "core") and f.name != "strip_loose" for f in mine[1:]):
        at = f"{Path(mine[-1].filename).name}:{mine[-1].lineno}" if mine else "?"
        return f"result cannot be interpreted: {type(e).__name__}: {e} [{at}]"
    return None


def listed_findings() -> dict[str, str]:
    """known_findings.txt: known: property=ID key=KEY what fails  ->  {"ID:KEY": what fails}"""
    global _FINDINGS
    if _FINDINGS is None:
        _FINDINGS = {}
        f = VERIF / "known_findings.txt"
        for ln in f.read_text().splitlines() if f.is_file() else []:
            if ln.startswith("known: "):
                _, prop, key, what = ln.split(" ", 3)
                _FINDINGS[prop.removeprefix("property=") + ":" + key.removeprefix("key=")] = what
    return _FINDINGS


_FINDINGS: dict[str, str] | None = None


def execute(facet: Facet, case, tmp: Path, prop: str) -> tuple[Rec, str | None]:
    """run one case -> (recorder, violation message or None).  Harness errors propagate."""
    rec = Rec(tmp=tmp, prop=prop)
    for p in tmp.iterdir():
        _rm(p)
    signal.signal(signal.SIGVTALRM, _on_timer)
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
    try:
        with _silence(), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            facet.check(case, rec)
        return rec, None
    except Abort:
        raise
    except Hang as e:
        return rec, classify(e)
    except Exception as e:
        msg = classify(e)
        if msg is None:
            raise
        return rec, msg
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def _rm(p: Path) -> None:
    import shutil

    if p.is_dir() and not p.is_symlink():
        shutil.rmtree(p, ignore_errors=True)
    else:
        p.unlink()


class FacetRun:
    """executes one facet in one shard and keeps the counts"""

    def __init__(self, prop: str, facet: Facet, tmp: Path, deadline: float):
        self.prop, self.facet, self.tmp, self.deadline = prop, facet, tmp, deadline
        self.evaluations = 0
        self.distinct: set[int] = set()
        self.nontrivial: set[int] = set()
        self.labels: dict[str, int] = {}
        self.samples: list = []
        self.best: dict | None = None
        self.first_fail = 0.0
        self.fails = 0
        self.aborted = False
        self.slowest = 0.0

    def one(self, case) -> None:
        now = time.monotonic()
        if now > self.deadline or (self.best and now - self.first_fail > SHRINK_BUDGET):
            raise Abort()
        # should the interpreter itself crash, gv.run finds here what it was at
        (self.tmp.parent / "current.json").write_text(json.dumps({"facet": self.facet.name, "case": case, "best": self.best}))
        rec, msg = execute(self.facet, case, self.tmp, self.prop)
        self.slowest = max(self.slowest, time.monotonic() - now)
        if self.best is None:  # counts: only the search, not the shrinking
            self.evaluations += 1
            d = case_digest(case)
            self.distinct.add(d)
            for lb in set(rec.labels):
                self.labels[lb] = self.labels.get(lb, 0) + 1
            if rec.is_nontrivial:
                if d not in self.nontrivial and len(self.samples) < 2:
                    self.samples.append(case)
                self.nontrivial.add(d)
        if msg is not None:
            self.fails += 1
            size = len(json.dumps(case))
            if self.best is None:
                self.first_fail = time.monotonic()
            if self.best is None or size <= self.best["size"]:
                self.best = {"size": size, "case": case, "message": msg, "files": dict(rec.files)}
            if msg.startswith("no result after"):
                raise Abort()  # do not minimise hangs: each try costs CPU_LIMIT
            raise Violation(msg)

    def run(self, seed: int, n: int, shard: int, shards: int, tier: str) -> None:
        if self.facet.cases is not None:
            for i, case in enumerate(self.facet.cases(tier)):
                if i % shards != shard:
                    continue
                try:
                    self.one(case)
                except Violation:
                    return
                except Abort:
                    self.aborted = self.best is None
                    return
            return
        from hypothesis import HealthCheck, Phase, Verbosity, given, seed as hseed, settings
        from hypothesis.errors import Flaky, HypothesisException

        @hseed(seed)
        @settings(max_examples=n, database=None, deadline=None, derandomize=False,
                  suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                  phases=(Phase.generate, Phase.shrink), verbosity=Verbosity.quiet, print_blob=False)
        @given(self.facet.strategy())
        def test(case):
            self.one(case)

        try:
            test()
        except Violation:
            pass
        except Abort:
            self.aborted = self.best is None
        except (Flaky, HypothesisException):
            if self.best is None:
                raise

    def summary(self) -> dict:
        return {
            "facet": self.facet.name, "rule": self.facet.rule, "evaluations": self.evaluations,
            "distinct": sorted(self.distinct), "nontrivial": sorted(self.nontrivial),
            "labels": self.labels, "samples": self.samples, "fails": self.fails,
            "best": self.best, "aborted": self.aborted, "slowest": round(self.slowest, 3),
        }
