"""python -m gv.run PROP [--facet NAME] [--shards N]: decide one property, write its evidence.

exit 0: held on everything explored; exit 1 and a VIOLATION line: broken; exit 2: error of the check
"""

from __future__ import annotations

import argparse
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from pathlib import Path

from . import core

BUDGET = {"quick": 420.0, "thorough": 5400.0}
CRASHES = (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGBUS, -signal.SIGFPE, -signal.SIGILL)
AFTER_FAIL = 50.0  # seconds the other shards may go on after one has failed


def main() -> int:
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--facet", default="")
    ap.add_argument("--shards", type=int, default=8)
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--tier", default=None)
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = a.tier or os.environ.get("VERIF_TIER", "quick") or "quick"
    prop = a.prop.upper()
    t0 = time.monotonic()
    scratch = Path(tempfile.mkdtemp(prefix="gv-"))
    procs: list[subprocess.Popen] = []
    try:
        env = dict(os.environ, PYTHONHASHSEED="0", MPLBACKEND="Agg", TZ="UTC", LC_ALL="C.UTF-8",
                   OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONPATH=str(core.VERIF),
                   PYTHONDONTWRITEBYTECODE="1", GV_SCRATCH=str(scratch), TMPDIR=str(scratch))
        budget = BUDGET[tier]
        outs = [scratch / f"out{i}.json" for i in range(a.shards)]

        def start(i: int, again: str = "") -> subprocess.Popen:
            tmp = scratch / f"w{i}{again}"
            tmp.mkdir()
            p = subprocess.Popen(
                [sys.executable, "-B", "-m", "gv.worker", prop, str(i), str(a.shards), str(seed), tier,
                 str(tmp), str(outs[i]), str(budget), a.facet],
                cwd=core.VERIF, env=env, stdout=subprocess.DEVNULL, stderr=(scratch / f"err{i}").open("w"),
                start_new_session=True)
            procs.append(p)
            return p

        running = {i: start(i) for i in range(a.shards)}
        crashed: set[int] = set()
        first_fail = None
        hard = t0 + budget + 3 * core.CPU_LIMIT
        seen: dict[int, dict] = {}
        while len(seen) < a.shards:
            for i, out in enumerate(outs):
                if i in seen:
                    continue
                if out.is_file():
                    seen[i] = json.loads(out.read_text())
                elif running[i].poll() in CRASHES and i not in crashed and not out.is_file():
                    # the interpreter itself crashed: once more, to see whether the case does that again
                    crashed.add(i)
                    running[i] = start(i, "again")
                    continue
                elif running[i].poll() is not None and not out.is_file():
                    seen[i] = {"shard": i, "facets": [],
                               "error": f"worker ended {running[i].returncode}: " + (scratch / f"err{i}").read_text()[-2000:]}
                    if i in crashed and running[i].returncode in CRASHES:
                        seen[i] = crash(i, running[i].returncode, json.loads((scratch / f"w{i}again" / "current.json").read_text()))
                else:
                    continue
                if any(f["best"] for f in seen[i]["facets"]):
                    first_fail = first_fail or time.monotonic()
            now = time.monotonic()
            if now > hard or (first_fail and now - first_fail > AFTER_FAIL):
                break
            time.sleep(0.05)
        return report(prop, tier, seed, t0, a, seen)
    finally:
        for p in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
            p.wait()
        shutil.rmtree(scratch, ignore_errors=True)


def crash(shard: int, code: int, at: dict) -> dict:
    """a shard whose interpreter crashed twice in the same place, as the result of that shard"""
    best = at["best"] or {"size": 1 << 30, "case": at["case"], "message": f"the interpreter crashes ({signal.Signals(-code).name})", "files": {}}
    f = {"facet": at["facet"], "rule": "", "evaluations": 1, "distinct": [], "nontrivial": [], "labels": {}, "samples": [], "fails": 1, "best": best, "aborted": False, "slowest": 0.0}
    return {"shard": shard, "facets": [f], "error": None}


def report(prop, tier, seed, t0, a, seen) -> int:
    sys.path.append(core.HYP)
    facets: dict[str, dict] = {}
    errors = [s["error"] for s in seen.values() if s["error"]]
    fails = []
    for s in seen.values():
        for f in s["facets"]:
            g = facets.setdefault(f["facet"], {"evaluations": 0, "d": set(), "n": set(), "labels": {},
                                               "samples": [], "rule": f["rule"], "wall": 0.0, "cut_short": 0, "slowest": 0.0})
            g["evaluations"] += f["evaluations"]
            g["d"].update(f["distinct"])
            g["n"].update(f["nontrivial"])
            g["wall"] = max(g["wall"], f.get("wall", 0))
            g["slowest"] = max(g["slowest"], f["slowest"])
            g["cut_short"] += bool(f["aborted"])
            for k, v in f["labels"].items():
                g["labels"][k] = g["labels"].get(k, 0) + v
            if len(g["samples"]) < 2:
                g["samples"] += f["samples"][:1]
            if f["best"]:
                fails.append((f["best"]["size"], f["facet"], f["best"]))
    fails.sort(key=lambda t: t[0])
    meta = json.loads((core.VERIF / "MANIFEST.json").read_text())
    level = next((c["level"] for c in meta["checks"] if c["property"] == prop), "exploration")
    rules = {}
    samples = []
    for n, g in facets.items():
        for c in g["samples"]:
            txt = json.dumps(c)
            samples.append({"facet": n, "case": c if len(txt) < 2500 else txt[:2500] + "..."})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": level,
        "coverage": {
            "evaluations": sum(g["evaluations"] for g in facets.values()),
            "distinct_nontrivial": sum(len(g["n"]) for g in facets.values()),
            "rule": "; ".join(f"[{n}] {g['rule']}" for n, g in facets.items()),
            "samples": samples[:12],
            "facets": {n: {"evaluations": g["evaluations"], "distinct": len(g["d"]), "distinct_nontrivial": len(g["n"]),
                           "labels": dict(sorted(g["labels"].items())), "slowest_case_s": g["slowest"], "wall_s": g["wall"],
                           "shards_cut_short": g["cut_short"]}
                       for n, g in facets.items()},
            "shards": a.shards,
        },
        "assumptions": ASSUMPTIONS,
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": len(fails),
    }
    if not a.no_evidence:
        d = core.VERIF / "evidence"
        d.mkdir(exist_ok=True)
        while len(json.dumps(ev)) > 60000 and ev["coverage"]["samples"]:
            ev["coverage"]["samples"].pop()
        (d / f"{prop}.json").write_text(json.dumps(ev, indent=1) + "\n")
    if os.environ.get("GV_VERBOSE"):
        for n, g in facets.items():
            print(f"  {n}: {g['evaluations']} cases, {len(g['n'])} non-trivial, {g['wall']:.1f} s (slowest {g['slowest']:.2f}) {dict(sorted(g['labels'].items()))}")
    for key, what in core.listed_findings().items():
        if key.startswith(prop + ":"):
            n = sum(g["labels"].get("known finding " + key.split(":")[1], 0) for g in facets.values())
            print(f"KNOWN-FINDING: property={prop} {what} [{n} generated cases show it]")
    if fails:
        size, fname, best = fails[0]
        rdir = core.VERIF / "evidence" / "replay"
        rdir.mkdir(parents=True, exist_ok=True)
        path = rdir / f"{prop}-{fname}.json"
        path.write_text(json.dumps({"property": prop, "facet": fname, "message": best["message"], "seed": seed,
                                    "tier": tier, "case": best["case"], "files": best["files"]}, indent=1) + "\n")
        print(f"{prop} {fname}: {best['message']}"[:3000])
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors:
        print("harness error:", errors[0][-3000:], file=sys.stderr)
        return 2
    total = ev["coverage"]["evaluations"]
    if total == 0 or len(seen) < a.shards:
        print("harness error: shards missing or nothing executed", file=sys.stderr)
        return 2
    print(f"{prop} held: {total} cases, {ev['coverage']['distinct_nontrivial']} distinct non-trivial, {ev['wall_s']} s")
    return 0


ASSUMPTIONS = [
    "expected values are computed from the characters the generator wrote, with Python float() and datetime",
    "the third-party readers numpy, xarray, netCDF4, hatanaka and ncompress work as documented",
    "exploration: the property is shown on the generated cases, not proved for all inputs",
]

if __name__ == "__main__":
    sys.exit(main())
