"""python -m gv.worker PROP SHARD SHARDS SEED TIER TMP OUT BUDGET: one shard of one property"""

from __future__ import annotations

import importlib
import json
import os
import resource
import sys
import time
import traceback
from pathlib import Path

from . import core


def main() -> int:
    prop, shard, shards, seed, tier, tmp, out, budget = sys.argv[1:9]
    only = sys.argv[9].split(",") if len(sys.argv) > 9 and sys.argv[9] else None
    shard, shards, seed = int(shard), int(shards), int(seed)
    lim = 8 << 30
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    core.setup_environment()
    mod = importlib.import_module(f"gv.props.{prop.lower()}")
    tmpd = Path(tmp)
    work = tmpd / "case"
    work.mkdir()
    os.chdir(tmpd)
    start = time.monotonic()
    deadline = start + float(budget)
    res: dict = {"shard": shard, "facets": [], "error": None}
    try:
        for f in mod.FACETS:
            if only and f.name not in only:
                continue
            n = f.quick if tier == "quick" else f.thorough
            scale = float(os.environ.get("GV_SCALE", "1"))
            mine = int(n * scale) // shards + (1 if shard < int(n * scale) % shards else 0)
            if f.cases is None and mine == 0:
                continue
            run = core.FacetRun(prop, f, work, deadline)
            t0 = time.monotonic()
            try:
                run.run(core.sub_seed(seed, prop, f.name, shard), mine, shard, shards, tier)
            finally:
                s = run.summary()
                s["wall"] = round(time.monotonic() - t0, 2)
                res["facets"].append(s)
            if run.best:
                break
    except BaseException:
        res["error"] = traceback.format_exc()
    Path(out + ".part").write_text(json.dumps(res))
    os.rename(out + ".part", out)
    return 0


if __name__ == "__main__":
    sys.exit(main())
