"""python -m gv.replay FILE: run one recorded case again, without Hypothesis"""

from __future__ import annotations

import importlib
import json
import os
import shutil
import sys
import tempfile
from pathlib import Path

from . import core


def main() -> int:
    rep = json.loads(Path(sys.argv[1]).read_text())
    scratch = Path(tempfile.mkdtemp(prefix="gv-replay-"))
    os.environ["GV_SCRATCH"] = str(scratch)
    try:
        core.setup_environment()
        mod = importlib.import_module(f"gv.props.{rep['property'].lower()}")
        facet = next(f for f in mod.FACETS if f.name == rep["facet"])
        work = scratch / "case"
        work.mkdir()
        cwd = os.getcwd()
        os.chdir(scratch)
        rec, msg = core.execute(facet, rep["case"], work, rep["property"])
        os.chdir(cwd)
        if msg is None:
            print("the case passes now")
            return 0
        print("fails:", msg)
        if len(sys.argv) > 2:
            out = Path(sys.argv[2])
            out.mkdir(parents=True, exist_ok=True)
            for n, t in rec.files.items():
                (out / n).write_text(t)
        return 1
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
