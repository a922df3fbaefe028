"""putting generated text where the code under test can read it"""

from __future__ import annotations

import io
from pathlib import Path

from .core import Rec


def put(rec: Rec, text: str, name: str = "in.rnx") -> Path:
    p = rec.tmp / name
    p.write_bytes(text.encode("latin-1"))
    if len(rec.files) < 6:
        rec.files[name] = text
    return p


def stream(text: str) -> io.StringIO:
    return io.StringIO(text)


def fast_guaranteed(text: str, nl: int, nepochs: int) -> bool:
    """the file is large enough for the documented estimate of six satellites per epoch"""
    return len(text) >= 80 * 6 * nl * nepochs


def fast_estimate_holds(text: str, nl: int, nepochs: int) -> bool:
    """the file is large enough for six satellites per epoch, each of as many full lines as the first one

    Only for text laid out by model.build_obs2 without insertions: the first line after the header is an epoch line.
    """
    lines = text.split("\n")
    i = next(k for k, ln in enumerate(lines) if ln[60:].startswith("END OF HEADER")) + 1
    try:
        n = int(lines[i][29:32])
    except (IndexError, ValueError):
        return fast_guaranteed(text, nl, nepochs)
    first = lines[i + max(1, -(-n // 12)):][:nl]
    full = sum(len(ln) >= 78 for ln in first)
    return not full or len(text) >= 80 * 6 * full * nepochs
