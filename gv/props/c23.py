"""C23: a truncated or cut-off file still yields its complete leading epochs"""

from hypothesis import strategies as st

import georinex as gr

from .. import content, view
from ..core import Facet, require
from ..io_ import stream
from ..model import mix


def blocks(c):
    """[(start, end, time, satellites, expected cells)] of the epochs or records, in file order"""
    out = []
    if c.fmt.startswith("obs"):
        per: dict = {}
        for k, v in c.expected.items():
            per.setdefault(k[0], {})[k] = v
        for (a, b), t, sats in zip(c.model.epoch_span, c.model.t, c.model.epoch_sats):
            out.append((a, b, t, set(sats), per.get(t, {})))
    elif c.fmt.startswith("nav"):
        for r in c.model.recs:
            out.append((*r["span"], r["t"], {r["sv"]}, {(r["t"], r["sv"], k): v for k, v in r["values"].items()}))
    else:
        pos, starts = 0, []
        for ln in c.text.split("\n"):
            if ln.startswith("*"):
                starts.append(pos)
            pos += len(ln) + 1
        ends = starts[1:] + [len(c.text)]
        for a, b, t in zip(starts, ends, c.times):
            out.append((a, b, t, {k[1] for k in c.expected if k[0] == t}, {k: v for k, v in c.expected.items() if k[0] == t}))
    return out


def cut_points(c, case, bl):
    """offsets: in a block's first line, at a line end, in a number, anywhere"""
    first = bl[0][0]
    n = len(c.text)
    out = []
    for i, (how, x) in enumerate(case["cuts"]):
        h = mix(case["salt"], i, x)
        a, b = bl[h % len(bl)][:2]
        h >>= 20
        if how == "head":  # within the first line of a block
            e = c.text.find("\n", a)
            k = a + h % (max(e, a) - a + 1)
        elif how == "line":  # at the end of a line, before or after its line feed
            ends = [j for j in range(a, b) if c.text[j] == "\n"] or [b]
            k = ends[h % len(ends)] + (h >> 30) % 2
        elif how == "block":
            k = b - (h >> 30) % 2
        elif how == "row":  # within a line of the block
            k = a + h % max(1, b - a)
        else:
            k = first + h % max(1, n - first)
        out.append(min(max(k, first), n))
    if case["all"]:  # every byte of one block
        a, b = bl[mix(case["salt"], 8) % len(bl)][:2]
        step = max(1, (b - a) // 25)
        out += list(range(a + case["salt"] % step, b + 1, step))
    return out


def check(case, rec):
    c = content.build(case)
    bl = blocks(c)
    rec.label(c.fmt)
    if not bl:
        return
    kw = {"fast": False} if c.fmt == "obs2" else {}
    suffix = c.name
    for k in cut_points(c, case, bl):
        text = c.text[:k]
        p = rec.tmp / suffix
        p.write_text(text)
        rec.files = {suffix: text}
        src = stream(text) if case["stream"] and c.fmt != "sp3" else p
        whole = [x for x in bl if x[1] <= k]
        part = [x for x in bl if x[0] < k < x[1]]
        rec.nontrivial(bool(whole) and bool(part))
        rec.label("within a block" if part else "between blocks")
        if c.fmt != "sp3":
            cut_times(rec, c, src, whole, part, f"gettime of {c.fmt} cut after {k} of {len(c.text)} bytes (line {text.count(chr(10)) + 1})")
        ds, e = rec.attempt(gr.load, src, **kw)
        what = f"{c.fmt} cut after {k} of {len(c.text)} bytes (line {text.count(chr(10)) + 1})"
        if e is not None:
            require(isinstance(e, Exception), what)
            rec.label(f"{type(e).__name__}")
            if not part and c.fmt != "sp3" and whole:
                require(False, lambda: f"{what}: between two epochs, but loading raised {type(e).__name__}: {e}")
            continue
        rec.label("loaded")
        got = c.cells(ds)
        exp = {}
        for x in whole:
            exp.update(x[4])
        for key, v in exp.items():
            require(key in got, lambda: f"{what}: {view._name(key)} = {v!r} of a complete epoch is missing")
            require(view.close(v, got[key]), lambda: f"{what}: {view._name(key)} is {got[key]!r} instead of {v!r}")
        pairs = {(x[2], s) for x in whole + part for s in x[3]}
        full = {(x[2], s) for x in whole for s in x[3]}
        for key in got:
            if key in exp:
                continue
            pr = (key[0], key[1])
            require(pr in pairs, lambda: f"{what}: {view._name(key)} = {got[key]!r}: the file holds no such satellite and epoch before the cut")
            require(pr not in full or any(pr == (x[2], s) for x in part for s in x[3]), lambda: f"{what}: {view._name(key)} = {got[key]!r}: that field is blank")
        # of the incomplete block, only the number that the cut goes through may differ
        true = {}
        for x in part:
            true.update(x[4])
        wrong = [key for key in got if key not in exp and not (key in true and view.close(true[key], got[key])) and not (c.fmt == "nav3" and got[key] == 0)]  # what is not there reads as blank: zero
        require(len(wrong) <= 1, lambda: f"{what}: of the incomplete epoch, " + ", ".join(f"{view._name(q)} = {got[q]!r} instead of {true.get(q)!r}" for q in wrong[:4]))
        if part and len(got) > len(exp):
            rec.label("values of the incomplete block")
        if c.fmt != "sp3":
            view.coords_within(ds, {x[2] for x in whole + part}, {s for x in whole + part for s in x[3]}, what)


def cut_times(rec, c, src, whole, part, what):
    tt, e = rec.attempt(gr.gettime, src)
    if e is not None:
        return
    got = view.times_us(tt)
    must, may = [x[2] for x in whole], [x[2] for x in whole + part]
    if c.fmt.startswith("nav"):
        must, may = sorted(set(must)), sorted(set(may))
    ok = any(len(got) == len(w) and all(abs(a - b) < 999.95 for a, b in zip(got, w)) for w in (must, may))
    require(ok, lambda: f"{what}: {[str(t) for t in tt][-4:]}, the complete ones end with {[str(view.np.datetime64(t, 'us')) for t in must[-3:]]}")


KNOBS = dict(cuts=st.lists(st.tuples(st.sampled_from(["head", "head", "line", "block", "row", "any"]), st.integers(0, 1 << 20)).map(list), min_size=1, max_size=8), all=st.sampled_from([False, False, True]),
             stream=st.booleans())


def files(*fmts):
    return lambda: content.with_knobs(content.any_of(fmts), **KNOBS)


RULE = "generated {} cut at 1-8 places (in the first line of a block, at line ends, in numbers, anywhere) and now and then at every byte of one block; non-trivial: a complete and an incomplete block before the cut"
FACETS = [
    Facet("obs2", files("obs2"), check, 300, 5000, rule=RULE.format("RINEX 2 OBS file, strict mode,")),
    Facet("obs3", files("obs3"), check, 300, 5000, rule=RULE.format("RINEX 3 OBS file")),
    Facet("nav", files("nav2", "nav3"), check, 400, 6000, rule=RULE.format("NAV file")),
    Facet("sp3", files("sp3"), check, 100, 2000, rule=RULE.format("SP3 file")),
]
