"""C28: text layout that carries no information does not change the result"""

import random

from hypothesis import strategies as st

import georinex as gr

from .. import content, opt, view
from ..core import Facet, fail, require
from ..io_ import fast_guaranteed
from ..model import header_line, mix

TYPES = ("# / TYPES OF OBSERV", "SYS / # / OBS TYPES")
COMMENTS = ["", "a comment", "  2  3  5.000  G01G02", "a much longer comment that fills all of the sixty columns .", "END OF HEADER is still to come", "# / TYPES OF OBSERV", "> 2019 01 01 00 00  0.0000000  0  1", "INTERVAL 99", "7", "  9    C1    P2"]

BEYOND = ["1", "  1.000  ", " remark", "00000001", " 12.3456789D+01 " * 3, "G01G02"]


def reorder(lines: list[str], c, r: random.Random) -> list[str]:
    """satellites of every epoch in another order (data lines of an OBS file)"""
    out, i = [], 0
    for sats in c.model.epoch_sats:
        n = len(sats)
        perm = list(range(n))
        r.shuffle(perm)
        if c.fmt == "obs3":
            out.append(lines[i])
            out += [lines[i + 1 + k] for k in perm]
            i += 1 + n
            continue
        nh = max(1, (n + 11) // 12)
        head = [x.ljust(80) for x in lines[i:i + nh]]
        names = "".join(x[32:68] for x in head)
        names = [names[3 * k:3 * k + 3] for k in range(n)]
        names = [names[k] for k in perm]
        for q in range(nh):
            head[q] = head[q][:32] + f"{''.join(names[12 * q:12 * q + 12]):36s}" + head[q][68:]
        out += [x.rstrip() for x in head]
        i += nh
        nl = c.model.nl
        for k in perm:
            out += lines[i + k * nl:i + (k + 1) * nl]
        i += n * nl
    assert i == len(lines), (i, len(lines))
    return out


def fixed(c) -> set[int]:
    """data lines (0: first after the header) whose trailing blanks do matter: BeiDou records without any spare field"""
    if c.fmt != "nav3":
        return set()
    out = set()
    for rec in c.model.recs:
        if rec["sv"][0] == "C" and rec["n"] == 27:
            a = c.text[c.model.header_end:rec["span"][0]].count("\n")
            out.add(a + 5)
    return out


def rewrite(c, case) -> str:
    r = random.Random(mix(case["salt"], 28))
    head = c.text[:c.model.header_end].split("\n")[:-1]
    data = c.text[c.model.header_end:].split("\n")[:-1]
    do = set(case["do"])
    if "order" in do and c.fmt.startswith("obs"):
        data = reorder(data, c, r)
    fix = fixed(c)
    if "comments" in do:
        for _ in range(r.choice([1, 2, 5])):
            txt = r.choice(COMMENTS)
            head.insert(r.randint(1, len(head) - 1), header_line(txt[:60], "COMMENT"))
    if "between" in do:  # between the continuation lines of the types
        for k in range(len(head) - 1, 0, -1):
            if head[k][60:].strip() in TYPES and head[k - 1][60:].strip() == head[k][60:].strip():
                head.insert(k, header_line(r.choice(COMMENTS)[:60], "COMMENT"))
    if "header" in do:
        head = [head[0]] + [x.rstrip() if r.random() < 0.5 else x.ljust(80) + " " * r.choice([0, 1, 5, 40]) for x in head[1:]]
        if r.random() < 0.5:
            head[0] = head[0] + " " * r.choice([1, 2, 20])
    if "trim" in do:
        data = [x if i in fix else x.rstrip() for i, x in enumerate(data)]
    if "pad" in do:
        w = r.choice([80, 81, 82, 100, 130])
        data = [x if i in fix else x.ljust(w) for i, x in enumerate(data)]
    if "mixed" in do:
        data = [x if i in fix else x.rstrip() + " " * r.choice([0, 0, 1, 2, 3, 16, 30, 90]) for i, x in enumerate(data)]
    if "beyond" in do and c.fmt != "obs3":  # columns after the 80th
        data = [x if i in fix or r.random() < 0.5 else x.ljust(80) + r.choice(BEYOND) for i, x in enumerate(data)]
    if "lead" in do:
        head = [" " * r.choice([0, 0, 1, 60, 80]) for _ in range(r.choice([1, 2, 5, 8]))] + head
    text = "\n".join(head + data) + "\n"
    if "nonl" in do and data:
        text = text[:-1]
    if "crlf" in do:
        text = text.replace("\n", "\r\n")
    return text


def check(case, rec):
    c = content.build(case)
    flipped = None
    if "digits" in case["do"] or "letters" in case["do"]:
        lay = dict(case["lay"])
        if "digits" in case["do"]:
            lay["blankdigit"] = not lay.get("blankdigit")
            lay["zero"] = not lay.get("zero", 1)
        if "letters" in case["do"]:
            lay["E"] = not lay.get("E")
        flipped = content.build({**case, "lay": lay})
        if flipped.expected != c.expected or flipped.times != c.times:
            raise RuntimeError("generator: layout knobs change the content")
    text = rewrite(flipped or c, case)
    d0, d1 = rec.tmp / "a", rec.tmp / "b"
    d0.mkdir()
    d1.mkdir()
    ref, p = d0 / c.name, d1 / c.name
    ref.write_bytes(c.text.encode())
    p.write_bytes(text.encode())
    rec.files["original"], rec.files["rewritten"] = c.text, text
    kw, exp = {}, c.expected
    obs = c.fmt.startswith("obs")
    if obs:
        lim = us = names = use = None
        if case["tlim"]:
            kw["tlim"], lim = opt.pick_tlim(c.model, case["tlim"])
        if case["meas"]:
            kw["meas"], names = opt.pick_meas(c.model, case["meas"])
        if case["use"]:
            kw["use"], use = opt.pick_use(c.model, case["use"])
        if case["ind"]:
            kw["useindicators"] = True
        exp = opt.expect(c.model, use=use, names=names, lim=lim, ind=case["ind"])
        if c.fmt == "obs2":
            kw["fast"] = False
    what = f"rewritten ({', '.join(sorted(case['do']))}) {kw}"
    rec.label(c.fmt, *case["do"])
    rec.nontrivial(len(exp) > 3 and text != c.text)
    view.same(exp, c.cells(rec.call(gr.load, ref, **kw)), f"original {kw}")
    view.same(exp, c.cells(rec.call(gr.load, p, **kw)), what)
    t0, t1 = rec.call(gr.gettime, ref), rec.call(gr.gettime, p)
    require(all(abs(a - b) < 999.95 for a, b in zip(view.times_us(t0), c.times)) and len(t0) == len(c.times), "gettime of the original differs from what was written")
    require(t0.tolist() == t1.tolist(), lambda: f"{what}: gettime gives {[str(x) for x in t1][:6]} instead of {[str(x) for x in t0][:6]}")
    if case["fast"] and c.fmt == "obs2":
        ds, e = rec.attempt(gr.load, p, **{**kw, "fast": True})
        if e is None:
            view.same(exp, c.cells(ds), f"{what}, fast")
        elif not isinstance(e, IndexError) or fast_guaranteed(text, c.model.nl, len(c.model.t)):
            fail(f"{what}, fast: {type(e).__name__}: {e}")


DO = st.lists(st.sampled_from(["crlf", "nonl", "comments", "between", "header", "trim", "pad", "mixed", "digits", "letters", "order", "lead", "beyond"]), min_size=1, max_size=6, unique=True)
KNOBS = dict(do=DO, tlim=st.one_of(st.none(), st.none(), st.none(), opt.TLIM), meas=st.one_of(st.none(), st.none(), st.none(), opt.MEAS), use=st.one_of(st.none(), st.none(), st.none(), opt.USE),
             ind=st.sampled_from([False, False, True]), fast=st.booleans())


def obs2():
    return content.with_knobs(content.small("obs2", ntypes=st.one_of(st.integers(1, 7), st.integers(8, 30)), npool=st.one_of(st.integers(1, 8), st.integers(11, 26))), **KNOBS)


def obs3():
    return content.with_knobs(content.small("obs3", ntypes=st.lists(st.one_of(st.integers(1, 14), st.integers(12, 30)), min_size=1, max_size=3)), **KNOBS)


def nav(f):
    return lambda: content.with_knobs(content.small(f), **KNOBS)


RULE = "generated {} file rewritten by 1-6 of: CR LF, no final line end, header comments (also between continuation lines), trimmed and padded header and data lines, blank digits, exponent letters, satellite order, blank lines before the first, text after column 80 (not RINEX 3 OBS); non-trivial: more than 3 values expected and the text differs"
FACETS = [
    Facet("obs2", obs2, check, 600, 10000, rule=RULE.format("RINEX 2 OBS")),
    Facet("obs3", obs3, check, 600, 10000, rule=RULE.format("RINEX 3 OBS")),
    Facet("nav2", nav("nav2"), check, 500, 8000, rule=RULE.format("RINEX 2 NAV")),
    Facet("nav3", nav("nav3"), check, 500, 8000, rule=RULE.format("RINEX 3 NAV")),
]
