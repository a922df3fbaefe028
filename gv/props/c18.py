"""C18: header and file info report what the header says"""

import random

from hypothesis import strategies as st

import georinex as gr

from .. import content, geod, view
from ..core import Facet, require
from ..io_ import put, stream
from ..model import header_line, mix

OPTIONAL = ["INTERVAL", "APPROX POSITION XYZ", "TIME OF FIRST OBS", "TIME OF LAST OBS", "REC # / TYPE / VERS", "# OF SATELLITES", "LEAP SECONDS", "RCV CLOCK OFFS APPL", "MARKER NAME",
            "ION ALPHA", "ION BETA", "IONOSPHERIC CORR", "TIME SYSTEM CORR"]
EXTRA = {
    "obs2": ["LEAP SECONDS", "OBSERVER / AGENCY", "ANT # / TYPE", "MARKER NUMBER", "PRN / # OF OBS", "SOMETHING NEW", "COMMENT", "# OF SATELLITES"],
    "obs3": ["LEAP SECONDS", "OBSERVER / AGENCY", "ANT # / TYPE", "SYS / PHASE SHIFT", "GLONASS SLOT / FRQ #", "SIGNAL STRENGTH UNIT", "SOMETHING NEW", "COMMENT", "SYS / SCALE FACTOR"],
    "nav2": ["LEAP SECONDS", "COMMENT", "DELTA-UTC: A0,A1,T,W", "SOMETHING NEW", "CORR TO SYSTEM TIME"],
    "nav3": ["LEAP SECONDS", "COMMENT", "SOMETHING NEW"],
}
TYPES = {"obs2": "# / TYPES OF OBSERV", "obs3": "SYS / # / OBS TYPES"}
WORDS = ["18", "0.0000", "TRIMBLE", "NP 1.00 / SP 1.22", "GFZ", "-1", "R01  1", "a b c", "2019", "12345", "1.5D-09", "G", "O'Brien"]
RX = [("12345", "TRIMBLE NETR9", "5.22"), ("", "LEICA GR25", "1.0"), ("0220247558", "TRIMBLE 5700", "NP 1.00 / SP 1.22"), ("IR 22", "ASHTECH UZ-12", ""), ("1", "X", "1"), ("98765432109876543210", "SEPT POLARX5TR ABCDE", "5.3.2-extended-build")]


def norm(s) -> str:
    return " ".join(str(s).split())


def text_of(r: random.Random) -> str:
    return ("  ".join(r.choice(WORDS) for _ in range(r.randint(1, 3))))[:58]


def within_types(recs, pos, label) -> bool:
    """whether the next record continues a list of types; only comments may stand within one"""
    nxt = next(((cont, lb) for cont, lb in recs[pos:] if lb != "COMMENT"), ("x", ""))
    return nxt[1] == label and not nxt[0][:6].strip()


def edit(c, case):
    """other content of optional records, further records -> (text, records)"""
    r = random.Random(mix(case["salt"], 99))
    recs = list(c.model.hdr["records"])
    out = []
    mixed = c.fmt.startswith("obs") and c.model.systems == "M"
    for k, (cont, label) in enumerate(recs):
        m = mix(case["salt"], k, 31) % 100
        if label == "REC # / TYPE / VERS":
            cont = "".join(f"{x:20s}" for x in RX[mix(case["salt"], 3) % len(RX)])
        if label == "INTERVAL" and c.fmt.startswith("obs"):
            cont = ["    30.000", "     1.000", "     0.500", "    15", "  3600.00", "   30.0000   seconds", "       .1", "    12.345", "  1234.567", "0.03333333"][mix(case["salt"], 4) % 10]
        if label in OPTIONAL and m < case["blank"] and not (label == "TIME OF FIRST OBS" and mixed):
            cont = ""
        out.append((cont, label))
        if label == "APPROX POSITION XYZ" and cont and case["dup"]:
            out.append((["    1.0000      2.0000     3.0000", ""][case["dup"] % 2], label))
    names = EXTRA[c.fmt]
    for k in case["extra"]:
        pos = r.randint(1, len(out))
        while names[k % len(names)] != "COMMENT" and within_types(out, pos, TYPES.get(c.fmt)):
            pos += 1
        nm = names[k % len(names)]
        if nm == "# OF SATELLITES":
            out.insert(pos, (f"{r.randint(1, 99):6d}", nm))
        else:
            out.insert(pos, (text_of(r) if r.random() < 0.8 else "", nm))
    head = c.text[: c.model.header_end].split("\n")
    trim = bool(case["lay"].get("trimhdr"))
    L = [head[0]] + [header_line(a, b, trim) for a, b in out] + [header_line("", "END OF HEADER", trim)]
    return "\n".join(L) + "\n" + c.text[c.model.header_end:], out


def check_info(info, c, what):
    kind = c.fmt[:3]
    require(view.attr_equal(info["version"], c.model.hdr["version"]), lambda: f"{what}: version {info['version']!r}")
    require(info["rinextype"] == kind, lambda: f"{what}: rinextype {info['rinextype']!r}")
    if kind == "obs":
        want, letter = "O", c.model.systems
    elif c.fmt == "nav2":
        want = c.text[20]
        letter = {"N": "G", "G": "R", "E": "E"}[want]
    else:
        want, letter = "N", c.model.hdr["letter"]
    require(info["filetype"] == want, lambda: f"{what}: filetype {info['filetype']!r}, not {want!r}")
    require(info["systems"] == letter, lambda: f"{what}: systems {info['systems']!r}, not {letter!r}")


def check(case, rec):
    c = content.build(case)
    text, recs = edit(c, case)
    p = put(rec, text, c.name)
    first: dict[str, str] = {}
    everything: dict[str, list[str]] = {}
    for cont, label in recs:
        first.setdefault(label, cont)
        everything.setdefault(label, []).append(cont)
    check_info(rec.call(gr.rinexinfo, p), c, "rinexinfo(file)")
    check_info(rec.call(gr.rinexinfo, stream(text)), c, "rinexinfo(stream)")
    if case["src"] == 0:
        h = rec.call(gr.rinexheader, str(p))
    elif case["src"] == 1:
        h = rec.call(gr.rinexheader, stream(text))
    elif case["src"] == 2:
        with p.open() as f:
            h = rec.call(gr.rinexheader, f)
    else:
        h = rec.call(gr.rinexheader, p)
    what = f"rinexheader (source {case['src']})"
    check_info(h, c, what)
    rec.label(c.fmt, f"source {case['src']}")
    rec.nontrivial(len(everything) > 3)
    # every label with its content
    for label, conts in everything.items():
        if label in ("IONOSPHERIC CORR", "TIME SYSTEM CORR", TYPES.get(c.fmt)):
            continue
        require(label in h, f"{what}: {label} is missing")
        if label == "# OF SATELLITES":
            require(h[label] == int(conts[0][:6]) if conts[0].strip() and c.fmt == "obs2" and len(conts) == 1 else True, lambda: f"{what}: {label} {h[label]!r}")
        elif c.fmt.startswith("obs"):
            require(norm(h[label]) == norm(" ".join(conts)) and (len(conts) > 1 or h[label].strip() == conts[0].strip()), lambda: f"{what}: {label}: {h[label]!r} instead of {conts}")
        else:
            require(h[label].strip() == conts[-1].strip(), lambda: f"{what}: {label}: {h[label]!r} instead of {conts[-1]!r}")
    known = set(everything) | {"version", "filetype", "rinextype", "systems", "Nobs", "Nl_sv", "position", "position_geodetic", "fields", "fields_ind", "Nobsused", "t0", "t1", "interval", "rxmodel", "Fmax", ""}
    require(set(h) <= known, lambda: f"{what}: keys that the header does not hold: {sorted(set(h) - known)}")
    if c.fmt.startswith("obs"):
        obs_keys(h, c, first, what)
    elif c.fmt == "nav3":
        for label, key in (("IONOSPHERIC CORR", "ion"), ("TIME SYSTEM CORR", "tsc")):
            want = {k[:4].strip(): c.model.hdr[key][k[:4].strip()] for k in everything.get(label, []) if k.strip()}
            got = h.get(label, {})
            require(isinstance(got, dict) and set(got) == set(want) and all(view.attr_equal(got[k], want[k]) for k in want), lambda: f"{what}: {label}: {got!r} instead of {want!r}")
    # nor does any of it harm reading
    ds = rec.call(gr.load, p, fast=False)
    view.same(c.expected, c.cells(ds), "data")


def obs_keys(h, c, first, what):
    m = c.model

    def value(key, want):
        if want is None:
            require(key not in h, lambda: f"{what}: {key} is {h[key]!r} though the header does not state it")
        else:
            require(key in h, f"{what}: {key} is missing")
            ok = h[key] == want if key in ("t0", "t1", "rxmodel") else view.attr_equal(h[key], want)
            require(ok, lambda: f"{what}: {key} is {h[key]!r} instead of {want!r}")

    def stated(label):
        return bool(first.get(label, "").strip())

    pos = [float(x) for x in first["APPROX POSITION XYZ"].split()] if stated("APPROX POSITION XYZ") else None
    value("position", pos)
    if pos and any(pos):
        require("position_geodetic" in h and geod.agree(h["position_geodetic"], pos), lambda: f"{what}: position_geodetic {h.get('position_geodetic')!r} of {pos}")
    elif not pos:
        require("position_geodetic" not in h, f"{what}: position_geodetic without position")
    value("interval", float(first["INTERVAL"][:10]) if stated("INTERVAL") else None)
    value("t0", m.hdr["t0"] if stated("TIME OF FIRST OBS") else None)
    if m.v == 2:
        value("t1", m.hdr["t1"] if stated("TIME OF LAST OBS") else None)
        rx = first.get("REC # / TYPE / VERS", "")[20:40].strip()
        value("rxmodel", rx or None)
        types = next(iter(m.types.values()))
        require(list(h["fields"]) == types and list(h["# / TYPES OF OBSERV"]) == types, lambda: f"{what}: fields {h['fields']} instead of {types}")
        require(h["Nobs"] == len(types), lambda: f"{what}: Nobs {h['Nobs']}")
    else:
        require({k: list(x) for k, x in h["fields"].items()} == m.hdr["declared"], lambda: f"{what}: fields {h['fields']} instead of {m.hdr['declared']}")


KNOBS = dict(blank=st.sampled_from([0, 0, 30, 70]), dup=st.sampled_from([0, 0, 1, 2]), extra=st.lists(st.integers(0, 8), max_size=4), src=st.integers(0, 3))


def obs():
    hdr = st.fixed_dictionaries({"pos": st.sampled_from([1, 1, 1, 0, 2, 3]), "int": st.booleans(), "rx": st.booleans(), "t1": st.booleans(), "t0": st.booleans(), "order": st.booleans(),
                                 "ncomm": st.sampled_from([0, 0, 1, 3]), "nsats": st.booleans(), "wave": st.booleans(), "rcvclk": st.sampled_from([None, 0, 1])})
    return content.with_knobs(content.any_of(("obs2", "obs3"), hdr=hdr), **KNOBS)


def nav():
    return content.with_knobs(content.any_of(("nav2", "nav3")), **KNOBS)


RULE = "generated {} file with its header records blanked, repeated, added and permuted; info and header from path, text, open file and stream compared with the records written; non-trivial: more than 3 labels"
FACETS = [
    Facet("obs", obs, check, 700, 12000, rule=RULE.format("OBS 2/3")),
    Facet("nav", nav, check, 500, 8000, rule=RULE.format("NAV 2/3")),
]
