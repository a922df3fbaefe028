"""Hypothesis strategies of cases (JSON-able dictionaries of knobs)."""

from __future__ import annotations

from hypothesis import strategies as st

SALT = st.integers(0, 2**32 - 1)

NSAT = st.one_of(st.sampled_from([1, 2, 3, 4, 11, 12, 13, 23, 24, 25, 36, 37, 48]), st.integers(1, 14), st.integers(1, 50))
NTYPES2 = st.one_of(st.sampled_from([1, 4, 5, 6, 9, 10, 11, 15, 16, 18, 19, 20, 25, 27, 28]), st.integers(1, 8), st.integers(1, 30))
NTYPES3 = st.one_of(st.sampled_from([1, 2, 12, 13, 14, 25, 26, 27]), st.integers(1, 8), st.integers(1, 30))

# calendar positions worth visiting: year ends, leap days, the two-digit year window
DATES = st.one_of(
    st.sampled_from([
        [1980, 1, 6], [1999, 12, 31], [2000, 1, 1], [2000, 2, 28], [2000, 2, 29], [2004, 2, 28], [2019, 2, 28],
        [2024, 2, 28], [2024, 2, 29], [2019, 12, 31], [2016, 12, 31], [2079, 12, 30], [2079, 1, 1], [1996, 2, 29],
    ]),
    st.tuples(st.integers(1980, 2078), st.integers(1, 12), st.integers(1, 28)).map(list),
)


def t0s(frac: bool = True):
    us = st.one_of(st.just(0), st.just(0), st.sampled_from([100_000, 500_000, 999_000, 1000, 4_000, 123_000, 999_999, 1, 123_456]),
                   st.integers(0, 999_999)) if frac else st.just(0)
    clock = st.one_of(st.sampled_from([[0, 0, 0], [23, 59, 30], [23, 59, 59], [12, 0, 4], [1, 2, 3], [10, 10, 10]]),
                      st.tuples(st.integers(0, 23), st.integers(0, 59), st.integers(0, 59)).map(list))
    return st.tuples(DATES, clock, us).map(lambda x: x[0] + x[1] + [x[2]])


DAY = 86_400_000_000
DT_WHOLE = st.sampled_from([1_000_000, 30_000_000, 15_000_000, 5_000_000, 30_000_000, 60_000_000])
DT_ANY = st.one_of(
    DT_WHOLE, DT_WHOLE, st.sampled_from([100_000, 200_000, 50_000, 10_000, 1_000, 500_000, 1_500_000, 3_600_000_000, 86_400_000_000, 300_000_000, 30 * DAY, 320 * DAY]),
    st.integers(1, 5_000_000),
)


def epochs(max_epochs: int = 8, nsat=NSAT, dt=DT_ANY, min_epochs: int = 1):
    return st.lists(st.tuples(dt, nsat).map(list), min_size=min_epochs, max_size=max_epochs)


HDR = st.fixed_dictionaries({
    "pos": st.sampled_from([1, 1, 0, 1]),
    "int": st.booleans(),
    "rx": st.booleans(),
    "t1": st.booleans(),
    "order": st.booleans(),
    "ncomm": st.sampled_from([0, 0, 1, 3]),
})
LAY = st.fixed_dictionaries({
    "zero": st.booleans(),
    "trim": st.sampled_from([0, 1, 2]),
    "blankdigit": st.sampled_from([False, True, 2]),
    "trimhdr": st.booleans(),
})


def obs2(**over):
    d = {
        "v": st.just(2),
        "salt": SALT,
        "ver": st.sampled_from(["2.11", "2.10", "2", "2.12", "2.00"]),
        "sys": st.sampled_from(["M", "M", "M", "G", "G", "R", "E", " "]),
        "sysset": st.sampled_from([["G"], ["G", "R"], ["R", "G", "E"], ["G", "E"], ["G", "R", "E", "S"], ["G", "R", "E", "S", "C", "J"], ["E", "C"]]),
        "ntypes": NTYPES2,
        "npool": NSAT,
        "wide": st.booleans(),
        "t0": t0s(),
        "ep": epochs(),
        "dens": st.sampled_from([90, 60, 100, 30, 10]),
        "ind": st.sampled_from([0, 50, 100]),
        "hdr": HDR,
        "lay": LAY,
        "clk": st.sampled_from([False, False, True]),
        "pwr": st.sampled_from([0, 0, 30]),
    }
    d.update(over)
    return st.fixed_dictionaries(d)


def obs3(**over):
    d = {
        "v": st.just(3),
        "salt": SALT,
        "ver": st.sampled_from(["3.03", "3.04", "3.02", "3.01", "3.00", "3.05"]),
        "sys": st.sampled_from(["M", "M", "M", "G", "R", "E", "C", "J", "I"]),
        "sysset": st.sampled_from([["G"], ["G", "R"], ["E", "G", "R"], ["G", "R", "E", "C", "J", "I", "S"], ["C", "I"], ["J", "G", "S"], ["S", "G"], ["R", "C"]]),
        "ntypes": st.lists(NTYPES3, min_size=1, max_size=5),
        "share": st.booleans(),
        "unused": st.sampled_from([0, 0, 3, 17, 29]),
        "npool": NSAT,
        "wide": st.booleans(),
        "t0": t0s(),
        "ep": epochs(),
        "dens": st.sampled_from([90, 60, 100, 30, 10]),
        "ind": st.sampled_from([0, 50, 100]),
        "hdr": HDR,
        "lay": LAY,
        "clk": st.sampled_from([False, False, True]),
        "pwr": st.sampled_from([0, 0, 30]),
        "empty": st.sampled_from([0, 0, 20]),
    }
    d.update(over)
    return st.fixed_dictionaries(d)


NAV_STEP = st.one_of(st.sampled_from([72000, 36000, 18000, 6000, 10, 1, 5, 3]), st.integers(1, 100000))  # tenths of a second
NAV_DT = st.one_of(NAV_STEP, NAV_STEP, NAV_STEP, st.sampled_from([72000, 72000, 25_920_000, 276_480_000]))  # with gaps of a month and most of a year
NAV_LAY = st.fixed_dictionaries({
    "trim": st.sampled_from([0, 1]), "E": st.sampled_from([False, True, 2]), "zero": st.booleans(), "blankdigit": st.sampled_from([False, True, 2]), "trimhdr": st.booleans()})


def nav2(**over):
    d = {
        "v": st.just(2),
        "salt": SALT,
        "ver": st.sampled_from(["2.11", "2.10", "2", "2.12"]),
        "kind": st.sampled_from(["N", "N", "G", "E"]),
        "npool": st.one_of(st.integers(1, 6), st.integers(1, 32)),
        "wide": st.booleans(),
        "t0": t0s(False),
        "dts": st.lists(NAV_DT, min_size=1, max_size=8),
        "dens": st.sampled_from([100, 50, 20]),
        "order": st.sampled_from([0, 1, 2]),
        "omit": st.sampled_from([[0], [0, 1], [0, 1, 2], [2]]),
        "hdr": st.fixed_dictionaries({"ion": st.sampled_from([0, 1, 2]), "leap": st.booleans(), "ncomm": st.integers(0, 2)}),
        "lay": NAV_LAY.flatmap(lambda d: st.fixed_dictionaries({"spare": st.sampled_from([0, 1]), "altname": st.booleans()}).map(lambda e: {**d, **e})),
    }
    d.update(over)
    return st.fixed_dictionaries(d)


SYSTEMS3 = st.one_of(
    st.sampled_from([["G"], ["G", "R"], ["E", "G", "R", "C"], ["G", "R", "E", "C", "J", "I", "S"], ["C"], ["E"], ["J"], ["I"], ["S", "R"], ["R"]]),
    st.lists(st.sampled_from("GRECJIS"), min_size=1, max_size=7, unique=True))
ION = st.lists(st.sampled_from(["GPSA", "GPSB", "GAL", "QZSA", "QZSB", "BDSA", "BDSB", "IRNA", "IRNB"]), max_size=9, unique=True)
TSC = st.lists(st.sampled_from(["GPUT", "GAUT", "GLUT", "BDUT", "GAGP", "QZUT"]), max_size=4, unique=True)


def nav3(**over):
    d = {
        "v": st.just(3),
        "salt": SALT,
        "ver": st.sampled_from(["3.03", "3.04", "3.02", "3.01", "3.00", "3.05"]),
        "systems": SYSTEMS3,
        "npool": st.one_of(st.integers(1, 6), st.integers(1, 24)),
        "wide": st.booleans(),
        "t0": t0s(False),
        "dts": st.lists(NAV_DT, min_size=1, max_size=7),
        "dens": st.sampled_from([100, 50, 20]),
        "order": st.sampled_from([0, 1, 2]),
        "layknob": st.integers(0, 50),
        "laysv": st.booleans(),
        "blank": st.sampled_from([0, 0, 10, 40]),
        "hdr": st.fixed_dictionaries({"ion": ION, "tsc": TSC, "leap": st.booleans(), "ncomm": st.integers(0, 2)}),
        "lay": NAV_LAY,
    }
    d.update(over)
    return st.fixed_dictionaries(d)


def sp3(**over):
    d = {
        "salt": SALT,
        "kind": st.sampled_from("acd"),
        "nsv": st.one_of(st.sampled_from([1, 2, 16, 17, 18, 34, 35, 51, 85]), st.integers(1, 40), st.sampled_from([86, 102, 103, 120])),
        "t0": t0s(),
        "ep": st.lists(st.tuples(st.one_of(st.sampled_from([900_000_000, 300_000_000, 60_000_000, 1_000_000, 3_600_000_000, 30_000_000, 320 * DAY]), st.integers(1, 5_000_000))).map(list), min_size=1, max_size=6),
        "vel": st.sampled_from([0, 1, 1, 2]),
        "dens": st.sampled_from([100, 100, 70, 30]),
        "shuffle": st.booleans(),
        "sorted": st.booleans(),
        "sixty": st.booleans(),
        "extra": st.booleans(),
        "eof": st.booleans(),
        "nl": st.booleans(),
        "pad": st.booleans(),
        "blankid": st.booleans(),
        "blankdigit": st.sampled_from([False, True, 2]),
        "ncomm": st.sampled_from([0, 4, 9]),
        "foreign": st.sampled_from([False, False, False, True]),
        "nep": st.sampled_from([0, 0, 0, 1, 999000]),
    }
    d.update(over)
    return st.fixed_dictionaries(d)


def cycled(items, lo: int, hi: int, most: int = 5):
    """a list of lo to hi entries which repeats a short pattern: long histories that stay cheap to draw and to shrink"""
    return st.tuples(st.lists(items, min_size=1, max_size=most), st.integers(lo, hi)).map(lambda x: (x[0] * x[1])[: x[1]])
