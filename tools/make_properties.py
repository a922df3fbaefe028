#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (the table is the source)."""
import json
import pathlib

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe_at=None, state=None):
    assert len(title) <= 80, (id, len(title))
    d = {
        "id": id,
        "title": title,
        "statement": " ".join(statement.split()),
        "quantifier": {"over": over, "text": " ".join(text.split())},
        "why_tests_cant": " ".join(why.split()),
        "anchors": {
            "files": ["src/georinex/" + f for f in files],
            "mechanism": [{"name": n, "where": "src/georinex/" + w} for n, w in mechanism],
            "observe_at": observe_at or [],
            "hook_needed": None,
        },
    }
    if state:
        d["anchors"]["state"] = state
    P.append(d)


prop(
    "C01", "RINEX 2 observations are returned exact, complete and in place",
    """Loading a well-formed RINEX 2 observation file returns, for every epoch, satellite and observation
    type, exactly the number written in that field; a blank field is NaN, and no value is returned for any
    (epoch, satellite, type) the file does not hold. This is so for any satellite number (1-99), any number of
    satellites per epoch, any number of observation types, blank-padded satellite names, a blank satellite system
    letter (meaning GPS), trimmed or padded lines, and strict as well as fast reading.""",
    ["inputs"], "every well-formed RINEX 2 OBS file: any epochs, satellites, observation types, values and line layouts",
    """Tests read a handful of sample files and compare a few cells or one stored NetCDF; misplacement that needs a
    particular satellite count, type count, blank field or padding is never exercised.""",
    ["obs2.py", "base.py"],
    [("fixed-width satellite block parse", "obs2.py:rinexsystem2"), ("satellite list continuation", "obs2.py:_getsvind"),
     ("merge over systems", "obs2.py:rinexobs2")],
    ["georinex.load(file) data variables"],
)
prop(
    "C02", "RINEX 3 observations are returned exact, complete and in place",
    """Loading a well-formed RINEX 3 observation file returns, for every epoch, satellite and observation code of that
    satellite's system, exactly the number written in that field; a blank field is NaN, and no value is returned for any
    (epoch, satellite, code) the file does not hold. This is so for any mix of systems, any number of
    satellites per epoch, any number of codes per system (header continuation lines), codes shared between systems, satellites with
    no observation at all, and trimmed or padded lines.""",
    ["inputs"], "every well-formed RINEX 3 OBS file: any systems, code lists, epochs, satellites, values and line layouts",
    """Two small sample files are compared with stored results; per-system code lists of different lengths, empty
    satellite lines, more than 13 codes or large epochs occur in none with a checked value.""",
    ["obs3.py", "base.py"],
    [("per-epoch block parse", "obs3.py:_epoch"), ("observation code list", "obs3.py:obsheader3"),
     ("epoch loop", "obs3.py:rinexobs3")],
    ["georinex.load(file) data variables"],
)
prop(
    "C03", "Loss-of-lock and signal-strength indicators stay with their observation",
    """With indicators requested, the <type>lli variables (L1, L2, L5 in RINEX 2; codes starting L1 or L2 in RINEX 3) and the
    <type>ssi variables (every type but the signal strengths S1-S8 in RINEX 2; every code in RINEX 3) hold, at each epoch and satellite, the digit
    written beside that observation, NaN where blank. Asking for indicators never changes the observation values, with or without a
    measurement selection, and without asking no indicator variable is returned.""",
    ["inputs", "configurations"], "every OBS 2/3 file with any pattern of indicator digits, times any measurement and system selection",
    "Two stored NetCDF files cover the indicator path for one file each; blank digits, digits without a value and partial selections are not covered.",
    ["obs2.py", "obs3.py"],
    [("indicator columns", "obs2.py:rinexsystem2"), ("indicator columns", "obs3.py:_indicators")],
    ["georinex.load(file, useindicators=True)"],
)
prop(
    "C04", "RINEX 2 navigation records are returned exact, complete and in place",
    """Loading a well-formed RINEX 2 GPS, GLONASS or Galileo navigation file returns for every satellite and clock epoch each broadcast
    parameter under its name with the value written in its field (GLONASS position, velocity and acceleration converted from km to m),
    NaN where the file has no record or the record omits trailing fields, whatever the order of the records.
    Repeated records of one satellite for the same clock epoch never affect another satellite, nor are values of different records mixed into wrong fields.""",
    ["inputs"], "every well-formed RINEX 2 NAV file without repeated (satellite, epoch) records",
    "Tests compare one record of three sample files; record order, negative or abutting fields, trailing omissions and epochs across the century window are not covered.",
    ["nav2.py"],
    [("record parse and field names", "nav2.py:rinexnav2"), ("epoch parse", "nav2.py:_timenav")],
    ["georinex.load(file)"],
)
prop(
    "C05", "RINEX 3 navigation records are returned exact, complete and in place",
    """Loading a well-formed RINEX 3 navigation file with any mix of GPS, GLONASS, Galileo, BeiDou, QZSS, NavIC and SBAS returns for every satellite and clock epoch
    each broadcast parameter under its name with the value written in its field (GLONASS and SBAS position, velocity and acceleration converted from km to m),
    for each of the supported layouts of spare fields. A blank field inside a record reads as zero, and satellites or epochs without a record are NaN.""",
    ["inputs"], "every well-formed RINEX 3 NAV file: any systems interleaved in any order, any supported spare-field layout",
    "Stored references hold one or two satellites of four systems; interleaving, spare layouts per system and blank fields are sampled once or not at all.",
    ["nav3.py"],
    [("record parse", "nav3.py:rinexnav3"), ("field names", "nav3.py:_fields"), ("spare layouts", "nav3.py:_sparefields")],
    ["georinex.load(file)"],
)
prop(
    "C06", "Repeated navigation records of one satellite are all kept, none mixed",
    """When a RINEX 3 navigation file holds several records of one satellite with the same clock epoch, the n-th such record in file order is returned under the
    satellite name with suffix _(n-1) (no suffix for the first), each with all its own values. No record is lost, duplicated or mixed with another, and the other
    satellites are returned as if the repeats were absent.""",
    ["inputs"], "every multiset of (satellite, epoch) repeats in any order in a RINEX 3 NAV file",
    "One sample file with one pair of repeats is compared on a single parameter.",
    ["nav3.py"],
    [("duplicate-time loop", "nav3.py:rinexnav3")],
    ["georinex.load(file).sv / data"],
)
prop(
    "C07", "SP3 orbits are returned exact, complete and in place",
    """Loading an SP3-a, -c or -d file returns for every epoch and satellite the position, clock, velocity and clock rate written in that satellite's records, whatever the
    number of satellites (header continuation lines) and the order of the records within an epoch. Where the file has no such record the result is NaN, never another
    satellite's value or arbitrary memory content.""",
    ["inputs"], "every well-formed SP3-a/c/d file, with or without velocity records, with satellites absent from some epochs",
    "Tests check one or two satellites in five files; the first epoch without velocities, absent satellites and >17 satellites with gaps are unchecked.",
    ["sp3.py"],
    [("epoch/record loop", "sp3.py:load_sp3"), ("satellite list", "sp3.py:get_sv"), ("epoch time", "sp3.py:sp3dt")],
    ["georinex.load(file)"],
)
prop(
    "C08", "Time limits select exactly the epochs within the closed range",
    """Loading with time limits returns exactly the data of the full load whose epochs lie between start and stop, both included, for RINEX 2/3 OBS and NAV files, also when NAV records are
    not in time order, and whether the limits are datetimes or ISO strings. A range holding no epoch gives no data; a stop before the start raises ValueError.""",
    ["inputs", "configurations"], "every OBS/NAV file times every pair of limits, including limits equal to, between, before and after the epochs",
    "Four sample files with one range each; bounds exactly on an epoch, unordered records and empty ranges are not covered across formats.",
    ["obs2.py", "obs3.py", "nav2.py", "nav3.py", "utils.py", "base.py"],
    [("time skipping", "obs2.py:rinexsystem2"), ("time skipping", "obs3.py:rinexobs3"), ("time skipping", "nav2.py:rinexnav2"),
     ("time skipping", "nav3.py:rinexnav3"), ("limit conversion", "utils.py:_tlim")],
    ["georinex.load(file, tlim=...)"],
)
prop(
    "C09", "Selecting satellite systems equals filtering the full result",
    """Loading a RINEX 2/3 OBS or RINEX 3 NAV file with a selection of satellite systems returns exactly the values of the full load that belong to satellites of those systems, in whatever
    form (letter, list, tuple, set) and order the selection is given. A selection with no satellite in the file returns no data or raises KeyError, never data of another system.""",
    ["inputs", "configurations"], "every OBS/NAV3 file times every non-empty set of systems",
    "Tests select G or G,R in two files and compare with stored results.",
    ["obs2.py", "obs3.py", "nav3.py"],
    [("system filter", "obs2.py:rinexsystem2"), ("system filter", "obs3.py:obsheader3"), ("system filter", "nav3.py:rinexnav3")],
    ["georinex.load(file, use=...)"],
)
prop(
    "C10", "Selecting measurements equals filtering the full result",
    """Loading an OBS 2/3 file with a list of measurement names returns exactly those observation types of the full load whose name starts with one of the given names, with the same values at
    every epoch and satellite, whatever the order, overlap or repetition of the names. Names matching nothing add nothing.""",
    ["inputs", "configurations"], "every OBS file times every list of type names and prefixes",
    "Two sample files with a few names each; systems with different code lists and non-contiguous selections are barely covered.",
    ["obs2.py", "obs3.py"],
    [("field selection", "obs2.py:obsheader2"), ("field selection", "obs3.py:obsheader3")],
    ["georinex.load(file, meas=...)"],
)
prop(
    "C11", "Interval decimation keeps exactly the epochs due, intact",
    """Loading an OBS 2/3 file with interval N returns exactly the epochs that are due: the first epoch read (the first within the time limits, if given), then always the next epoch at or after the first
    epoch + k*N seconds, k being the number of epochs kept so far. They carry the data of the full load at those epochs, and no other epoch is returned, in fast and strict mode alike. Interval 0 or none
    keeps everything, and a negative interval raises ValueError.""",
    ["inputs", "configurations"], "every OBS file times every interval (seconds as int/float or timedelta), with regular and irregular epochs and gaps",
    "Tests count the epochs for two files and three intervals in fast mode only; no value at a kept epoch is compared.",
    ["obs2.py", "obs3.py", "common.py"],
    [("interval skipping", "obs2.py:rinexsystem2"), ("interval skipping", "obs3.py:rinexobs3"), ("interval check", "common.py:check_time_interval")],
    ["georinex.load(file, interval=...)"],
)
prop(
    "C12", "Fast and strict RINEX 2 reading agree",
    """For every RINEX 2 OBS file and combination of options, reading in fast mode returns the same data as strict mode, or raises the documented IndexError that advises strict mode; it never
    silently returns different, missing or extra epochs or values. A file whose size allows the assumed minimum of six satellites per epoch, each with as many full (78 characters or more) lines as its first satellite, never raises that error.""",
    ["inputs", "configurations"], "every RINEX 2 OBS file (any number of epochs, line lengths, satellites) times every option combination",
    "One sample file with a single epoch is read both ways.",
    ["obs2.py"],
    [("speculative preallocation", "obs2.py:_fast_alloc"), ("time count estimate", "obs2.py:_num_times"), ("strict preallocation", "obs2.py:obstime2")],
    ["georinex.load(file, fast=True/False)"],
)
prop(
    "C13", "Compression and container are transparent",
    """Any RINEX OBS/NAV or SP3 text read from a plain file, .gz, .bz2, .zip or .Z file, and any RINEX text read from an io.StringIO, gives the same data, times and header, whatever the file is named (short of the suffix of another compression) as long as its content
    identifies the compression, however the path is given (Path or text, absolute, relative to the working directory, or text with ~), and also when header comments contain non-ASCII bytes.""",
    ["inputs", "configurations"], "every readable file times every container, suffix spelling and naming",
    "Samples of each container exist, but only two contents are ever compared across containers.",
    ["rio.py", "utils.py", "base.py"],
    [("container detection", "rio.py:opener"), ("format detection", "rio.py:rinexinfo")],
    ["georinex.load / gettime / rinexheader"],
)
prop(
    "C14", "Hatanaka compression is transparent",
    """Any RINEX 2 or 3 observation file and its Hatanaka-compressed (CRINEX) form, plain or inside any supported compression container including .zip, give the same data, times, positions and time system, with every
    reading option.""",
    ["inputs", "configurations"], "every OBS file expressible in CRINEX times every container and option",
    "Three sample CRINEX files are read; none is compared with its uncompressed form.",
    ["rio.py", "obs2.py", "obs3.py"],
    [("CRINEX detection and expansion", "rio.py:opener"), ("CRINEX header", "rio.py:rinex_version")],
    ["georinex.load / gettime"],
)
prop(
    "C15", "NetCDF conversion round-trips",
    """Loading with an output path writes a NetCDF file which, when loaded again, gives the same data variables, coordinates and values (NaN included, sub-second times included) and the same descriptive attributes as the dataset
    returned by the conversion, for OBS and NAV of RINEX 2/3 and for SP3 (reopened with xarray). Writing to a directory names the output after the full input name plus .nc, and conversion never changes the returned data.""",
    ["inputs", "configurations"], "every readable file times every reading option times output as directory or file",
    "Sample files are round-tripped for data equality with default options; attributes are compared for SP3 only.",
    ["base.py", "sp3.py"],
    [("NetCDF write", "base.py:rinexobs"), ("NetCDF write", "base.py:rinexnav"), ("NetCDF read", "base.py:load"), ("NetCDF write", "sp3.py:load_sp3")],
    ["output file via georinex.load / xarray"],
)
prop(
    "C16", "An existing NetCDF group is never lost or altered unless overwrite is asked",
    """Over any sequence of conversions into the same NetCDF file, OBS and NAV data coexist: converting one kind into a file that already holds it raises ValueError and leaves the file's content
    unchanged, converting the other kind adds it and leaves the first intact, and loading a file holding both returns both. With overwrite requested the converted kind holds the newly converted data.
    The same holds for any group name given to the OBS and NAV readers, which reopen that group from the file.
    So do groups that another program put into the file, whatever they hold.
    Data loaded from the file and still in use hinder none of this and keep their values.
    An SP3 conversion into an existing file likewise raises ValueError and changes nothing unless overwrite is requested.""",
    ["histories"], "every sequence of OBS/NAV/SP3 conversions (with and without overwrite) and reloads on one output file",
    "No test converts twice into the same file.",
    ["base.py", "rio.py"],
    [("existing-group guard", "base.py:_groupexists"), ("combined load", "base.py:load")],
    ["output file content, raised exceptions"],
    state=[{"name": "output file", "meaning": "the OBS/NAV groups stored so far", "where": "the NetCDF file on disk"}],
)
prop(
    "C17", "Epoch times are exact and agree between the times and data readers",
    """The times returned for an OBS 2/3 file are exactly its epochs in file order and for a NAV 2/3 file the sorted distinct clock epochs, with fractional seconds correct to the millisecond; loaded
    datasets carry the same epochs with fractional seconds correct to the microsecond. This holds across leap days, year ends and the 1980-2079 two-digit year window.""",
    ["inputs"], "every epoch expressible in the formats, including fractional seconds and calendar edges",
    "Sample files have whole-second epochs, and only counts, first and last times are compared.",
    ["obs2.py", "obs3.py", "nav2.py", "nav3.py", "utils.py"],
    [("epoch parse", "obs2.py:_timeobs"), ("epoch parse", "obs3.py:_timeobs"), ("epoch parse", "nav2.py:_timenav"), ("epoch parse", "nav3.py:_time"),
     ("time listing", "utils.py:gettime")],
    ["georinex.gettime(file), dataset.time"],
)
prop(
    "C18", "Header and file info report what the header says",
    """For every OBS/NAV 2/3 file, the header dictionary and file info give the file's version, type and satellite system, every labelled header record with its content (of a repeated OBS label the contents joined, of a repeated NAV label the last), and the parsed observation types, first (RINEX 2: and last) observation time,
    interval, approximate position, receiver model (RINEX 2) and ionospheric/time-system corrections (RINEX 3 NAV) with the values written. Optional records that are absent or blank are simply not reported and never make
    reading fail.""",
    ["inputs"], "every subset, order and content of header records",
    "Three headers are looked at, for two keys each.",
    ["rio.py", "utils.py", "obs2.py", "obs3.py", "nav2.py", "nav3.py"],
    [("file info", "rio.py:rinexinfo"), ("OBS 2 header", "obs2.py:obsheader2"), ("OBS 3 header", "obs3.py:obsheader3"), ("NAV 2 header", "nav2.py:navheader2"),
     ("NAV 3 header", "nav3.py:navheader3"), ("dispatch", "utils.py:rinexheader")],
    ["georinex.rinexheader(file), georinex.rinexinfo(file)"],
)
prop(
    "C19", "Dataset attributes describe the file that was read",
    """A loaded dataset's attributes give the file's version, kind, file name, time system (from the system letter, or from the first-observation record of mixed files), sampling interval (from the header, otherwise the median epoch spacing of
    the returned data), receiver position and its geodetic form, receiver model (RINEX 2), receiver clock offsets (RINEX 3), satellite systems and ionospheric coefficients (NAV), number of epochs, coordinate system, orbit type and agency (SP3). Absent information is absent or NaN, never a stale or other value.""",
    ["inputs", "configurations"], "every header and option combination",
    "A few attributes of a few sample files are compared.",
    ["obs2.py", "obs3.py", "nav2.py", "nav3.py", "common.py"],
    [("attributes", "obs2.py:rinexsystem2"), ("attributes", "obs3.py:rinexobs3"), ("attributes", "nav2.py:rinexnav2"), ("attributes", "nav3.py:rinexnav3"),
     ("time system", "common.py:determine_time_system")],
    ["dataset.attrs"],
)
prop(
    "C20", "Broadcast ephemerides convert to the correct ECEF position",
    """Converting the loaded navigation data of a GPS or Galileo satellite to ECEF gives, at every epoch, the position defined by the broadcast-ephemeris algorithm (Kepler's equation solved, week and
    time-of-ephemeris handled, harmonic corrections and Earth rotation applied) within 1 m; for GLONASS and SBAS satellites it returns the broadcast position itself. The input dataset is not modified.""",
    ["inputs"], "every physically admissible ephemeris (eccentricity below 0.2), week number, and epoch within days of the reference time",
    "One GPS ephemeris is checked to 1e-4 relative (about 2.5 km).",
    ["keplerian.py"],
    [("ephemeris algorithm", "keplerian.py:keplerian2ecef")],
    ["georinex.keplerian2ecef(nav.sel(sv=...))"],
)
prop(
    "C21", "Receiver locations are collected correctly for any list of files",
    """For any list of OBS files (RINEX 2/3, plain or compressed, and converted NetCDF), the location table has exactly one row per file that states a receiver position, indexed by file name, with that file's own geodetic latitude, longitude and interval
    (NaN interval when the file states none); files without a position or that are not RINEX are left out.""",
    ["inputs"], "every list of files with and without position and interval",
    "One row for one sample file is compared.",
    ["geo.py", "obs2.py", "obs3.py"],
    [("location table", "geo.py:get_locations")],
    ["georinex.geo.get_locations(files)"],
)
prop(
    "C22", "Input that is not RINEX, SP3 or NetCDF is rejected with ValueError",
    """Loading, or asking for the times, header or info of, a file or text stream that is empty, blank, arbitrary text or binary, of an unsupported version or type, or has a corrupted first line (version unreadable, label wrong, or cut off before the system letter) raises
    ValueError in finite time; it never returns data, hangs, or fails with an unrelated exception (the info alone of a text that begins like a RINEX or SP3 first line of another version or type may report that instead). A file cut off
    within its header yields no data or raises, in finite time. A missing text file raises FileNotFoundError.""",
    ["inputs"], "every byte or character content whose first non-blank line is not a supported header line",
    "Three empty files and a missing file are tried.",
    ["rio.py", "base.py", "utils.py"],
    [("header line check", "rio.py:rinex_version"), ("header line check", "rio.py:first_nonblank_line"), ("kind detection", "rio.py:rinexinfo")],
    ["raised exceptions"],
)
prop(
    "C23", "A truncated or cut-off file still yields its complete leading epochs",
    """When a valid OBS 2/3, NAV 2/3 or SP3 file is cut off at any byte after its header, loading it (strict mode for RINEX 2 OBS), or listing the times of an OBS or NAV file, either returns every epoch or record that is complete before the cut
    with its values unchanged, or raises an ordinary exception; it returns no epoch or satellite that the uncut file does not hold at or before the cut, of the epoch or record that is cut no value
    but the number the cut goes through differs from that of the uncut file (numbers that are missing are absent, or zero in NAV 3), and terminates.""",
    ["inputs", "crash_points"], "every cut position after the header of every valid file",
    "No test cuts a file.",
    ["obs2.py", "obs3.py", "nav2.py", "nav3.py"],
    [("end of file handling", "obs2.py:rinexsystem2"), ("end of file handling", "obs3.py:rinexobs3"), ("end of file handling", "nav2.py:rinexnav2"), ("end of file handling", "nav3.py:rinexnav3")],
    ["georinex.load(cut file)"],
)
prop(
    "C24", "Event records and unreadable epoch lines do not disturb other epochs",
    """Event epochs (flags 2-4 with their special records, in RINEX 2 and 3), power-failure flags, blank lines between RINEX 2 epochs, and epoch lines whose time cannot be read change nothing in the data and times
    returned for the regular epochs before and after them, and special records are never returned as observations. In NAV files of both versions, junk lines, lines of blanks and whole records whose epoch cannot be read
    likewise change nothing in the records and times before and after them.""",
    ["inputs"], "every placement and content of event records and junk epoch lines among regular epochs, and of junk records among NAV records",
    "One file with a junk epoch line is read for its times only; no file has event records.",
    ["obs2.py", "obs3.py", "nav2.py", "nav3.py"],
    [("epoch flag", "obs2.py:_timeobs"), ("epoch loop", "obs3.py:rinexobs3"), ("time listing", "obs3.py:obstime3"), ("record loop", "nav2.py:rinexnav2"), ("record loop", "nav3.py:rinexnav3")],
    ["georinex.load(file), georinex.gettime(file)"],
)
prop(
    "C25", "Batch conversion converts every readable file and only those",
    """Converting a directory with a glob pattern writes, for every matching readable RINEX file, an output named after the full input name plus .nc whose content equals loading that file with the same options, whatever
    unreadable, foreign, empty or already converted files are in the directory. Inputs and unrelated files are never changed.""",
    ["inputs", "fault_sequences"], "every directory mixing good files of any kind with bad files, any glob, any options",
    "Batch conversion is run with the sample directory and one pattern per file; the only bad files there are blank ones.",
    ["base.py", "rinex2hdf5/__main__.py"],
    [("per-file error isolation", "base.py:batch_convert")],
    ["output directory content"],
)
prop(
    "C26", "The command line does what the equivalent API call does",
    """The read and rinex2hdf5 commands with any combination of their options (system, measurement, time limits, indicators, strict, interval, output) write the same NetCDF content as the
    API call with those options, and the time command prints for each file exactly its first and last time, number of times and
    interval (if its header states one), passing over the files of a directory that it cannot read.""",
    ["configurations", "inputs"], "every combination of command-line options times file kinds",
    "The scripts are only run for exit status, mostly without options.",
    ["read/__main__.py", "rinex2hdf5/__main__.py", "time/__main__.py"],
    [("argument mapping", "read/__main__.py"), ("argument mapping", "rinex2hdf5/__main__.py"), ("report", "time/__main__.py")],
    ["NetCDF output, standard output"],
)
prop(
    "C27", "Results depend only on the input and options, and inputs stay untouched",
    """Any sequence of calls in one process gives for each call the same result (data and attributes) as that call alone in a fresh process, whatever the hash seed, time zone, locale and working directory, and whatever earlier calls succeeded or failed; the same holds for reading calls (loads, times, headers,
    locations) that run in several threads of one process at the same time. No call changes the input file, the text stream's content, or the
    caller's option objects.""",
    ["histories", "configurations"], "every history of loads, times, headers and conversions, every hash seed and environment",
    "Each test makes one or two calls in a process with a fixed hash seed.",
    ["base.py", "obs2.py", "obs3.py", "nav2.py", "nav3.py", "sp3.py", "rio.py", "utils.py"],
    [("set iteration over systems", "obs2.py:rinexobs2"), ("set iteration over satellites", "nav3.py:rinexnav3"), ("stream rewinding", "rio.py:opener")],
    ["results of repeated calls across processes"],
)
prop(
    "C28", "Text layout that carries no information does not change the result",
    """Replacing line ends by CRLF, adding or trimming trailing blanks, omitting the final newline, adding comment lines or blank trailing header columns, writing satellite numbers with a blank instead of
    a zero, writing D or E exponents, blank lines before the first line, text beyond column 80 of RINEX 2 data lines, or reordering satellites within an epoch leaves the loaded data and times of an OBS/NAV 2/3 file unchanged.""",
    ["inputs"], "every valid file times every combination of the listed neutral rewrites",
    "Each sample file exists in a single layout.",
    ["rio.py", "obs2.py", "obs3.py", "nav2.py", "nav3.py"],
    [("line reading", "rio.py:opener"), ("field slicing", "obs2.py:rinexsystem2"), ("field slicing", "obs3.py:_epoch"), ("field slicing", "nav2.py:rinexnav2"), ("field slicing", "nav3.py:rinexnav3")],
    ["georinex.load of both layouts"],
)
prop(
    "C29", "Selections combine: every option combination equals the combined filter",
    """Loading an OBS file with any combination of system, measurement, time-limit, interval and indicator options returns the same values as the full load filtered step by step by those options; joining the loads of
    adjacent time ranges or of the separate systems gives back the full load.""",
    ["configurations", "inputs"], "every combination of the reading options times every OBS 2/3 file",
    "At most two options are combined in any test, on one file.",
    ["obs2.py", "obs3.py", "base.py"],
    [("option handling", "obs2.py:rinexsystem2"), ("option handling", "obs3.py:rinexobs3"), ("option passing", "base.py:load")],
    ["georinex.load(file, **options)"],
)
prop(
    "C30", "File finding and time conversion helpers are exact",
    """The file finder returns exactly the regular files matching any of the given patterns (or the file itself when given a file), and converting a time coordinate to datetime objects keeps every instant to the microsecond,
    for scalars and arrays, leaving non-array arguments as they are.""",
    ["inputs"], "every directory content and pattern list; every time array",
    "One scalar conversion and one directory with fixed patterns are tried.",
    ["utils.py"],
    [("file finder", "utils.py:globber"), ("time conversion", "utils.py:to_datetime")],
    ["return values"],
)

prop(
    "C31", "Plots show exactly the loaded data",
    """Plotting a loaded OBS dataset draws one figure for each of L1 and L1C that holds data, with one line per satellite, named in the legend, through exactly the loaded values, titled with the file name; plotting a NAV dataset draws one
    track per GPS, Galileo, GLONASS and SBAS satellite through the latitude and longitude of each of its records; the receiver map draws one marker per receiver at its longitude and latitude, larger for a shorter interval, whatever the interval.
    The plot command draws, for each of the first four measurements named, one line per chosen GPS satellite through its values within the time limits. Anything else draws nothing, and no plot fails or changes its data.""",
    ["inputs"], "every loaded dataset and location table",
    "No test plots anything.",
    ["plots.py", "plots_geo.py", "loc/__main__.py", "read/__main__.py", "plot/__main__.py"],
    [("plot command", "plot/__main__.py"), ("observation plot", "plots.py:obstimeseries"), ("satellite tracks", "plots_geo.py:navtimeseries"), ("receiver map", "plots_geo.py:receiver_locations"), ("dispatch", "plots.py:timeseries")],
    ["artists of the figures drawn"],
)

prop(
    "C32", "Every public reader gives what the general reader gives",
    """For any readable file (plain or compressed) and options, the exported functions for one kind or version (rinexobs, rinexobs2, rinexobs3, rinexnav, rinexnav2, rinexnav3, load_sp3) return the same data, coordinates and attributes as load(),
    whether the file is given as path, text or stream (a stream and, for the functions of one version, a text may lack the filename attribute) and the options by keyword or by position in their published order; obstime2/3 and navtime2/3 return the times of gettime();
    obsheader2/3 and navheader2/3 return the header of rinexheader(), and given a selection of measurements or systems list exactly the selected types.""",
    ["inputs"], "every file, source form and option combination for every exported function",
    "Few of these functions are called by a test, each on one file.",
    ["__init__.py", "base.py", "utils.py", "obs2.py", "obs3.py", "nav2.py", "nav3.py", "sp3.py"],
    [("general reader", "base.py:load"), ("readers of a kind", "base.py:rinexobs"), ("readers of a kind", "base.py:rinexnav"), ("header reader", "utils.py:rinexheader"), ("times", "utils.py:gettime"), ("field selection", "obs2.py:obsheader2"),
     ("field selection", "obs3.py:obsheader3")],
    ["return values of the exported functions"],
)

prop(
    "C33", "The parts of a file, read separately, join to the whole",
    """A file cut between epochs (OBS, SP3) or records (NAV) into several files with the same header yields, part by part, disjoint data and times whose union is exactly that of the whole file, also when the epochs or records are dealt out alternately;
    and the documented ways to join data of several files, xarray.merge and xarray.concat along time, give the data of the whole.""",
    ["inputs"], "every readable file and every way to cut it between epochs or records",
    "No test compares a file with its parts.",
    ["obs2.py", "obs3.py", "nav2.py", "nav3.py", "sp3.py"],
    [("epoch loop", "obs2.py:rinexsystem2"), ("epoch loop", "obs3.py:rinexobs3"), ("record loop", "nav2.py:rinexnav2"), ("record loop", "nav3.py:rinexnav3"), ("epoch loop", "sp3.py:load_sp3")],
    ["georinex.load(part), xarray.merge, xarray.concat"],
)

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P), "properties")
