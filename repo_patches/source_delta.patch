From 374d86282236aaabde199f55b778d8238bf8a1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:24 +0000
Subject: [PATCH 01/43] fix: keep fractional seconds of epochs exact

The fraction was truncated after a float modulo, so 4.1 s became 4.099999 s
(4.099 s in the list of times), and RINEX 2 epochs read in strict mode were
cut to milliseconds.
---
 src/georinex/nav2.py |  5 ++---
 src/georinex/obs2.py | 15 +++++----------
 src/georinex/obs3.py |  6 ++----
 3 files changed, 9 insertions(+), 17 deletions(-)

diff --git a/src/georinex/nav2.py b/src/georinex/nav2.py
index de985d8..99c2151 100644
--- a/src/georinex/nav2.py
+++ b/src/georinex/nav2.py
@@ -1,7 +1,7 @@
 from __future__ import annotations
 import typing as T
 from pathlib import Path
-from datetime import datetime
+from datetime import datetime, timedelta
 import xarray
 import numpy as np
 import logging
@@ -246,8 +246,7 @@ def _timenav(ln: str) -> datetime:
         hour=int(ln[12:14]),
         minute=int(ln[15:17]),
         second=int(float(ln[17:20])),
-        microsecond=int(float(ln[17:22]) % 1 * 1000000),
-    )
+    ) + timedelta(microseconds=round(float(ln[17:22]) % 1 * 1000000))
 
 
 def _skip(f: T.TextIO, Nl: int):
diff --git a/src/georinex/obs2.py b/src/georinex/obs2.py
index 292db34..e5da639 100644
--- a/src/georinex/obs2.py
+++ b/src/georinex/obs2.py
@@ -517,7 +517,7 @@ def obstime2(fn: T.TextIO | Path, verbose: bool = False):
 
             _skip(f, ln, hdr["Nl_sv"])
 
-    times = np.asarray(times, dtype="datetime64[ms]")
+    times = np.asarray(times, dtype="datetime64[us]")
 
     check_unique_times(times)
 
@@ -551,13 +551,10 @@ def _timehdr(ln: str) -> datetime:
         second = 0
 
     try:
-        usec = int(float(ln[30:43]) % 1 * 1000000)
+        usec = round(float(ln[30:43]) % 1 * 1000000)
     except ValueError:
         usec = 0
 
-    if not 0 <= usec <= 999999:
-        usec = 0
-
     return datetime(
         year=int(ln[:6]),
         month=int(ln[6:12]),
@@ -565,8 +562,7 @@ def _timehdr(ln: str) -> datetime:
         hour=int(ln[18:24]),
         minute=int(ln[24:30]),
         second=second,
-        microsecond=usec,
-    )
+    ) + timedelta(microseconds=usec)
 
 
 def _timeobs(ln: str) -> datetime:
@@ -577,7 +573,7 @@ def _timeobs(ln: str) -> datetime:
         year += 1900
 
     try:
-        usec = int(float(ln[16:26]) % 1 * 1000000)
+        usec = round(float(ln[16:26]) % 1 * 1000000)
     except ValueError:
         usec = 0
 
@@ -588,8 +584,7 @@ def _timeobs(ln: str) -> datetime:
         hour=int(ln[10:12]),
         minute=int(ln[13:15]),
         second=int(ln[16:18]),
-        microsecond=usec,
-    )
+    ) + timedelta(microseconds=usec)
     # %% check if valid time
     eflag = int(ln[28])
     if eflag not in {0, 1, 5, 6}:  # EPOCH FLAG
diff --git a/src/georinex/obs3.py b/src/georinex/obs3.py
index a68dc21..aa6d89d 100644
--- a/src/georinex/obs3.py
+++ b/src/georinex/obs3.py
@@ -179,8 +179,7 @@ def _timeobs(ln: str) -> datetime:
         hour=int(ln[13:15]),
         minute=int(ln[16:18]),
         second=int(ln[19:21]),
-        microsecond=int(float(ln[19:29]) % 1 * 1000000),
-    )
+    ) + timedelta(microseconds=round(float(ln[19:29]) % 1 * 1000000))
 
 
 def obstime3(fn: T.TextIO | Path, verbose: bool = False):
@@ -337,8 +336,7 @@ def obsheader3(
             hour=int(t0s[18:24]),
             minute=int(t0s[24:30]),
             second=int(float(t0s[30:36])),
-            microsecond=int(float(t0s[30:43]) % 1 * 1000000),
-        )
+        ) + timedelta(microseconds=round(float(t0s[30:43]) % 1 * 1000000))
     except (KeyError, ValueError):
         pass
 
-- 
2.43.0


From 04c18cab6ffd925c558a0d3a94737cbd79ddc247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:33 +0000
Subject: [PATCH 02/43] fix: RINEX 2 OBS satellite numbers above 36 (SBAS,
 BeiDou) raised IndexError

---
 src/georinex/obs2.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/georinex/obs2.py b/src/georinex/obs2.py
index e5da639..d1de7a7 100644
--- a/src/georinex/obs2.py
+++ b/src/georinex/obs2.py
@@ -101,13 +101,10 @@ def rinexsystem2(
     interval = check_time_interval(interval)
     # %% allocation
     """
-    Nsvsys may need updating as GNSS systems grow.
-    Let us know if you needed to change them.
-
-    Beidou is 35 max
-    Galileo is 36 max
+    Satellite numbers have two digits. Not all of them are used by every system,
+    but SBAS goes to 58 and BeiDou to 63, for example.
     """
-    Nsvsys = 36
+    Nsvsys = 99
 
     hdr = obsheader2(fn, useindicators, meas)
 
-- 
2.43.0


From d6c5483adfc0c5634823601375dc6537e15be8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:53 +0000
Subject: [PATCH 03/43] fix: RINEX 2 OBS with a blank satellite system (GPS)
 was read as empty

---
 src/georinex/common.py | 2 +-
 src/georinex/obs2.py   | 2 +-
 src/georinex/rio.py    | 3 ++-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/georinex/common.py b/src/georinex/common.py
index 97bc0af..d967abc 100644
--- a/src/georinex/common.py
+++ b/src/georinex/common.py
@@ -52,7 +52,7 @@ def determine_time_system(header: dict[T.Hashable, T.Any]) -> str:
     except KeyError:
         file_type = header["systems"]
 
-    if file_type == "G":
+    if file_type in {"G", " "}:
         ts = "GPS"
     elif file_type == "R":
         ts = "GLO"
diff --git a/src/georinex/obs2.py b/src/georinex/obs2.py
index d1de7a7..aa33c5a 100644
--- a/src/georinex/obs2.py
+++ b/src/georinex/obs2.py
@@ -388,7 +388,7 @@ def obsheader2(
             hdr[hd] += " " + c
     # %% useful values
     try:
-        hdr["systems"] = hdr["RINEX VERSION / TYPE"][40]
+        hdr["systems"] = hdr["RINEX VERSION / TYPE"][40].replace(" ", "G")
     except KeyError:
         pass
 
diff --git a/src/georinex/rio.py b/src/georinex/rio.py
index cae2bde..0b2eac9 100644
--- a/src/georinex/rio.py
+++ b/src/georinex/rio.py
@@ -176,7 +176,8 @@ def rinexinfo(f: T.TextIO | Path) -> dict[T.Hashable, T.Any]:
             elif file_type == "E":
                 system = "E"
             else:
-                system = line[40]
+                # RINEX 2: blank system is GPS
+                system = line[40].replace(" ", "G")
         else:
             system = line[40]
 
-- 
2.43.0


From c142d0e6a43b7ebf368e90b32687e3c28e6f0da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:54 +0000
Subject: [PATCH 04/43] fix: OBS files of SBAS only raised ValueError when
 determining the time system

---
 src/georinex/common.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/georinex/common.py b/src/georinex/common.py
index d967abc..4216345 100644
--- a/src/georinex/common.py
+++ b/src/georinex/common.py
@@ -52,7 +52,8 @@ def determine_time_system(header: dict[T.Hashable, T.Any]) -> str:
     except KeyError:
         file_type = header["systems"]
 
-    if file_type in {"G", " "}:
+    if file_type in {"G", "S", " "}:
+        # SBAS payload observations are tagged in GPS time
         ts = "GPS"
     elif file_type == "R":
         ts = "GLO"
-- 
2.43.0


From 19a5432683cf064f08007b5feaca8dcf89eea1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:02 +0000
Subject: [PATCH 05/43] fix: RINEX 3 OBS epochs with 100 or more satellites
 lost their data

---
 src/georinex/obs3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/georinex/obs3.py b/src/georinex/obs3.py
index aa6d89d..3607d1a 100644
--- a/src/georinex/obs3.py
+++ b/src/georinex/obs3.py
@@ -98,7 +98,7 @@ def rinexobs3(
             sv = []
             raw = ""
             # Number of visible satellites this time %i3  pg. A13
-            for _ in range(int(ln[33:35])):
+            for _ in range(int(ln[32:35])):
                 ln = f.readline()
                 sv.append(ln[:3])
                 raw += ln[3:]
-- 
2.43.0


From 589097c0f8dccbf5f0e262cd42f826b4c2239c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:21 +0000
Subject: [PATCH 06/43] fix: RINEX 2 NAV blank fields crashed, and a written
 Galileo spare shifted the fields after it

Lines are padded to their four fields, so that a field omitted at the end of
a line does not move those of the next line, and blank fields are NaN.
---
 src/georinex/nav2.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/georinex/nav2.py b/src/georinex/nav2.py
index 99c2151..00f7143 100644
--- a/src/georinex/nav2.py
+++ b/src/georinex/nav2.py
@@ -114,6 +114,7 @@ def rinexnav2(fn: T.TextIO | Path, tlim: tuple[datetime, datetime] | None = None
                 "IDOT",
                 "DataSrc",
                 "GALWeek",
+                None,  # spare
                 "SISA",
                 "health",
                 "BGDe5a",
@@ -141,14 +142,15 @@ def rinexnav2(fn: T.TextIO | Path, tlim: tuple[datetime, datetime] | None = None
 
             times.append(time)
             # %% read the data as one big long string per SV
-            raw = ln[22:79]
+            raw = f"{ln[22:79].rstrip():{3 * Lf}s}"
             # NOTE: MUST be 79, not 80 due to some files that put \n a character early!
+            # Each line is padded, since the last field(s) of a line may be omitted.
             for _ in range(Nl[header["systems"]]):
-                raw += f.readline()[STARTCOL2:79]
+                raw += f"{f.readline()[STARTCOL2:79].rstrip():{4 * Lf}s}"
             # one line per SV
             # Sebastijan also added .replace('  ', ' ').replace(' -', '-') here,
             # I didn't add that yet because I don't know if it's generally needed.
-            raws.append(raw.replace("D", "E").replace("\n", ""))
+            raws.append(raw.replace("D", "E"))
 
     # %% parse collected data lines per SV
     svs = [s.replace(" ", "0") for s in svs]
@@ -170,14 +172,11 @@ def rinexnav2(fn: T.TextIO | Path, tlim: tuple[datetime, datetime] | None = None
         for i in svi:
             it = np.nonzero(timesu == times[i])[0][0]  # int by defn
             """
-            some files sometimes drop the last measurement, this fixes that.
-            It assumes the blank is always in the last measurement for now.
+            some files drop fields (spare, or the last measurements), these are NaN.
             """
-            dvec = [
-                float(raws[i][k * Lf : (k + 1) * Lf])
-                for k in range(min(len(fields), len(raws[i]) // Lf))
+            data[:, it, j] = [
+                float(raws[i][k * Lf : (k + 1) * Lf].strip() or "nan") for k in range(len(fields))
             ]
-            data[: len(dvec), it, j] = dvec
 
     # %% assemble output
     # NOTE: time must be datetime64[ns] or .to_netcdf will fail
-- 
2.43.0


From b5c51a8f085e1d2590390c7a6821750b61b2b4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:21 +0000
Subject: [PATCH 07/43] fix: SP3 records are assigned to their satellite, and
 absent values are NaN

Records were assigned by their order in the epoch, so with an absent or
reordered record values went to another satellite, and absent positions,
first epoch velocities and clock rates were uninitialized memory.
---
 src/georinex/sp3.py | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/georinex/sp3.py b/src/georinex/sp3.py
index 6408077..161543f 100644
--- a/src/georinex/sp3.py
+++ b/src/georinex/sp3.py
@@ -63,10 +63,10 @@ def load_sp3(fn: Path, outfn: Path | None) -> xarray.Dataset:
         ecefs = []
         clocks = []
         vels = []
-        ecef = np.empty((Nsv, 3))
-        clock = np.empty((Nsv, 2))
-        vel = np.empty((Nsv, 3))
-        i = 0
+        # not every satellite has a record in every epoch, or velocity
+        ecef = np.full((Nsv, 3), np.nan)
+        clock = np.full((Nsv, 2), np.nan)  # clock and clock rate-of-change
+        vel = np.full((Nsv, 3), np.nan)
 
         times = [sp3dt(ln)]
 
@@ -77,22 +77,24 @@ def load_sp3(fn: Path, outfn: Path | None) -> xarray.Dataset:
                 clocks.append(clock)
                 vels.append(vel)
 
-                ecef = np.empty((Nsv, 3))
-                clock = np.empty((Nsv, 2))  # clock and clock rate-of-change
-
-                vel = np.empty((Nsv, 3))
-                vel.fill(np.nan)  # may not always have velocity
-
-                i = 0
+                ecef = np.full((Nsv, 3), np.nan)
+                clock = np.full((Nsv, 2), np.nan)
+                vel = np.full((Nsv, 3), np.nan)
                 continue
 
+            if ln[0] in {"P", "V"}:
+                sv = ln[1:4].replace(" ", "")
+                if sv not in svs:
+                    logging.info(f"{sv} is not in the header of {fn}")
+                    continue
+                i = svs.index(sv)
+
             if ln[0] == "P":
                 ecef[i, :] = (float(ln[4:18]), float(ln[18:32]), float(ln[32:46]))
                 clock[i, 0] = float(ln[46:60])
-                i += 1
             elif ln[0] == "V":
-                vel[i - 1, :] = (float(ln[4:18]), float(ln[18:32]), float(ln[32:46]))
-                clock[i - 1, 1] = float(ln[46:60])
+                vel[i, :] = (float(ln[4:18]), float(ln[18:32]), float(ln[32:46]))
+                clock[i, 1] = float(ln[46:60])
             elif ln.startswith(("EP", "EV")):
                 # let us know if you want these data types
                 pass
-- 
2.43.0


From e020da7215e8c12e19b7b7fe3c4c449c8ba8927c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:26 +0000
Subject: [PATCH 08/43] fix: RINEX 3 NAV layout is determined per record, with
 trimmed blank fields

The spare-field layout of the first record of a satellite was applied to all
its records, and a blank field trimmed from the end of a line shifted the
fields after it.
---
 src/georinex/nav3.py | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/georinex/nav3.py b/src/georinex/nav3.py
index aa936f8..0a8c7fa 100644
--- a/src/georinex/nav3.py
+++ b/src/georinex/nav3.py
@@ -72,12 +72,18 @@ def rinexnav3(
             # patch SV names in case of "G 7" => "G07"
 
             # %% get the data as one big long string per SV, unknown # of lines per SV
-            raw = line[23:80]  # NOTE: 80, files put data in the last column!
-
-            for _, ln in zip(range(Nl[sv[0]]), f):
-                raw += ln[STARTCOL3:80]
+            # NOTE: 80, files put data in the last column!
+            raw = line[23:80].rstrip().ljust(3 * LF)
+
+            for i, ln in zip(range(1, Nl[sv[0]] + 1), f):
+                row = ln[STARTCOL3:80].rstrip("\r\n")
+                if i < Nl[sv[0]] and not (i == 5 and sv[0] in {"C", "E"}):
+                    # blank fields at the end of a line may be trimmed.
+                    # Galileo, BeiDou line 5: see _sparefields()
+                    row = row.ljust(4 * LF)
+                raw += row
             # one line per SV
-            raws.append(raw.replace("D", "E").replace("\n", ""))
+            raws.append(raw.replace("D", "E"))
 
     # %% parse collected data per SV
     # NOTE: must be 'ns' or .to_netcdf will fail!
@@ -95,21 +101,32 @@ def rinexnav3(
             duplicate = tu.size != t[svi][check].size
 
             full_fields = fields[sv[0]]
-            compact_fields = _sparefields(full_fields, sys=sv[0], N=_num_fields(raws[svi[0]]))
-            compact_index = [i for i, c in enumerate(full_fields) if c in compact_fields]
 
             darr = np.empty((svi.size, len(full_fields)))
             darr.fill(np.nan)
 
+            _sparefields(full_fields, sys=sv[0], N=_num_fields(raws[svi[0]]))  # unsupported: raises
+            filled = np.zeros(len(full_fields), dtype=bool)
+            rows = []
+
             for j, i in enumerate(svi):
                 try:
+                    # spare fields can differ between records, e.g. in merged files
+                    compact_fields = _sparefields(full_fields, sys=sv[0], N=_num_fields(raws[i]))
+                    compact_index = [i for i, c in enumerate(full_fields) if c in compact_fields]
                     darr[j, compact_index] = [
                         float(raws[i][LF * k : LF * (k + 1)].strip() or 0)
                         for k in range(len(compact_index))
                     ]
+                    filled[compact_index] = True
+                    rows.append(j)
                 except ValueError:
                     logging.info(f"malformed line for {sv}")
 
+            # a field that only some of the records have is blank in the others: zero
+            absent = np.ix_(rows, filled)
+            darr[absent] = np.where(np.isnan(darr[absent]), 0, darr[absent])
+
             # %% discard duplicated times
             darr = darr[check, :][iu, :]
 
-- 
2.43.0


From df94199e650892389a292426a276a23234b371e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:53 +0000
Subject: [PATCH 09/43] fix: RINEX 2 OBS strict mode with interval returned
 data at the wrong times

The times array was not decimated along with the data.
---
 src/georinex/obs2.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/georinex/obs2.py b/src/georinex/obs2.py
index aa33c5a..6851bc9 100644
--- a/src/georinex/obs2.py
+++ b/src/georinex/obs2.py
@@ -166,13 +166,12 @@ def rinexsystem2(
             if verbose:
                 print(time_epoch, end="\r")
 
-            if fast:
-                try:
-                    times[j] = time_epoch
-                except IndexError as e:
-                    raise IndexError(
-                        f'may be "fast" mode bug, try fast=False or "-strict" command-line option {e}'
-                    )
+            try:
+                times[j] = time_epoch
+            except IndexError as e:
+                raise IndexError(
+                    f'may be "fast" mode bug, try fast=False or "-strict" command-line option {e}'
+                )
             # %% Does anyone need this?
             #            try:
             #                toffset = ln[68:80]
@@ -249,7 +248,9 @@ def rinexsystem2(
                 else:
                     data[i, j, isv] = darr[:, k]
     # %% output gathering
-    data = data[:, : times.size, :]  # trims down for unneeded preallocated
+    # trims down for unneeded preallocated
+    times = times[: j + 1].astype("datetime64[us]")
+    data = data[:, : times.size, :]
 
     fields = []
     for field in hdr["fields"]:
-- 
2.43.0


From cc7f8126ac1634f18e68802015b41b7aac198050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:59 +0000
Subject: [PATCH 10/43] fix: keplerian2ecef position errors and failures

* failed for the data of a selected satellite, and used the system of another
  satellite for it in mixed files
* did not solve Kepler's equation: km error
* Galileo week in RINEX is aligned to GPS week
* GPS gravitational constant per IS-GPS-200: m error
* failed when the satellite has no data at some of the times
---
 src/georinex/keplerian.py | 35 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/src/georinex/keplerian.py b/src/georinex/keplerian.py
index 19f0c13..5f98220 100644
--- a/src/georinex/keplerian.py
+++ b/src/georinex/keplerian.py
@@ -4,7 +4,6 @@ Michael Hirsch, Ph.D.
 """
 
 from __future__ import annotations
-from datetime import datetime, timedelta
 import xarray
 import numpy as np
 
@@ -22,12 +21,16 @@ def keplerian2ecef(
     http://web.cecs.pdx.edu/~ssp/Reports/2006/Monaghan.pdf
     """
 
-    if "sv" in sv and sv["sv"] in {"R", "S"}:
+    # system of this satellite; without name, the system of the data
+    system = str(np.atleast_1d(sv["sv"].values)[0])[0] if "sv" in sv.coords else sv.svtype[0]
+
+    if system in {"R", "S"}:
         return sv["X"], sv["Y"], sv["Z"]
 
     # sv = sv.dropna(dim='time', how='all')
 
-    GM = 3.986004418e14  # [m^3 s^-2]   Mean anomaly at tk
+    # [m^3 s^-2]  IS-GPS-200, Galileo OS SIS ICD
+    GM = 3.986005e14 if system == "G" else 3.986004418e14
     omega_e = 7.2921151467e-5  # [rad s^-1]  Mean angular velocity of Earth
 
     A = sv["sqrtA"].values ** 2
@@ -38,30 +41,26 @@ def keplerian2ecef(
     n = n0 + sv["DeltaN"].values  # corrected mean motion
 
     # from GPS Week 0
-    if sv.svtype[0] == "E":
-        weeks = sv["GALWeek"].values - 1024
-        # TODO: need to add N*4096 for year 2058 and beyond
-    elif sv.svtype[0] == "G":
+    if system == "E":
+        # RINEX: continuous week number, aligned to GPS week
+        weeks = sv["GALWeek"].values
+    elif system == "G":
         weeks = sv["GPSWeek"].values
     else:
-        raise ValueError(f"Unknown system type {sv.svtype[0]}")
+        raise ValueError(f"Unknown system type {system}")
     # %% shaping
     weeks = np.atleast_1d(weeks).astype(float)
     Toe = np.atleast_1d(sv["Toe"].values).astype(float)
     e = sv["Eccentricity"].values
 
-    T0 = [datetime(1980, 1, 6) + timedelta(weeks=week) for week in weeks]
-
-    tk = np.empty(sv["time"].size, dtype=float)
-
-    # %% time elapsed since reference epoch
-    for i, (t0, t1, t2) in enumerate(zip(T0, sv["time"], Toe)):
-        tsv = t1.values.astype("datetime64[us]").astype(datetime)
-        toe = timedelta(seconds=t2) + t0  # type: ignore
-        tk[i] = (tsv - toe).total_seconds()  # type: ignore
+    # %% time elapsed since reference epoch (NaN where there is no data)
+    tsv = np.atleast_1d(sv["time"].values).astype("datetime64[us]") - np.datetime64("1980-01-06")
+    tk = tsv / np.timedelta64(1, "s") - (weeks * 604800 + Toe)
     # %% Kepler's eqn of eccentric anomaly
     Mk = sv["M0"].values + n * tk  # Mean Anomaly
-    Ek = Mk + e * np.sin(Mk)  # Eccentric anomaly
+    Ek = Mk  # Eccentric anomaly
+    for _ in range(10):
+        Ek = Ek - (Ek - e * np.sin(Ek) - Mk) / (1 - e * np.cos(Ek))
     # %% true anomaly
     nuK = np.arctan2(np.sqrt(1 - e**2) * np.sin(Ek), np.cos(Ek) - e)
     # %% latitude
-- 
2.43.0


From af2b39345f800b852dc2500757bfaa9f90887859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:26 +0000
Subject: [PATCH 11/43] fix: non-ASCII bytes (e.g. in comments) of compressed
 files raised UnicodeDecodeError

Uncompressed and .zip files ignore them already.
---
 src/georinex/rio.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/georinex/rio.py b/src/georinex/rio.py
index 0b2eac9..dcedd17 100644
--- a/src/georinex/rio.py
+++ b/src/georinex/rio.py
@@ -50,7 +50,7 @@ def opener(fn: T.TextIO | Path, header: bool = False) -> T.Iterator[T.TextIO]:
         suffix = fn.suffix.lower()
 
         if suffix == ".gz" or magic.startswith(b"\x1f\x8b"):
-            with gzip.open(fn, "rt") as f:
+            with gzip.open(fn, "rt", encoding="ascii", errors="ignore") as f:
                 _, is_crinex = rinex_version(first_nonblank_line(f))
                 f.seek(0)
 
@@ -66,7 +66,7 @@ def opener(fn: T.TextIO | Path, header: bool = False) -> T.Iterator[T.TextIO]:
             """
             plain bzip2 files, NOT tar.bz2, which requires f.seek(512)
             """
-            with bz2.open(fn, "rt") as f:
+            with bz2.open(fn, "rt", encoding="ascii", errors="ignore") as f:
                 _, is_crinex = rinex_version(first_nonblank_line(f))
                 f.seek(0)
 
@@ -90,7 +90,9 @@ def opener(fn: T.TextIO | Path, header: bool = False) -> T.Iterator[T.TextIO]:
                 raise ImportError("ncompress unlzw not available")
 
             with fn.open("rb") as zu:
-                with io.StringIO(unlzw(zu.read()).decode("ascii")) as f:
+                with io.TextIOWrapper(
+                    io.BytesIO(unlzw(zu.read())), encoding="ascii", errors="ignore"
+                ) as f:
                     _, is_crinex = rinex_version(first_nonblank_line(f))
                     f.seek(0)
 
-- 
2.43.0


From a6ca0392ed74f65305bc2178c6ea900421d9bf99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:18 +0000
Subject: [PATCH 12/43] fix: Hatanaka compressed OBS in .zip was not expanded

---
 src/georinex/rio.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/georinex/rio.py b/src/georinex/rio.py
index dcedd17..6060cb3 100644
--- a/src/georinex/rio.py
+++ b/src/georinex/rio.py
@@ -84,6 +84,11 @@ def opener(fn: T.TextIO | Path, header: bool = False) -> T.Iterator[T.TextIO]:
                         f = io.StringIO(
                             io.TextIOWrapper(bf, encoding="ascii", errors="ignore").read()  # type: ignore
                         )
+                        _, is_crinex = rinex_version(first_nonblank_line(f))
+                        f.seek(0)
+
+                        if is_crinex and not header:
+                            f = io.StringIO(crx2rnx(f.read()))
                         yield f
         elif suffix == ".z" or magic.startswith(b"\x1f\x9d"):
             if unlzw is None:
-- 
2.43.0


From aeef9120c9926c0f5d406c81baf7d3cffa8771e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:51 +0000
Subject: [PATCH 13/43] fix: input that is not RINEX raised other than
 ValueError

---
 src/georinex/base.py | 5 +++--
 src/georinex/nav2.py | 2 +-
 src/georinex/rio.py  | 6 ++++--
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/georinex/base.py b/src/georinex/base.py
index 60f079a..000c8a9 100644
--- a/src/georinex/base.py
+++ b/src/georinex/base.py
@@ -77,7 +77,8 @@ def load(
             interval=interval,
         )
 
-    assert isinstance(rinexfn, Path)
+    if not isinstance(rinexfn, Path):
+        raise ValueError(f"What kind of RINEX file is: {info}")
 
     if info["rinextype"] == "sp3":
         return load_sp3(rinexfn, outfn)
@@ -165,7 +166,7 @@ def rinexnav(
     elif int(info["version"]) == 3:
         nav = rinexnav3(fn, use=use, tlim=tlim)
     else:
-        raise LookupError(f"unknown RINEX  {info}  {fn}")
+        raise ValueError(f"unknown RINEX  {info}  {fn}")
 
     # %% optional output write
     if outfn:
diff --git a/src/georinex/nav2.py b/src/georinex/nav2.py
index 00f7143..526d9b4 100644
--- a/src/georinex/nav2.py
+++ b/src/georinex/nav2.py
@@ -122,7 +122,7 @@ def rinexnav2(fn: T.TextIO | Path, tlim: tuple[datetime, datetime] | None = None
                 "TransTime",
             ]
         else:
-            raise NotImplementedError(f'I do not yet handle Rinex 2 NAV {header["sys"]}  {fn}')
+            raise ValueError(f'I do not yet handle Rinex 2 NAV {header["filetype"]}  {fn}')
         # %% loop over times
         for ln in f:
             # %% read Epoch / ToC (Time of Clock)
diff --git a/src/georinex/rio.py b/src/georinex/rio.py
index 6060cb3..f0faf3b 100644
--- a/src/georinex/rio.py
+++ b/src/georinex/rio.py
@@ -140,7 +140,9 @@ def first_nonblank_line(f: T.TextIO, max_lines: int = 10) -> str:
             break
 
     if _i is None or _i == max_lines - 1 or not line:
-        raise ValueError(f"could not find first valid header line in {f.name}")
+        raise ValueError(
+            f"could not find first valid header line in {getattr(f, 'name', 'text stream')}"
+        )
 
     return line
 
@@ -202,7 +204,7 @@ def rinexinfo(f: T.TextIO | Path) -> dict[T.Hashable, T.Any]:
             "systems": system,
         }
 
-    except (TypeError, AttributeError, ValueError) as e:
+    except (TypeError, AttributeError, ValueError, IndexError, OverflowError) as e:
         # keep ValueError for consistent user error handling
         raise ValueError(f"not a known/valid RINEX file.  {e}")
 
-- 
2.43.0


From 5f55d1a4ab30b3879b4bb10cd5157e19867cc939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:48 +0000
Subject: [PATCH 14/43] fix: blank or repeated APPROX POSITION XYZ made reading
 fail

---
 src/georinex/obs2.py | 9 ++++++---
 src/georinex/obs3.py | 8 +++++---
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/georinex/obs2.py b/src/georinex/obs2.py
index 6851bc9..de77014 100644
--- a/src/georinex/obs2.py
+++ b/src/georinex/obs2.py
@@ -398,9 +398,12 @@ def obsheader2(
     hdr["Nl_sv"] = ceil(hdr["Nobs"] / 5)
     # %% list with receiver location in x,y,z cartesian ECEF (OPTIONAL)
     try:
-        hdr["position"] = [float(j) for j in hdr["APPROX POSITION XYZ"].split()]
-        if ecef2geodetic is not None:
-            hdr["position_geodetic"] = ecef2geodetic(*hdr["position"])
+        # OPTIONAL: may be blank. Some files repeat it: use the first.
+        position = [float(j) for j in hdr["APPROX POSITION XYZ"].split()][:3]
+        if len(position) == 3:
+            hdr["position"] = position
+            if ecef2geodetic is not None:
+                hdr["position_geodetic"] = ecef2geodetic(*position)
     except (KeyError, ValueError):
         pass
     # %% observation types
diff --git a/src/georinex/obs3.py b/src/georinex/obs3.py
index 3607d1a..191cac4 100644
--- a/src/georinex/obs3.py
+++ b/src/georinex/obs3.py
@@ -320,9 +320,11 @@ def obsheader3(
     try:
         # some RINEX files have bad headers with mulitple APPROX POSITION XYZ.
         # we choose to use the first such header.
-        hdr["position"] = [float(j) for j in hdr["APPROX POSITION XYZ"].split()][:3]
-        if ecef2geodetic is not None and len(hdr["position"]) == 3:
-            hdr["position_geodetic"] = ecef2geodetic(*hdr["position"])
+        position = [float(j) for j in hdr["APPROX POSITION XYZ"].split()][:3]
+        if len(position) == 3:
+            hdr["position"] = position
+            if ecef2geodetic is not None:
+                hdr["position_geodetic"] = ecef2geodetic(*position)
     except (KeyError, ValueError):
         pass
     # %% time
-- 
2.43.0


From 44a9a89a920ff28ec5d27ee318a74055d85af87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:37 +0000
Subject: [PATCH 15/43] fix: blank optional ionospheric and time system
 corrections made NAV reading fail

---
 src/georinex/nav2.py |  9 ++++++---
 src/georinex/nav3.py | 36 +++++++++++++++++++-----------------
 2 files changed, 25 insertions(+), 20 deletions(-)

diff --git a/src/georinex/nav2.py b/src/georinex/nav2.py
index 526d9b4..ed0bf3b 100644
--- a/src/georinex/nav2.py
+++ b/src/georinex/nav2.py
@@ -202,10 +202,13 @@ def rinexnav2(fn: T.TextIO | Path, tlim: tuple[datetime, datetime] | None = None
 
     if "ION ALPHA" in header and "ION BETA" in header:
         alpha = header["ION ALPHA"]
-        alpha = [rinex_string_to_float(alpha[2 + i * 12 : 2 + (i + 1) * 12]) for i in range(4)]
         beta = header["ION BETA"]
-        beta = [rinex_string_to_float(beta[2 + i * 12 : 2 + (i + 1) * 12]) for i in range(4)]
-        nav.attrs["ionospheric_corr_GPS"] = np.hstack((alpha, beta))
+        try:
+            alpha = [rinex_string_to_float(alpha[2 + i * 12 : 2 + (i + 1) * 12]) for i in range(4)]
+            beta = [rinex_string_to_float(beta[2 + i * 12 : 2 + (i + 1) * 12]) for i in range(4)]
+            nav.attrs["ionospheric_corr_GPS"] = np.hstack((alpha, beta))
+        except ValueError:
+            logging.info("ION ALPHA, ION BETA are OPTIONAL and blank or malformed")
 
     return nav
 
diff --git a/src/georinex/nav3.py b/src/georinex/nav3.py
index 0a8c7fa..d8c641d 100644
--- a/src/georinex/nav3.py
+++ b/src/georinex/nav3.py
@@ -501,29 +501,31 @@ def navheader3(f: T.TextIO) -> dict[T.Hashable, T.Any]:
 
         kind, content = ln[60:].strip(), ln[:60]
         if kind == "IONOSPHERIC CORR":
-            if kind not in hdr:
-                hdr[kind] = {}
-
             coeff_kind = content[:4].strip()
             N = 3 if coeff_kind == "GAL" else 4
             # RINEX 3.04 table A5 page A19
-            coeff = [
-                rinex_string_to_float(content[5 + i * 12 : 5 + (i + 1) * 12]) for i in range(N)
-            ]
-            hdr[kind][coeff_kind] = coeff
+            try:
+                coeff = [
+                    rinex_string_to_float(content[5 + i * 12 : 5 + (i + 1) * 12]) for i in range(N)
+                ]
+            except ValueError:
+                logging.info(f"{kind} {coeff_kind} is OPTIONAL and blank or malformed")
+                continue
+            hdr.setdefault(kind, {})[coeff_kind] = coeff
         elif kind == "TIME SYSTEM CORR":
-            if kind not in hdr:
-                hdr[kind] = {}
-
             coeff_kind = content[:4].strip()
             # RINEX 3.04 table A5 page A20
-            coeff = [
-                rinex_string_to_float(content[5:22]),
-                rinex_string_to_float(content[22:38]),
-                int(content[38:45]),
-                int(content[45:50]),
-            ]
-            hdr[kind][coeff_kind] = coeff
+            try:
+                coeff = [
+                    rinex_string_to_float(content[5:22]),
+                    rinex_string_to_float(content[22:38]),
+                    int(content[38:45]),
+                    int(content[45:50]),
+                ]
+            except ValueError:
+                logging.info(f"{kind} {coeff_kind} is OPTIONAL and blank or malformed")
+                continue
+            hdr.setdefault(kind, {})[coeff_kind] = coeff
         else:
             hdr[kind] = content
 
-- 
2.43.0


From 303429bfa989251dc8e3d2cc76a256bd59897ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:16 +0000
Subject: [PATCH 16/43] fix: RINEX 2 OBS interval attribute of mixed files was
 of one arbitrary system

---
 src/georinex/obs2.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/georinex/obs2.py b/src/georinex/obs2.py
index de77014..8b0fca5 100644
--- a/src/georinex/obs2.py
+++ b/src/georinex/obs2.py
@@ -59,6 +59,10 @@ def rinexobs2(
 
     obs.attrs = attrs
 
+    if attrs and "interval" not in obsheader2(fn):
+        # of all systems, not of the system that was read last
+        obs.attrs["interval"] = np.median(np.diff(obs.time) / np.timedelta64(1, "s"))
+
     return obs
 
 
-- 
2.43.0


From 9a9887b0deba687b8b3852ad43b5ef01e0ce4b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:12 +0000
Subject: [PATCH 17/43] fix: batch_convert stopped at the first file that fails
 with other than ValueError

---
 src/georinex/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/georinex/base.py b/src/georinex/base.py
index 000c8a9..7f99e84 100644
--- a/src/georinex/base.py
+++ b/src/georinex/base.py
@@ -134,8 +134,9 @@ def batch_convert(
                 verbose=verbose,
                 fast=fast,
             )
-        except ValueError as e:
-            logging.error(f"{fn.name}: {e}")
+        except Exception as e:
+            # one bad file must not stop the conversion of the others
+            logging.error(f"{fn.name}: {type(e).__name__}: {e}")
 
 
 def rinexnav(
-- 
2.43.0


From b3e6b02ca4d048eed5eb53c9c99812c499c42093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:00 +0000
Subject: [PATCH 18/43] fix: RINEX 3 OBS event records were read as satellites,
 unreadable epochs ended the reading

---
 src/georinex/obs3.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/georinex/obs3.py b/src/georinex/obs3.py
index 191cac4..d174f41 100644
--- a/src/georinex/obs3.py
+++ b/src/georinex/obs3.py
@@ -81,13 +81,14 @@ def rinexobs3(
         # %% process OBS file
         time_offset = []
         for ln in f:
-            if not ln.startswith(">"):  # end of file
-                break
+            if not ln.startswith(">"):  # remains of an unreadable epoch
+                continue
 
             try:
                 time = _timeobs(ln)
-            except ValueError:  # garbage between header and RINEX data
+            except ValueError:  # garbage between header and RINEX data, or event
                 logging.debug(f"garbage detected in {fn}, trying to parse at next time step")
+                _skip(f, ln)
                 continue
 
             try:
@@ -172,6 +173,10 @@ def _timeobs(ln: str) -> datetime:
     if not ln.startswith("> "):  # pg. A13
         raise ValueError('RINEX 3 line beginning "> " is not present')
 
+    eflag = ln[31:32]
+    if eflag in {"2", "3", "4", "5"}:  # special records follow, pg. A13
+        raise ValueError(f"epoch flag {eflag}")
+
     return datetime(
         int(ln[2:6]),
         int(ln[7:9]),
@@ -182,6 +187,17 @@ def _timeobs(ln: str) -> datetime:
     ) + timedelta(microseconds=round(float(ln[19:29]) % 1 * 1000000))
 
 
+def _skip(f: T.TextIO, ln: str):
+    """skip the records of an epoch that is not used"""
+    try:
+        N = int(ln[32:35])
+    except ValueError:
+        N = 0
+
+    for _ in range(N):
+        f.readline()
+
+
 def obstime3(fn: T.TextIO | Path, verbose: bool = False):
     """
     return all times in RINEX file
-- 
2.43.0


From 9002d857ba51f50c353f0f3f12b87a63c2701bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:36 +0000
Subject: [PATCH 19/43] fix: RINEX 3 OBS time_offset included epochs outside
 the selection

---
 src/georinex/obs3.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/georinex/obs3.py b/src/georinex/obs3.py
index d174f41..da50074 100644
--- a/src/georinex/obs3.py
+++ b/src/georinex/obs3.py
@@ -91,10 +91,7 @@ def rinexobs3(
                 _skip(f, ln)
                 continue
 
-            try:
-                time_offset.append(float(ln[41:56]))
-            except ValueError:
-                pass
+            offset = ln[41:56]
             # %% get SV indices
             sv = []
             raw = ""
@@ -122,6 +119,11 @@ def rinexobs3(
             if verbose:
                 print(time, end="\r")
 
+            try:
+                time_offset.append(float(offset))
+            except ValueError:
+                pass
+
             # this time epoch is complete, assemble the data.
             data = _epoch(data, raw, hdr, time, sv, useindicators, verbose)
 
-- 
2.43.0


From 7f5970aa79916906a94f071cc6749632078f8e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:36 +0000
Subject: [PATCH 20/43] fix: RINEX 3 OBS satellite without data at the end of a
 file without newline raised IndexError

---
 src/georinex/obs3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/georinex/obs3.py b/src/georinex/obs3.py
index da50074..05ea2ff 100644
--- a/src/georinex/obs3.py
+++ b/src/georinex/obs3.py
@@ -99,7 +99,7 @@ def rinexobs3(
             for _ in range(int(ln[32:35])):
                 ln = f.readline()
                 sv.append(ln[:3])
-                raw += ln[3:]
+                raw += ln[3:].rstrip("\r\n") + "\n"
 
             if tlim is not None:
                 if time < tlim[0]:
-- 
2.43.0


From 38c595c62a4702541bcd8785b0a2f4cda752a5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:13 +0000
Subject: [PATCH 21/43] fix: RINEX 3 OBS comment between the lines of SYS / # /
 OBS TYPES made reading fail

---
 src/georinex/obs3.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/georinex/obs3.py b/src/georinex/obs3.py
index 05ea2ff..75a1eeb 100644
--- a/src/georinex/obs3.py
+++ b/src/georinex/obs3.py
@@ -319,6 +319,9 @@ def obsheader3(
             n = N - 13
             while n > 0:  # Rinex 3.03, pg. A6, A7
                 ln = f.readline()
+                if ln.rstrip().endswith("COMMENT"):  # may be anywhere in the header
+                    hdr["COMMENT"] = f"{hdr['COMMENT']} {ln[:60]}" if "COMMENT" in hdr else ln[:60]
+                    continue
                 assert "SYS / # / OBS TYPES" in ln[60:]
                 fields[k] += ln[6:60].split()
                 n -= 13
-- 
2.43.0


From cd438b120329711fdd424d8b72aa49b108a09468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:29 +0000
Subject: [PATCH 22/43] fix: SP3 conversion replaced an existing NetCDF file,
 with its OBS and NAV data, without being asked

---
 src/georinex/base.py | 2 +-
 src/georinex/sp3.py  | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/georinex/base.py b/src/georinex/base.py
index 7f99e84..bd18441 100644
--- a/src/georinex/base.py
+++ b/src/georinex/base.py
@@ -81,7 +81,7 @@ def load(
         raise ValueError(f"What kind of RINEX file is: {info}")
 
     if info["rinextype"] == "sp3":
-        return load_sp3(rinexfn, outfn)
+        return load_sp3(rinexfn, outfn, overwrite=overwrite)
     elif rinexfn.suffix == ".nc":
         # outfn not used here, because we already have the converted file!
         try:
diff --git a/src/georinex/sp3.py b/src/georinex/sp3.py
index 161543f..d2b29e1 100644
--- a/src/georinex/sp3.py
+++ b/src/georinex/sp3.py
@@ -19,7 +19,7 @@ ENC = {"zlib": True, "complevel": 1, "fletcher32": True}
 __all__ = ["load_sp3"]
 
 
-def load_sp3(fn: Path, outfn: Path | None) -> xarray.Dataset:
+def load_sp3(fn: Path, outfn: Path | None, *, overwrite: bool = False) -> xarray.Dataset:
     """
     The basic format is a position and clock record;
     a second, optional, record contains velocities and clock rates-of-change.
@@ -128,6 +128,9 @@ def load_sp3(fn: Path, outfn: Path | None) -> xarray.Dataset:
 
     if outfn:
         outfn = Path(outfn).expanduser()
+        if outfn.is_file() and not overwrite:
+            raise ValueError(f"{outfn} already exists")
+
         enc = {k: ENC for k in ds.data_vars}
         ds.to_netcdf(outfn, mode="w", encoding=enc, format="NETCDF4")
 
-- 
2.43.0


From fb3b27f201e5656ab8c6b533833032cd0a0e0527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:02 +0000
Subject: [PATCH 23/43] fix: loading a NetCDF file with both OBS and NAV data
 raised AttributeError

---
 src/georinex/rio.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/georinex/rio.py b/src/georinex/rio.py
index f0faf3b..4dd5ed3 100644
--- a/src/georinex/rio.py
+++ b/src/georinex/rio.py
@@ -154,14 +154,17 @@ def rinexinfo(f: T.TextIO | Path) -> dict[T.Hashable, T.Any]:
         fn = Path(f).expanduser()
 
         if fn.suffix == ".nc":
-            attrs: dict[T.Hashable, T.Any] = {"rinextype": []}
+            types: list[str] = []
+            attrs: dict[T.Hashable, T.Any] = {"rinextype": types}
             for g in ("OBS", "NAV"):
                 try:
                     dat = xarray.open_dataset(fn, group=g)
-                    attrs["rinextype"].append(g.lower())
+                    types.append(g.lower())
                 except OSError:
                     continue
                 attrs.update(dat.attrs)
+            if len(types) > 1:
+                attrs["rinextype"] = types  # not only that of the last one
             return attrs
 
         with opener(fn, header=True) as f:
-- 
2.43.0


From d3a695c461932296ba24eed0e06e0059bcd81b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:35 +0000
Subject: [PATCH 24/43] fix: RINEX 2 OBS receiver model was wrong with blank or
 several words in number or version

---
 src/georinex/obs2.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/georinex/obs2.py b/src/georinex/obs2.py
index 8b0fca5..5c449ef 100644
--- a/src/georinex/obs2.py
+++ b/src/georinex/obs2.py
@@ -461,8 +461,10 @@ def obsheader2(
         pass
 
     try:
-        s = " "
-        hdr["rxmodel"] = s.join(hdr["REC # / TYPE / VERS"].split()[1:-1])
+        # 3A20: number, type and version may each be blank or several words
+        rxmodel = hdr["REC # / TYPE / VERS"][20:40].strip()
+        if rxmodel:
+            hdr["rxmodel"] = rxmodel
     except (KeyError, ValueError):
         pass
 
-- 
2.43.0


From 3fa5c2bc3416486c065edc9251e582a7fe876fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:00 +0000
Subject: [PATCH 25/43] fix: receiver locations of same-named files, files
 without OBS group and empty lists

Files of the same name in different directories all got the position of the
last one, a NetCDF file holding only NAV data raised OSError and an empty list
of files IndexError.
---
 src/georinex/geo.py | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/georinex/geo.py b/src/georinex/geo.py
index 4691ab6..133ba30 100644
--- a/src/georinex/geo.py
+++ b/src/georinex/geo.py
@@ -17,20 +17,21 @@ def get_locations(files: list[Path]) -> pandas.DataFrame:
     if isinstance(files, (Path, io.StringIO)):
         files = [files]
 
-    if isinstance(files[0], io.StringIO):
-        locs = pandas.DataFrame(index=["0"], columns=["lat", "lon", "interval"])
-    elif isinstance(files[0], Path):
-        locs = pandas.DataFrame(
-            index=[file.name for file in files], columns=["lat", "lon", "interval"]
-        )
-    else:
-        raise TypeError("Expecting pathlib.Path")
+    # one row per file: files of different directories may share a name
+    index: list[str] = []
+    rows: list[tuple[float, float, float]] = []
 
     hdr: dict[T.Hashable, T.Any]
     for file in files:
+        if not isinstance(file, (Path, io.StringIO)):
+            raise TypeError("Expecting pathlib.Path")
+
         if isinstance(file, Path) and file.suffix == ".nc":
-            dat = xarray.open_dataset(file, group="OBS")
-            hdr = dat.attrs
+            try:
+                with xarray.open_dataset(file, group="OBS") as dat:
+                    hdr = dat.attrs
+            except OSError:  # NetCDF file without OBS
+                continue
         else:
             try:
                 hdr = rinexheader(file)
@@ -45,10 +46,14 @@ def get_locations(files: list[Path]) -> pandas.DataFrame:
         if "position_geodetic" not in hdr:
             continue
 
-        locs.loc[key, "lat"] = hdr["position_geodetic"][0]
-        locs.loc[key, "lon"] = hdr["position_geodetic"][1]
-        if "interval" in hdr and hdr["interval"] is not None:
-            locs.loc[key, "interval"] = hdr["interval"]
+        interval = hdr.get("interval")
+        if interval is None:
+            interval = float("nan")
+
+        index.append(key)
+        rows.append((hdr["position_geodetic"][0], hdr["position_geodetic"][1], interval))
+
+    locs = pandas.DataFrame(rows, index=index, columns=["lat", "lon", "interval"], dtype=float)
 
     locs = locs.loc[locs.loc[:, ["lat", "lon"]].notna().all(axis=1), :]
 
-- 
2.43.0


From e92bfd65896988bb939ab62c6ccbcccf25ed9fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:16 +0000
Subject: [PATCH 26/43] fix: RINEX clock files were taken for observation files

The type letter C of clock data was taken for CRINEX; times of a clock file
were empty, reading it raised KeyError.
---
 src/georinex/rio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/georinex/rio.py b/src/georinex/rio.py
index 4dd5ed3..0bddcca 100644
--- a/src/georinex/rio.py
+++ b/src/georinex/rio.py
@@ -193,7 +193,7 @@ def rinexinfo(f: T.TextIO | Path) -> dict[T.Hashable, T.Any]:
         else:
             system = line[40]
 
-        if line[20] in ("O", "C"):
+        if line[20] == "O" or line[20:40] == "COMPACT RINEX FORMAT":
             rinex_type = "obs"
         elif line[20] == "N" or "NAV" in line[20:40]:
             rinex_type = "nav"
-- 
2.43.0


From 8a245a4ecff64466738423a88eb93ff85d195564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:51 +0000
Subject: [PATCH 27/43] fix: files cut off within the first line of a record
 gave satellites or epochs they do not hold

---
 src/georinex/nav2.py | 3 +++
 src/georinex/nav3.py | 3 +++
 src/georinex/obs3.py | 2 ++
 3 files changed, 8 insertions(+)

diff --git a/src/georinex/nav2.py b/src/georinex/nav2.py
index ed0bf3b..6e06d4f 100644
--- a/src/georinex/nav2.py
+++ b/src/georinex/nav2.py
@@ -131,6 +131,9 @@ def rinexnav2(fn: T.TextIO | Path, tlim: tuple[datetime, datetime] | None = None
             except ValueError:
                 continue
 
+            if not ln.endswith("\n"):  # file cut off within this line
+                break
+
             if tlim is not None:
                 if time < tlim[0]:
                     _skip(f, Nl[header["systems"]])
diff --git a/src/georinex/nav3.py b/src/georinex/nav3.py
index d8c641d..6b372d8 100644
--- a/src/georinex/nav3.py
+++ b/src/georinex/nav3.py
@@ -47,6 +47,9 @@ def rinexnav3(
             except ValueError:  # blank or garbage line
                 continue
 
+            if not line.endswith("\n"):  # file cut off within this line
+                break
+
             if tlim is not None:
                 if time < tlim[0] or time > tlim[1]:
                     _skip(f, Nl[line[0]])
diff --git a/src/georinex/obs3.py b/src/georinex/obs3.py
index 75a1eeb..79332e2 100644
--- a/src/georinex/obs3.py
+++ b/src/georinex/obs3.py
@@ -98,6 +98,8 @@ def rinexobs3(
             # Number of visible satellites this time %i3  pg. A13
             for _ in range(int(ln[32:35])):
                 ln = f.readline()
+                if len(ln) < 3 and not ln.endswith("\n"):
+                    raise ValueError(f"{fn} is cut off within the epoch {time}")
                 sv.append(ln[:3])
                 raw += ln[3:].rstrip("\r\n") + "\n"
 
-- 
2.43.0


From 61eff3fedd46012a4b57b7b474baab96b9aca47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:46 +0000
Subject: [PATCH 28/43] fix: times of files cut off within an epoch line

---
 src/georinex/nav2.py | 3 +++
 src/georinex/nav3.py | 3 +++
 src/georinex/obs3.py | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/georinex/nav2.py b/src/georinex/nav2.py
index 6e06d4f..6cce926 100644
--- a/src/georinex/nav2.py
+++ b/src/georinex/nav2.py
@@ -277,6 +277,9 @@ def navtime2(fn: T.TextIO | Path):
             except ValueError:
                 continue
 
+            if not ln.endswith("\n"):  # file cut off within this line
+                break
+
             times.append(time)
 
             _skip(f, Nl[hdr["systems"]])
diff --git a/src/georinex/nav3.py b/src/georinex/nav3.py
index 6b372d8..6afcae1 100644
--- a/src/georinex/nav3.py
+++ b/src/georinex/nav3.py
@@ -550,6 +550,9 @@ def navtime3(fn: T.TextIO | Path):
             except ValueError:
                 continue
 
+            if not line.endswith("\n"):  # file cut off within this line
+                break
+
             times.append(time)
             _skip(f, Nl[line[0]])  # different system types skip different line counts
 
diff --git a/src/georinex/obs3.py b/src/georinex/obs3.py
index 79332e2..e6ba7a4 100644
--- a/src/georinex/obs3.py
+++ b/src/georinex/obs3.py
@@ -181,6 +181,9 @@ def _timeobs(ln: str) -> datetime:
     if eflag in {"2", "3", "4", "5"}:  # special records follow, pg. A13
         raise ValueError(f"epoch flag {eflag}")
 
+    if not ln[32:35].strip():
+        raise ValueError("epoch line is cut off before the number of satellites")
+
     return datetime(
         int(ln[2:6]),
         int(ln[7:9]),
-- 
2.43.0


From 678c55de98570c7ae85d3ac0d1d495bc5564ae51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:09 +0000
Subject: [PATCH 29/43] fix: RINEX 3 OBS times were also read from header
 comments

---
 src/georinex/obs3.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/georinex/obs3.py b/src/georinex/obs3.py
index e6ba7a4..89af880 100644
--- a/src/georinex/obs3.py
+++ b/src/georinex/obs3.py
@@ -213,6 +213,8 @@ def obstime3(fn: T.TextIO | Path, verbose: bool = False):
     times = []
 
     with opener(fn) as f:
+        obsheader3(f)  # skip header, whose comments may look like epochs
+
         for ln in f:
             if ln.startswith("> "):
                 try:
-- 
2.43.0


From 72598c564067e31547760d2d0ef6660bbb594c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:03 +0000
Subject: [PATCH 30/43] fix: a header comment mentioning END OF HEADER ended
 the header

---
 src/georinex/nav2.py | 4 ++--
 src/georinex/nav3.py | 4 ++--
 src/georinex/obs2.py | 6 +++---
 src/georinex/obs3.py | 4 ++--
 src/georinex/rio.py  | 5 +++++
 5 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/georinex/nav2.py b/src/georinex/nav2.py
index 6cce926..e6f0f11 100644
--- a/src/georinex/nav2.py
+++ b/src/georinex/nav2.py
@@ -6,7 +6,7 @@ import xarray
 import numpy as np
 import logging
 
-from .rio import opener, rinexinfo
+from .rio import opener, rinexinfo, is_end_of_header
 from .common import rinex_string_to_float
 
 #
@@ -227,7 +227,7 @@ def navheader2(f: T.TextIO) -> dict[T.Hashable, T.Any]:
     hdr = rinexinfo(f)
 
     for ln in f:
-        if "END OF HEADER" in ln:
+        if is_end_of_header(ln):
             break
         kind, content = ln[60:].strip(), ln[:60]
         hdr[kind] = content
diff --git a/src/georinex/nav3.py b/src/georinex/nav3.py
index 6afcae1..16c438b 100644
--- a/src/georinex/nav3.py
+++ b/src/georinex/nav3.py
@@ -7,7 +7,7 @@ import numpy as np
 import math
 from datetime import datetime
 
-from .rio import opener, rinexinfo
+from .rio import opener, rinexinfo, is_end_of_header
 from .common import rinex_string_to_float
 
 # constants
@@ -499,7 +499,7 @@ def navheader3(f: T.TextIO) -> dict[T.Hashable, T.Any]:
     hdr = rinexinfo(f)
 
     for ln in f:
-        if "END OF HEADER" in ln:
+        if is_end_of_header(ln):
             break
 
         kind, content = ln[60:].strip(), ln[:60]
diff --git a/src/georinex/obs2.py b/src/georinex/obs2.py
index 5c449ef..aeb8780 100644
--- a/src/georinex/obs2.py
+++ b/src/georinex/obs2.py
@@ -14,7 +14,7 @@ try:
 except ImportError:
     ecef2geodetic = None
 
-from .rio import opener, rinexinfo
+from .rio import opener, rinexinfo, is_end_of_header
 from .common import determine_time_system, check_ram, check_time_interval, check_unique_times
 
 __all__ = ["rinexobs2", "rinexsystem2", "obsheader2", "obstime2"]
@@ -375,7 +375,7 @@ def obsheader2(
     Nobs = 0  # not None due to type checking
 
     for ln in f:
-        if "END OF HEADER" in ln:
+        if is_end_of_header(ln):
             break
 
         hd = ln[60:80].strip()
@@ -602,7 +602,7 @@ def _timeobs(ln: str) -> datetime:
 
 def _skip_header(f: T.TextIO):
     for ln in f:
-        if "END OF HEADER" in ln:
+        if is_end_of_header(ln):
             break
 
 
diff --git a/src/georinex/obs3.py b/src/georinex/obs3.py
index 89af880..f28292a 100644
--- a/src/georinex/obs3.py
+++ b/src/georinex/obs3.py
@@ -12,7 +12,7 @@ try:
 except ImportError:
     ecef2geodetic = None
 #
-from .rio import opener, rinexinfo
+from .rio import opener, rinexinfo, is_end_of_header
 from .common import determine_time_system, check_time_interval, check_unique_times
 
 """https://github.com/mvglasow/satstat/wiki/NMEA-IDs"""
@@ -311,7 +311,7 @@ def obsheader3(
     hdr = rinexinfo(f)
 
     for ln in f:
-        if "END OF HEADER" in ln:
+        if is_end_of_header(ln):
             break
 
         hd = ln[60:80]
diff --git a/src/georinex/rio.py b/src/georinex/rio.py
index 0bddcca..b1f18d9 100644
--- a/src/georinex/rio.py
+++ b/src/georinex/rio.py
@@ -214,6 +214,11 @@ def rinexinfo(f: T.TextIO | Path) -> dict[T.Hashable, T.Any]:
     return info
 
 
+def is_end_of_header(ln: str) -> bool:
+    """the text of a comment does not count"""
+    return "END OF HEADER" in ln and ln[60:80].strip() != "COMMENT"
+
+
 def rinex_version(s: str) -> tuple[float | str, bool]:
     """
 
-- 
2.43.0


From 4d785ea580d0f8cb881c3a0daf59636d552fe9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:03 +0000
Subject: [PATCH 31/43] fix: trailing blanks of Galileo and BeiDou records
 shifted the following fields

---
 src/georinex/nav3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/georinex/nav3.py b/src/georinex/nav3.py
index 16c438b..88d2a0d 100644
--- a/src/georinex/nav3.py
+++ b/src/georinex/nav3.py
@@ -84,7 +84,7 @@ def rinexnav3(
                     # blank fields at the end of a line may be trimmed.
                     # Galileo, BeiDou line 5: see _sparefields()
                     row = row.ljust(4 * LF)
-                raw += row
+                raw += row.ljust(LF * math.ceil(len(row) / LF))
             # one line per SV
             raws.append(raw.replace("D", "E"))
 
-- 
2.43.0


From 78cf09fa33d091b10fa120185c6da804b7935af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:53 +0000
Subject: [PATCH 32/43] fix: time listing of a directory stopped at an
 unreadable or NetCDF file

---
 src/georinex/time/__main__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/georinex/time/__main__.py b/src/georinex/time/__main__.py
index b1b1917..5c8ce3c 100644
--- a/src/georinex/time/__main__.py
+++ b/src/georinex/time/__main__.py
@@ -50,8 +50,9 @@ if filename.is_dir():
     for f in flist:
         try:
             eachfile(f)
-        except ValueError as err:
-            logging.error(f"{f.name}: {err}")
+        except Exception as err:
+            # one bad file must not stop the report on the others
+            logging.error(f"{f.name}: {type(err).__name__}: {err}")
 elif filename.is_file():
     eachfile(filename)
 else:
-- 
2.43.0


From c2defda07e9d36ca9310f6624c320210eee1a9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:49 +0000
Subject: [PATCH 33/43] fix: time listing failed with division by zero for a
 header INTERVAL of zero

---
 src/georinex/time/__main__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/georinex/time/__main__.py b/src/georinex/time/__main__.py
index 5c8ce3c..162604d 100644
--- a/src/georinex/time/__main__.py
+++ b/src/georinex/time/__main__.py
@@ -27,6 +27,7 @@ def eachfile(fn: Path):
     interval = hdr.get("interval", np.nan)
     if ~np.isnan(interval):
         ostr += f" {interval}"
+    if interval > 0:
         Nexpect = (t1 - t0) // timedelta(seconds=interval) + 1
         if Nexpect != Ntimes:
             logging.warning(f"{fn.name}: expected {Nexpect} but got {Ntimes} times")
-- 
2.43.0


From e007ab0fffd255c89e6db4d03d2a1afb295c299d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:55 +0000
Subject: [PATCH 34/43] fix: satellite tracks and receiver maps failed with
 TypeError (gca takes no projection)

---
 src/georinex/plots_geo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/georinex/plots_geo.py b/src/georinex/plots_geo.py
index 32f5f6f..57a9f6f 100644
--- a/src/georinex/plots_geo.py
+++ b/src/georinex/plots_geo.py
@@ -25,7 +25,7 @@ def navtimeseries(nav: xarray.Dataset):
     svs = nav.sv.values
 
     if cartopy is not None:
-        ax = figure().gca(projection=cartopy.crs.PlateCarree())
+        ax = figure().add_subplot(projection=cartopy.crs.PlateCarree())
 
         ax.add_feature(cpf.LAND)
         ax.add_feature(cpf.OCEAN)
@@ -91,7 +91,7 @@ def receiver_locations(locs: pandas.DataFrame):
         return
 
     if cartopy is not None:
-        ax = figure().gca(projection=cartopy.crs.PlateCarree())
+        ax = figure().add_subplot(projection=cartopy.crs.PlateCarree())
 
         ax.add_feature(cpf.LAND)
         ax.add_feature(cpf.OCEAN)
-- 
2.43.0


From c4ec554e8fdb04a7dfceadce3f2daca4e7bd35b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:45 +0000
Subject: [PATCH 35/43] fix: receiver map failed for sampling intervals of 5 to
 15 seconds and of zero

---
 src/georinex/plots_geo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/georinex/plots_geo.py b/src/georinex/plots_geo.py
index 57a9f6f..079110b 100644
--- a/src/georinex/plots_geo.py
+++ b/src/georinex/plots_geo.py
@@ -104,13 +104,13 @@ def receiver_locations(locs: pandas.DataFrame):
         if 15 <= loc.interval < 30:
             c = "g"
         elif 5 <= loc.interval < 15:
-            c = "o"
+            c = "orange"
         elif loc.interval < 5:
             c = "r"
         else:  # large or undefined interval
             c = "b"
 
-        if np.isfinite(loc.interval):
+        if np.isfinite(loc.interval) and loc.interval > 0:
             ax.scatter(loc.lon, loc.lat, s=1000 * 1 / loc.interval, c=c, label=name)
         else:
             ax.scatter(loc.lon, loc.lat, c=c, label=name)
-- 
2.43.0


From aac0bd00074e31782c7a36ecc40b9e8f0c7db69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:13 +0000
Subject: [PATCH 36/43] fix: plotting SP3 data, data without attributes or read
 from a stream failed with AttributeError

---
 src/georinex/plots.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/georinex/plots.py b/src/georinex/plots.py
index 3444f6e..24d43a6 100644
--- a/src/georinex/plots.py
+++ b/src/georinex/plots.py
@@ -17,9 +17,9 @@ def timeseries(data):
         obstimeseries(obs)
         if navtimeseries is not None:
             navtimeseries(nav)
-    elif data.rinextype == "obs":
+    elif data.attrs.get("rinextype") == "obs":
         obstimeseries(data)
-    elif data.rinextype == "nav":
+    elif data.attrs.get("rinextype") == "nav":
         if navtimeseries is not None:
             navtimeseries(data)
 
@@ -42,7 +42,7 @@ def obstimeseries(obs: xarray.Dataset):
 
         ax.plot(time, dat)
 
-        ax.set_title(obs.filename)
+        ax.set_title(obs.attrs.get("filename", ""))
         ax.set_xlabel("time [UTC]")
         ax.set_ylabel(p)
         ax.grid(True)
-- 
2.43.0


From cb260fdd490187fce06842e95f8c2336bd9f6ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:15 +0000
Subject: [PATCH 37/43] fix: negative timedelta interval was silently ignored

---
 src/georinex/common.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/georinex/common.py b/src/georinex/common.py
index 4216345..489ed1c 100644
--- a/src/georinex/common.py
+++ b/src/georinex/common.py
@@ -81,7 +81,8 @@ def check_time_interval(interval: float | int | timedelta | None) -> timedelta |
             raise ValueError("time interval must be non-negative")
         interval = timedelta(seconds=interval)
     elif isinstance(interval, timedelta):
-        pass
+        if interval < timedelta(0):
+            raise ValueError("time interval must be non-negative")
     elif interval is None:
         pass
     else:
-- 
2.43.0


From 512b70bd8f70a2a44ee8a3065c50b01af6efd859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:40 +0000
Subject: [PATCH 38/43] fix: order of the selected systems changed RINEX 3
 coordinates

---
 src/georinex/obs3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/georinex/obs3.py b/src/georinex/obs3.py
index f28292a..6c1d476 100644
--- a/src/georinex/obs3.py
+++ b/src/georinex/obs3.py
@@ -379,7 +379,7 @@ def obsheader3(
         if not set(fields.keys()).intersection(use):
             raise KeyError(f"system type {use} not found in RINEX file")
 
-        fields = {k: fields[k] for k in use if k in fields}
+        fields = {k: v for k, v in fields.items() if k in use}
 
     # perhaps this could be done more efficiently, but it's probably low impact on overall program.
     # simple set and frozenset operations do NOT preserve order, which would completely mess up reading!
-- 
2.43.0


From 38a82c45b109f922e508e5aead2e1c7396d11c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:18 +0000
Subject: [PATCH 39/43] fix: RINEX 3 satellites written with blank and with
 zero were taken for different ones

---
 src/georinex/obs3.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/georinex/obs3.py b/src/georinex/obs3.py
index 6c1d476..feb1831 100644
--- a/src/georinex/obs3.py
+++ b/src/georinex/obs3.py
@@ -100,7 +100,8 @@ def rinexobs3(
                 ln = f.readline()
                 if len(ln) < 3 and not ln.endswith("\n"):
                     raise ValueError(f"{fn} is cut off within the epoch {time}")
-                sv.append(ln[:3])
+                # patch SV names in case of "G 7" => "G07"
+                sv.append(ln[:3].replace(" ", "0"))
                 raw += ln[3:].rstrip("\r\n") + "\n"
 
             if tlim is not None:
@@ -129,8 +130,6 @@ def rinexobs3(
             # this time epoch is complete, assemble the data.
             data = _epoch(data, raw, hdr, time, sv, useindicators, verbose)
 
-    # %% patch SV names in case of "G 7" => "G07"
-    data = data.assign_coords(sv=[s.replace(" ", "0") for s in data.sv.values.tolist()])
     # %% other attributes
     data.attrs["version"] = hdr["version"]
 
-- 
2.43.0


From 8283e7455f8a5c941a799df3435a4e6a1b150e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:26 +0000
Subject: [PATCH 40/43] fix: time limits given as text were compared as text

---
 src/georinex/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/georinex/base.py b/src/georinex/base.py
index bd18441..fe91010 100644
--- a/src/georinex/base.py
+++ b/src/georinex/base.py
@@ -56,6 +56,7 @@ def load(
     if tlim is not None:
         if len(tlim) != 2:
             raise ValueError("time bounds are specified as start stop")
+        tlim = _tlim(tlim)  # text does not compare like the times it gives
         if tlim[1] < tlim[0]:
             raise ValueError("stop time must be after start time")
 
-- 
2.43.0


From d5bb8b891f3ebb1b760034e6706890646d015494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:56 +0000
Subject: [PATCH 41/43] fix: NAV 3: don't take a record that is cut off for one
 without spare fields

---
 src/georinex/nav3.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/georinex/nav3.py b/src/georinex/nav3.py
index 88d2a0d..27cd2fa 100644
--- a/src/georinex/nav3.py
+++ b/src/georinex/nav3.py
@@ -78,6 +78,7 @@ def rinexnav3(
             # NOTE: 80, files put data in the last column!
             raw = line[23:80].rstrip().ljust(3 * LF)
 
+            i, row = 0, ""
             for i, ln in zip(range(1, Nl[sv[0]] + 1), f):
                 row = ln[STARTCOL3:80].rstrip("\r\n")
                 if i < Nl[sv[0]] and not (i == 5 and sv[0] in {"C", "E"}):
@@ -85,6 +86,11 @@ def rinexnav3(
                     # Galileo, BeiDou line 5: see _sparefields()
                     row = row.ljust(4 * LF)
                 raw += row.ljust(LF * math.ceil(len(row) / LF))
+            if sv[0] in {"C", "E"} and (
+                i < Nl[sv[0]] or _num_fields(row) < (2 if sv[0] == "C" else 1)
+            ):
+                # cut off: _sparefields() would take it for a record without spare fields
+                raw = ""
             # one line per SV
             raws.append(raw.replace("D", "E"))
 
-- 
2.43.0


From 315bb59af43f95ac201f2594ca22681afba1e286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:35 +0000
Subject: [PATCH 42/43] fix: georinex.plot: draw several satellites over time,
 skip a measurement without data

---
 src/georinex/plot/__main__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/georinex/plot/__main__.py b/src/georinex/plot/__main__.py
index 2c38232..efd79b7 100644
--- a/src/georinex/plot/__main__.py
+++ b/src/georinex/plot/__main__.py
@@ -54,11 +54,14 @@ for v, ax in zip(what, axs):
 
     Satobs = obs[v][i].sel(sv=SV).dropna(dim="time", how="all")
 
-    Satobs.plot(ax=ax)
+    if Satobs.size == 0:
+        continue
+
+    Satobs.plot.line(ax=ax, x="time", add_legend=False)
 
     ax.set_title(v)
     # ax.set_ylabel(ylabel)
-    ax.legend(loc="center left", bbox_to_anchor=(1, 0.5))
+    ax.legend(Satobs.sv.values.astype(str), loc="center left", bbox_to_anchor=(1, 0.5))
 
 axs[-1].set_xlabel("Time [UTC]")
 axs[-1].xaxis.set_major_formatter(md.DateFormatter("%Y-%m-%dT%H:%M"))
-- 
2.43.0


From db1769ee57e04cb9648048f48eb95a637a37c66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:58 +0000
Subject: [PATCH 43/43] fix: NetCDF files are closed after they were read

The dataset of a NetCDF file kept the file open: adding the other kind of
data to it or overwriting it failed, and loading a file of both kinds a
third time crashed the interpreter.
---
 src/georinex/base.py | 8 ++++----
 src/georinex/rio.py  | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/georinex/base.py b/src/georinex/base.py
index fe91010..7b85041 100644
--- a/src/georinex/base.py
+++ b/src/georinex/base.py
@@ -156,7 +156,7 @@ def rinexnav(
 
         if fn.suffix == ".nc":
             try:
-                return xarray.open_dataset(fn, group=group)
+                return xarray.load_dataset(fn, group=group)  # no open file stays behind
             except OSError as e:
                 raise LookupError(f"Group {group} not found in {fn}    {e}")
 
@@ -207,7 +207,7 @@ def rinexobs(
         # %% NetCDF4
         if fn.suffix == ".nc":
             try:
-                return xarray.open_dataset(fn, group=group)
+                return xarray.load_dataset(fn, group=group)  # no open file stays behind
             except OSError as e:
                 raise LookupError(f"Group {group} not found in {fn}   {e}")
 
@@ -261,8 +261,8 @@ def _groupexists(fn: Path, group: str, overwrite: bool) -> str:
 
     # be sure there isn't already NAV in it
     try:
-        xarray.open_dataset(fn, group=group)
-        raise ValueError(f"{group} already in {fn}")
+        with xarray.open_dataset(fn, group=group):
+            raise ValueError(f"{group} already in {fn}")
     except OSError:
         pass
 
diff --git a/src/georinex/rio.py b/src/georinex/rio.py
index b1f18d9..320e422 100644
--- a/src/georinex/rio.py
+++ b/src/georinex/rio.py
@@ -158,11 +158,11 @@ def rinexinfo(f: T.TextIO | Path) -> dict[T.Hashable, T.Any]:
             attrs: dict[T.Hashable, T.Any] = {"rinextype": types}
             for g in ("OBS", "NAV"):
                 try:
-                    dat = xarray.open_dataset(fn, group=g)
-                    types.append(g.lower())
+                    with xarray.open_dataset(fn, group=g) as dat:
+                        types.append(g.lower())
+                        attrs.update(dat.attrs)
                 except OSError:
                     continue
-                attrs.update(dat.attrs)
             if len(types) > 1:
                 attrs["rinextype"] = types  # not only that of the last one
             return attrs
-- 
2.43.0

