"""ECEF to geodetic (WGS-84) by iteration: independent of the library the code under test calls"""

import math

A = 6378137.0
F = 1 / 298.257223563
E2 = F * (2 - F)


def geodetic(x: float, y: float, z: float) -> tuple[float, float, float]:
    """-> latitude [deg], longitude [deg], height [m]"""
    p = math.hypot(x, y)
    lat = math.atan2(z, p * (1 - E2))
    for _ in range(60):
        n = A / math.sqrt(1 - E2 * math.sin(lat) ** 2)
        lat = math.atan2(z + E2 * n * math.sin(lat), p)
    n = A / math.sqrt(1 - E2 * math.sin(lat) ** 2)
    h = p * math.cos(lat) + (z + E2 * n * math.sin(lat)) * math.sin(lat) - n
    return math.degrees(lat), math.degrees(math.atan2(y, x)), h


def agree(got, pos) -> bool:
    lat, lon, alt = geodetic(*pos)
    g = [float(v) for v in got]
    if len(g) != 3:
        return False
    dlon = abs((g[1] - lon + 180) % 360 - 180)
    return abs(g[0] - lat) < 1e-6 and dlon < 1e-6 and abs(g[2] - alt) < 0.01
