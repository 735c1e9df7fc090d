"""a plausible orbit for the harness, with its own geodesy (independent of dedop.proc.geo)"""
import numpy as np
from .util import *

C = 299792458.


def ell(cst):
    a, b = cst.semi_major_axis, cst.semi_minor_axis
    return a, b, 1 - (b / a) ** 2


def ecef(lat, lon, alt, cst):
    a, b, e2 = ell(cst)
    n = a / np.sqrt(1 - e2 * np.sin(lat) ** 2)
    return np.array([(n + alt) * np.cos(lat) * np.cos(lon), (n + alt) * np.cos(lat) * np.sin(lon),
                     (n * (1 - e2) + alt) * np.sin(lat)])


def lla(p, cst):
    a, b, e2 = ell(cst)
    x, y, z = [float(v) for v in p]
    r = np.hypot(x, y)
    lat = np.arctan2(z, r * (1 - e2))
    for _ in range(30):
        n = a / np.sqrt(1 - e2 * np.sin(lat) ** 2)
        lat = np.arctan2(z + e2 * n * np.sin(lat), r)
    n = a / np.sqrt(1 - e2 * np.sin(lat) ** 2)
    alt = r * np.cos(lat) + z * np.sin(lat) - a * np.sqrt(1 - e2 * np.sin(lat) ** 2)
    return lat, np.arctan2(y, x), alt


def angle(u, v):
    u, v = np.ravel(u), np.ravel(v)
    return np.arctan2(np.linalg.norm(np.cross(u, v)), np.dot(u, v))


class Orbit:
    """bursts every dt seconds along a great circle-ish track at lat0, lon0 with heading"""

    def __init__(self, rng, chd, cst, dt=None):
        self.rng, self.chd, self.cst = rng, chd, cst
        self.lat0, self.lon0 = rng.uniform(-1.2, 1.2), rng.uniform(-2.9, 2.9)
        self.head = rng.uniform(-np.pi, np.pi)
        self.alt0, self.surf0 = rng.uniform(7e5, 1.3e6), rng.uniform(-100, 3000)
        self.speed = rng.uniform(6500, 7800)
        self.dt = dt or rng.uniform(.004, .03)
        self.t0 = rng.uniform(1e8, 5e8)

    def sat_lla(self, t):
        w = self.speed / 7.2e6
        return (self.lat0 + w * t * np.cos(self.head), self.lon0 + w * t * np.sin(self.head) / np.cos(self.lat0),
                self.alt0 + 5 * t)

    def burst(self, k, **over):
        t = k * self.dt
        la, lo, al = self.sat_lla(t)
        wd = 2 * (al - self.surf0) / self.cst.c
        p = ecef(la, lo, al, self.cst)
        q = ecef(la, lo, al - wd * self.cst.c / 2, self.cst)
        v = (ecef(*self.sat_lla(t + .01), self.cst) - ecef(*self.sat_lla(t - .01), self.cst)) / .02
        d = dict(time_sar_ku=self.t0 + t, lat_sar_sat=la, lon_sar_sat=lo, alt_sar_sat=al, win_delay_sar_ku=wd,
                 x_sar_sat=p[0], y_sar_sat=p[1], z_sar_sat=p[2], x_sar_surf=q[0], y_sar_surf=q[1], z_sar_surf=q[2],
                 x_vel_sat_sar=v[0], y_vel_sat_sar=v[1], z_vel_sat_sar=v[2])
        for f in ('roll_sar', 'pitch_sar', 'yaw_sar', 'alt_rate_sat_sar'):
            if self.rng.random() < .1:
                d[f] = 0.
        d.update(over)
        return mkburst(self.chd, self.cst, k, **d)
