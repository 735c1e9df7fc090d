from .util import *
from dedop.proc.geo import lla2ecef, ecef2lla, normalize


def points(rng, n):
    lat = rng.uniform(-np.pi / 2, np.pi / 2, n)
    lon = rng.uniform(-np.pi, np.pi, n)
    alt = rng.uniform(-500, 8.5e5, n)
    for i in range(n):
        r = rng.random()
        if r < .1:
            lat[i] = rng.choice([-1, 1]) * np.pi / 2
        elif r < .2:
            lat[i] = rng.choice([-1, 1]) * (np.pi / 2 - 10 ** rng.uniform(-12, -3))
        elif r < .3:
            lat[i] = rng.choice([0., 1e-12, -1e-9])
        if rng.random() < .2:
            lon[i] = rng.choice([0, np.pi, -np.pi, np.pi / 2, -np.pi / 2])
        if rng.random() < .2:
            alt[i] = 0.
    return lat, lon, alt


def model(lat, lon, alt, a, b):
    """textbook form: parametric point on the ellipsoid plus altitude along the outward normal"""
    w = np.hypot(a * np.cos(lat), b * np.sin(lat))
    p = a * a * np.cos(lat) / w + alt * np.cos(lat)
    return p * np.cos(lon), p * np.sin(lon), b * b * np.sin(lat) / w + alt * np.sin(lat)


@case('C18', 'round-trip', 300, 6000)
def round_trip(rng, scratch):
    _, cst, _ = mkconf()
    lat, lon, alt = [v[0] for v in points(rng, 1)]
    deg = bool(rng.integers(2))
    xyz = lla2ecef((np.degrees(lat), np.degrees(lon), alt) if deg else (lat, lon, alt), cst, deg) if deg \
        else lla2ecef((lat, lon, alt), cst)
    d = 'lat=%r lon=%r alt=%r' % (lat, lon, alt)
    want = model(lat, lon, alt, cst.semi_major_axis, cst.semi_minor_axis)
    expect(np.linalg.norm(np.subtract(xyz, want)) < 1e-6, 'forward conversion of %s: %r, expected %r', d, xyz, want)
    la, lo, al = ecef2lla(xyz, cst)
    expect(np.ndim(la) == 0 and np.ndim(al) == 0, 'scalar input gives scalar output')
    expect(abs(la - lat) * 6.4e6 < 1e-2, 'latitude of %s comes back as %r', d, la)
    expect(abs(al - alt) < 1e-2, 'altitude of %s comes back as %r', d, al)
    p = np.hypot(xyz[0], xyz[1])
    dl = (lo - lon + np.pi) % (2 * np.pi) - np.pi
    expect(abs(dl) * p < 1e-2, 'longitude of %s comes back as %r', d, lo)
    expect(-1e-12 <= lo <= 2 * np.pi, 'longitude %r of %s outside a full turn', lo, d)
    return d


@case('C18', 'arrays', 60, 800)
def arrays(rng, scratch):
    _, cst, _ = mkconf()
    n = int(rng.integers(1, 9))
    lla = points(rng, n)
    xyz = lla2ecef([v.copy() for v in lla], cst)
    back = ecef2lla([np.array(v, dtype=float) for v in xyz], cst)
    for i in range(n):
        one = lla2ecef([v[i] for v in lla], cst)
        close([v[i] for v in xyz], one, 'array forward conversion', atol=1e-6)
        o2 = ecef2lla([float(v[i]) for v in xyz], cst)
        close([v[i] for v in back], o2, 'array inverse conversion of %r' % ([v[i] for v in lla],), atol=1e-6)
    return '%d points %r' % (n, lla[0][0])


@case('C18', 'normalize', 200, 3000)
def norm_(rng, scratch):
    _, cst, _ = mkconf()
    x = float(rng.choice([rng.uniform(-4, 4), rng.uniform(-100, 100), cst.pi, -cst.pi, 2 * cst.pi, 0.]))
    y = normalize(x, cst)
    expect(-cst.pi <= y <= cst.pi, 'normalize(%r) = %r out of range', x, y)
    t = (y - x) / (2 * cst.pi)
    expect(abs(t - round(t)) < 1e-9, 'normalize(%r) = %r is another angle', x, y)
    return repr(x)
