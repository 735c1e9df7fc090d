from .l1a import *
from dedop.data.input.l1a import L1ADataset


@case('C01', 'region', 25, 600)
def region(rng, scratch):
    n = int(rng.integers(1, 50))
    lim = {}
    lat, lon = np.round(rng.uniform(-80, 80, n), 1), np.round(rng.uniform(-179, 179, n), 1)
    if rng.random() < .5:
        lat, lon = np.sort(lat), np.sort(lon)
    empty = rng.random(n) < rng.choice([0, .3])
    lat[empty] = lon[empty] = 0
    for k, a in (('min_lat', lat), ('max_lat', lat), ('min_lon', lon), ('max_lon', lon)):
        if rng.random() < .45:
            # often exactly on a record
            lim[k] = float(a[int(rng.integers(n))]) if rng.random() < .7 else float(rng.uniform(-60, 60))
    if rng.random() < .2:
        # the equator or the zero meridian as a limit, with records on both sides
        z = str(rng.choice(['lat', 'lon']))
        a = lat if z == 'lat' else lon
        a *= rng.choice([1, .1])
        lim = {str(rng.choice(['min_', 'max_'])) + z: 0.}
        a[(np.arange(n) % 3 == 1) & ~empty] *= -1
    path = os.path.join(scratch, 'c01.nc')
    t = np.cumsum(rng.uniform(.01, 1, n))
    make(path, n, rng, {'lat': lat, 'lon': lon, 'time': t})
    want = stored(path)
    lat, lon = want['lat' + T], want['lon' + T]
    chd, cst, cnf = mkconf()
    for k in ('min_lat', 'max_lat', 'min_lon', 'max_lon'):
        setattr(cnf, k, lim.get(k))
        if getattr(cnf, k) != lim.get(k):
            raise Skip('cannot set %s' % k)
    ok = np.ones(n, bool)
    for k, v in lim.items():
        a = lat if 'lat' in k else lon
        ok &= (a >= v) if 'min' in k else (a <= v)
    if not ok.any():
        os.unlink(path)
        return 'nothing in the region'
    ix = np.nonzero(ok)[0]
    d = '(%d records, limits %r)' % (n, lim)
    valid = ~((lat == 0) & (lon == 0))
    good = [int(i) for i in np.nonzero(ok & valid)[0]]
    ds = L1ADataset(path, cst=cst, chd=chd, cnf=cnf)
    try:
        expect(len(ds) == ix[-1] - ix[0] + 1, 'length %d, expected %d %s', len(ds), ix[-1] - ix[0] + 1, d)
        expect(ds.max_index == len(ds), 'max_index %s', d)
        expect(float(ds.first_time()) == t[ix[0]] and float(ds.last_time()) == t[ix[-1]], 'first/last time %s', d)
        got, steps = [], 0
        while True:
            steps += 1
            expect(steps <= n + 1, 'never ends %s', d)
            try:
                p = next(ds)
            except StopIteration:
                break
            if p is not None:
                got.append((p.counter, float(p.time_sar_ku)))
        expect([g[0] for g in got] == good, 'next() delivers records %r, expected %r %s', [g[0] for g in got], good, d)
        expect(all(g[1] == t[g[0]] for g in got), 'next() delivers the data of other records %s', d)
        it = [p for p in ds]
        expect([p.counter for p in it if p is not None] == good, 'iteration delivers records %r, expected %r %s',
               [p.counter for p in it if p is not None], good, d)
    finally:
        ds.close()
        os.unlink(path)
    return d


@case('C01', 'limits-from-configuration', 20, 300)
def limits(rng, scratch):
    """the limits reach the reader from the configuration file"""
    chd, cst, _ = mkconf()
    lim = {k: round(float(rng.uniform(-80, 80)), 3) * (rng.random() < .8) for k in ('min_lat', 'max_lat', 'min_lon', 'max_lon') if rng.random() < .5}
    cnf = mkconf(cnf=lim)[2]
    for k in ('min_lat', 'max_lat', 'min_lon', 'max_lon'):
        if k in lim:
            expect(getattr(cnf, k) is not None and abs(float(getattr(cnf, k)) - lim[k]) < 1e-12, '%s=%r is read as %r', k, lim[k], getattr(cnf, k))
    return lim
