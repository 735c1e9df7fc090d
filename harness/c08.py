from .track import *
from .c07 import NAMES, XYZ, LLA
from dedop.proc.sar.algorithms import SurfaceLocationAlgorithm


def snap(s):
    return {n: float(getattr(s, n)) for n in NAMES}


@case('C08', 'focusing', 40, 800)
def focusing(rng, scratch):
    from dedop.proc.sar.processor import L1BProcessor
    on = bool(rng.random() < .8)
    o = Orbit(rng, *mkconf()[:2], dt=.02)
    la, lo, al = o.sat_lla(o.dt * rng.uniform(-5, 60))
    tgt = (la + rng.uniform(-1, 1) * 1e-4, lo + rng.uniform(-1, 1) * 1e-4, o.surf0 + rng.uniform(-50, 50))
    chd, cst, cnf = mkconf(cnf={'flag_surface_focusing': on, 'surface_focusing_lat': float(np.degrees(tgt[0])),
                                'surface_focusing_lon': float(np.degrees(tgt[1])), 'surface_focusing_alt': float(tgt[2])})
    tgt = (cnf.surface_focusing_lat, cnf.surface_focusing_lon, cnf.surface_focusing_alt)
    T = ecef(*tgt, cst)
    p = L1BProcessor.__new__(L1BProcessor)
    p.chd, p.cst, p.cnf = chd, cst, cnf
    p._surfaces, p.surfaces_count, p._packets = [], 0, []
    p.surface_locations_algorithm = alg = SurfaceLocationAlgorithm(chd, cst, cnf)
    bursts, surfs, moved, k, done = [], [], None, 0, False
    for i in range(60):
        force = i > 0 and rng.random() < .03
        k += int(rng.integers(5, 20)) if force else 1
        bursts.append(o.burst(k))
        before = [snap(s) for s in surfs]
        flags = [s.target_focused for s in surfs]
        new = alg(surfs, bursts, force)
        d = '(burst %d, %d surfaces, focusing=%s, found=%s)' % (i, len(surfs), on, done)
        hit = None
        if new:
            q = np.array([alg.x_surf, alg.y_surf, alg.z_surf])
            if on and not done and len(surfs) > 1:
                l = before[-1]
                gain = np.linalg.norm(T - q) - np.linalg.norm(T - [l[x + '_surf'] for x in XYZ])
                if abs(gain) < 1e-6:
                    raise Skip('too close to call')
                if gain > 0:
                    hit = len(surfs) - 1
        for j, (s, was, f) in enumerate(zip(surfs, before, flags)):
            now = snap(s)
            if j != hit:
                expect(now == was and s.target_focused == f, 'surface %d was altered %s', j, d)
                continue
            done = True
            a = np.array([before[j - 1][x + '_surf'] for x in XYZ])
            e = np.array([was[x + '_surf'] for x in XYZ]) - a
            want = a + e * np.dot(T - a, e) / np.dot(e, e)
            got = np.array([now[x + '_surf'] for x in XYZ])
            expect(np.linalg.norm(got - want) < 5e-2, 'moved to %r, expected %r %s', got, want, d)
            g = lla(want, cst)
            for n, v in zip(LLA, g):
                df = now[n + '_surf'] - v
                expect(abs(df) < (5e-2 if n == 'alt' else 1e-8) or (n == 'lon' and abs(abs(df) - 2 * np.pi) < 1e-8), 'moved %s %r, expected %r %s', n,
                       now[n + '_surf'], v, d)
            expect(abs(now['win_delay_surf'] - 2 * (was['alt_sat'] - g[2]) / cst.c) < 1e-9, 'window delay %s', d)
            expect(s.target_focused is True, 'not flagged %s', d)
            expect(all(now[n] == was[n] for n in NAMES if 'sat' in n or n == 'time_surf'), 'satellite data altered %s', d)
        if new:
            surfs.append(p.new_surface(alg.get_surface()))
    return 'moved=%s surfaces=%d' % (done, len(surfs))
