from .track import *
from dedop.proc.sar.algorithms import SurfaceLocationAlgorithm

XYZ, LLA = 'xyz', ('lat', 'lon', 'alt')
NAMES = ('time_surf x_surf y_surf z_surf lat_surf lon_surf alt_surf x_sat y_sat z_sat lat_sat lon_sat alt_sat '
         'x_vel_sat y_vel_sat z_vel_sat alt_rate_sat roll_sat pitch_sat yaw_sat win_delay_surf').split()


def vel(b):
    return np.array([getattr(b, x + '_vel_sat_sar') for x in XYZ])


def below(b, cst):
    alt = b.alt_sar_sat - b.win_delay_sar_ku * cst.c / 2
    p = ecef(b.lat_sar_sat, b.lon_sar_sat, alt, cst)
    w = dict(time_surf=b.time_sar_ku, lat_surf=b.lat_sar_sat, lon_surf=b.lon_sar_sat, alt_surf=alt,
             win_delay_surf=b.win_delay_sar_ku, alt_rate_sat=b.alt_rate_sat_sar, roll_sat=b.roll_sar,
             pitch_sat=b.pitch_sar, yaw_sat=b.yaw_sar)
    for i, x in enumerate(XYZ):
        w[x + '_surf'], w[x + '_sat'], w[x + '_vel_sat'] = p[i], getattr(b, x + '_sar_sat'), vel(b)[i]
    for n in LLA:
        w[n + '_sat'] = getattr(b, n + '_sar_sat')
    return w


def between(b, q, al, cst):
    m = lambda f, g: f + al * (g - f)
    w = {n: m(getattr(b, s), getattr(q, s)) for n, s in
         (('time_surf', 'time_sar_ku'), ('alt_rate_sat', 'alt_rate_sat_sar'), ('roll_sat', 'roll_sar'),
          ('pitch_sat', 'pitch_sar'), ('yaw_sat', 'yaw_sar'))}
    v = m(vel(b), vel(q))
    for i, x in enumerate(XYZ):
        w[x + '_surf'] = m(getattr(b, x + '_sar_surf'), getattr(q, x + '_sar_surf'))
        w[x + '_sat'] = m(getattr(b, x + '_sar_sat'), getattr(q, x + '_sar_sat'))
        w[x + '_vel_sat'] = v[i]
    for k in ('surf', 'sat'):
        for n, val in zip(LLA, lla([w['%s_%s' % (x, k)] for x in XYZ], cst)):
            w['%s_%s' % (n, k)] = val
    w['win_delay_surf'] = 2 * (w['alt_sat'] - w['alt_surf']) / cst.c
    return w


def tol(n):
    if n[:2] in ('x_', 'y_', 'z_', 'al'):
        return 5e-2
    if n == 'win_delay_surf':
        return 1e-9
    return 1e-6 if n == 'time_surf' else 1e-8


def same(s, w, d):
    for n in NAMES:
        g = getattr(s, n)
        diff = g - w[n]
        if n.startswith('lon'):
            diff = (diff + np.pi) % (2 * np.pi) - np.pi
        expect(abs(diff) <= tol(n), '%s is %r, expected %r %s', n, g, w[n], d)


@case('C07', 'track', 30, 600)
def track(rng, scratch):
    """run the surface generation over a track of bursts, with gaps"""
    from dedop.proc.sar.processor import L1BProcessor
    N = int(rng.choice([16, 64]))
    chd, cst, cnf = mkconf(chd={'n_ku_pulses_burst': N}, cnf={'flag_surface_focusing': False})
    o = Orbit(rng, chd, cst)
    p = L1BProcessor.__new__(L1BProcessor)
    p.chd, p.cst, p.cnf = chd, cst, cnf
    p._surfaces, p.surfaces_count, p._packets = [], int(rng.integers(0, 50)), []
    p.surface_locations_algorithm = alg = SurfaceLocationAlgorithm(chd, cst, cnf)
    first = p.surfaces_count
    bursts, surfs, k = [], [], 0
    noisy = rng.random() < .2
    still = [f for f in ('roll_sar', 'pitch_sar', 'yaw_sar', 'alt_rate_sat_sar') if rng.random() < .05]
    for i in range(int(rng.integers(10, 40))):
        force = i > 0 and rng.random() < .05
        k += 1 if not force else int(rng.integers(5, 60))
        bursts.append(o.burst(k))
        for f in still:
            setattr(bursts[-1], f, 0.)
        if noisy:                  # the echo moves from burst to burst
            bursts[-1].win_delay_sar_ku += float(rng.uniform(-1, 1) * 1e-6)
        b = bursts[-1]
        new = alg(surfs, bursts, force)
        d = '(burst %d, %d surfaces, forced=%s)' % (i, len(surfs), force)
        if not surfs or force:
            expect(new, 'no surface created %s', d)
            w = below(b, cst)
        else:
            l, pb = surfs[-1], bursts[-2]
            los = np.array([getattr(l, x + '_surf') - getattr(l, x + '_sat') for x in XYZ])
            th = [angle(los, [getattr(q, x + '_sar_surf') - getattr(l, x + '_sat') for x in XYZ]) for q in (pb, b)]
            v = np.sqrt(sum(getattr(l, x + '_vel_sat') ** 2 for x in XYZ))
            res = np.arcsin(cst.c / (2 * chd.freq_ku * v * N * chd.pri_sar))
            if abs(th[1] - res) < 1e-7 * res:
                raise Skip('too close to call')
            expect(bool(new) == (th[1] >= res), 'created=%r at angle %r, resolution %r %s', new, th[1], res, d)
            if not new:
                continue
            w = between(pb, b, (res - th[0]) / (th[1] - th[0]), cst)
        s = p.new_surface(alg.get_surface())
        surfs.append(s)
        same(s, w, d)
        expect(p._surfaces[-1] is s and len(p._surfaces) == len(surfs), 'queue %s', d)
        expect(s.surface_counter == first + len(surfs) - 1, 'number %r %s', s.surface_counter, d)
    return '%d surfaces from %d bursts' % (len(surfs), len(bursts))
