from .products import *
from dedop.proc.sar.algorithms import SurfaceLocationAlgorithm


def utc_of(base, t):
    """base = (tai of the start of day d, d, seconds of that day)"""
    tai0, d, D = base
    u = t - tai0
    if u < 0:
        return d - 1, u + 86400
    return (d, u) if u < D else (d + 1, u - D)


def tags(out, which, k):
    p = CLS[which][1]
    return [float(out['%s_%s_echo_sar_ku' % (n, p)][k]) for n in ('time', 'UTC_day', 'UTC_sec')]


def same_instant(base, t, got, d):
    """the tag names the instant t (a microsecond of slack: TAI in double precision)"""
    day, sec = utc_of(base, t)
    if abs(sec) < 1e-5 or abs(t - base[0] - base[2]) < 1e-5:
        # at a boundary either side is right within the slack
        alt = [utc_of(base, t - 1e-5), utc_of(base, t + 1e-5)]
    else:
        alt = [(day, sec)]
    expect(any(got[1] == a and abs(got[2] - b) < 1.2e-5 for a, b in alt),
           'UTC is day %r second %r, expected day %r second %r %s', got[1], got[2], day, sec, d)
    expect(-1e-6 <= got[2] < base[2] + 1e-6, 'second %r of a day of %r s %s', got[2], base[2], d)


@case('C19', 'tags', 12, 200)
def written(rng, scratch):
    """records with any UTC reference, at and around the end of the day"""
    c, M, looks = conf(rng)
    for which in CLS:
        ss, want = [], []
        for k in range(4):
            D = int(rng.choice([86400, 86401]))
            day = int(rng.integers(1000, 9000))
            sec = float(rng.choice([rng.uniform(0, D), D - .25, 0., D - 1.5, D - 1]))
            dt = float(rng.choice([0, .25, rng.uniform(0, .5), 1.0, 1.5]))
            tai = float(rng.integers(10 ** 8, 5 * 10 ** 8))
            ss.append(product_surface(rng, c[0], c[1], k, M, looks, prev_tai=tai, prev_utc_days=day,
                                      prev_utc_secs=sec, curr_day_length=D, time_surf=tai + dt))
            u = sec + dt
            want.append((tai + dt, day, u) if u < D else (tai + dt, day + 1, u - D))
        out, _ = write(scratch, which, c, ss)
        for k, w in enumerate(want):
            got = tags(out, which, k)
            expect(got[0] == w[0], '%s: time %r, expected %r', which, got[0], w[0])
            expect(got[1] == w[1] and abs(got[2] - w[2]) < 1e-6, '%s: UTC %r, expected %r', which, got[1:], w[1:])
            if CLS[which][1] == 'l1b':
                g = float(out['GPS_time_l1b_echo_sar_ku'][k])
                expect(abs(g - (w[0] + 630719981)) < 1e-6, '%s: GPS time %r for TAI %r', which, g, w[0])
    return '%s %r' % (which, got)


@case('C19', 'track', 10, 200)
def track(rng, scratch):
    """surfaces of a track of bursts over the end of a day, which may have a leap second, with gaps; written out"""
    N = 64
    (chd, cst, cnf), M, looks = conf(rng)
    chd, cst, cnf = mkconf(chd={'n_ku_pulses_burst': N, 'n_samples_sar': chd.n_samples_sar},
                           cnf={'flag_surface_focusing': False, 'zp_fact_range': cnf.zp_fact_range,
                                'n_looks_stack': looks})
    o = Orbit(rng, chd, cst, dt=rng.uniform(.01, .04))
    n = int(rng.integers(8, 30))
    D = int(rng.choice([86400, 86401]))
    day = int(rng.integers(1000, 9000))
    # the end of the day, or the start of the leap second, falls somewhere on the track
    end = o.t0 + rng.uniform(-1, n + 1) * o.dt + (rng.random() < .5) * (D - 86400)
    base = (end - D, day, D)
    p = []
    alg = SurfaceLocationAlgorithm(chd, cst, cnf)
    bursts, surfs, k = [], [], 0
    for i in range(n):
        force = i > 0 and rng.random() < .1
        k += 1 if not force else int(rng.integers(3, 30))
        t = o.t0 + k * o.dt
        dd, ss = utc_of(base, t)
        bursts.append(o.burst(k, days=dd, seconds=ss))
        if alg(surfs, bursts, force):
            d = alg.get_surface()
            s = product_surface(rng, chd, cst, len(surfs), M, looks, **d)
            s.compute_surf_sat_vector()
            s.compute_angular_azimuth_beam_resolution(chd.pri_sar)
            surfs.append(s)
    for which in CLS:
        out, _ = write(scratch, which, (chd, cst, cnf), surfs)
        for j, s in enumerate(surfs):
            got = tags(out, which, j)
            expect(abs(got[0] - s.time_surf) < 1e-6, 'time %r, surface time %r', got[0], s.time_surf)
            same_instant(base, s.time_surf, got, '(%s, surface %d, day of %d s)' % (which, j, D))
    return '%d surfaces' % len(surfs)


@case('C19', 'iso', 40, 2000)
def iso(rng, scratch):
    """time stamps of the product's global attributes"""
    import datetime
    from dedop.util.time import iso_format
    t = float(rng.choice([rng.uniform(-1e9, 2e9), rng.integers(-20000, 20000) * 43200., rng.integers(-10 ** 9, 10 ** 9)]))
    got = datetime.datetime.fromisoformat(iso_format(t))
    base = datetime.datetime(2000, 1, 1, tzinfo=datetime.timezone.utc)
    expect(got.utcoffset() == datetime.timedelta(0), 'not UTC: %r', got)
    d = got - base
    expect(abs((d.days * 86400 + d.seconds - t) + d.microseconds * 1e-6) < 2e-6, 'time %r is written as %r', t, iso_format(t))
    return t


@case('C19', 'product-times', 20, 2000)
def product_times(rng, scratch):
    """the global first and last time of the products of a run"""
    import datetime
    from . import proc as pr
    from .c04 import scene, execute, complete
    p, recs, seen, size, looks, bri = scene(rng, scratch)
    a = float(rng.integers(-10 ** 9, 10 ** 9))
    times = (a, a + float(rng.integers(0, 10000)) + .5)
    with pr.Run(p, recs, seen, size, min_surfs=2) as run:
        run.times = times
        e = execute(run)
    if e is not None:
        return 'not a complete run'
    base = datetime.datetime(2000, 1, 1, tzinfo=datetime.timezone.utc)
    got = {}
    for which, k in run.globals:
        got.setdefault(which, {}).update(k)
    expect(sorted(got) == (['l1b'] if p.skip_l1bs else ['l1b', 'l1bs']), 'attributes written to %r', sorted(got))
    for which, k in got.items():
        for n, t in zip(('first_meas_time', 'last_meas_time'), times):
            d = datetime.datetime.fromisoformat(k[n]) - base
            expect(abs(d.total_seconds() - t) < 1e-3, '%s of the %s product is %r for the time %r', n, which, k[n], t)
    return times
