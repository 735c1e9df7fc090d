from .base import *
from . import geo
from dedop.proc.sar.algorithms import SurfaceLocationAlgorithm as A

XYZ = 'xyz'
LLA = ('lat', 'lon', 'alt')
STATE = ('time_surf x_surf y_surf z_surf lat_surf lon_surf alt_surf x_sat y_sat z_sat lat_sat lon_sat alt_sat x_vel_sat '
         'y_vel_sat z_vel_sat alt_rate_sat roll_sat pitch_sat yaw_sat win_delay_surf prev_tai prev_utc_days prev_utc_secs '
         'curr_day_length').split()


def R(name):
    return tm.var(name, 'Real')


def setup(E, I, focusing=None):
    c = Conf(E, I, {} if focusing is None else {'flag_surface_focusing': focusing})
    a = I.call(A, c.args())
    geo.use(E, I)
    positive(E, cst('c'))
    history(E, I, a)
    return c, a


def history(E, I, a):
    """the algorithm has already been used: whatever it holds of the last surface is arbitrary"""
    for n in STATE:
        if type(a.get(n)) in (int, float):
            I.setattr(a, n, R('last.' + n))
    D = R('last.curr_day_length')
    E.assume(tm.Or(tm.eq(D, 86400), tm.eq(D, 86401)))


def bursts_of(E, c, m=2):
    """any list of bursts ending with (`prev`,) `cur`"""
    n = tm.var('n.bursts', 'Int')
    E.assume(tm.le(m, n))
    return tail_list(E, n, [burst(E, c, 'prev'), burst(E, c, 'cur')][2 - m:],
                     lambda i: burst(E, c, 'oldb', None, tm.t(i)))


def surfaces_of(E, c):
    n = tm.var('n.surfaces', 'Int')
    E.assume(tm.le(1, n))
    return tail_list(E, n, [surface(E, c, surf_over(E))], lambda i: surf_at(E, c, 'olds', tm.t(i)))


def surf_over(E):
    return {'surf_sat_vector': arr(E, 'ssv', (3,))}


def ground_angle(E, b):
    v = [tm.sub(R('%s.%s_sar_surf' % (b, x)), R('surf.%s_sat' % x)) for x in XYZ]
    return geo.angle(E, [at('ssv', i) for i in range(3)], v)


def under_burst(E, I, a, b='cur', pre='first.'):
    """the state of the algorithm describes the surface directly below burst b"""
    g = lambda n: I.getattr(a, n)
    f = lambda n: R('%s.%s' % (b, n))
    E.prove(pre + 'time', tm.eq(g('time_surf'), f('time_sar_ku')))
    la, lo = geo.norm_angle(f('lat_sar_sat')), geo.norm_angle(f('lon_sar_sat'))
    al = tm.sub(f('alt_sar_sat'), tm.div(tm.mul(f('win_delay_sar_ku'), cst('c')), 2))
    for n, w in zip(LLA, (la, lo, al)):
        E.prove(pre + n + '_surf', tm.eq(g(n + '_surf'), w))
    for n, w in zip(XYZ, geo.ecef(la, lo, al)):
        E.prove(pre + n + '_surf', tm.eq(g(n + '_surf'), w))
    for n, src in [('x_sat', 'x_sar_sat'), ('y_sat', 'y_sar_sat'), ('z_sat', 'z_sar_sat'), ('lat_sat', 'lat_sar_sat'),
                   ('lon_sat', 'lon_sar_sat'), ('alt_sat', 'alt_sar_sat'), ('alt_rate_sat', 'alt_rate_sat_sar'),
                   ('roll_sat', 'roll_sar'), ('pitch_sat', 'pitch_sar'), ('yaw_sat', 'yaw_sar'),
                   ('win_delay_surf', 'win_delay_sar_ku'), ('x_vel_sat', 'vel0'), ('y_vel_sat', 'vel1'),
                   ('z_vel_sat', 'vel2')]:
        E.prove(pre + n, tm.eq(g(n), f(src)))


def interpolated(E, I, a, pre='next.'):
    g = lambda n: I.getattr(a, n)
    th, thp = ground_angle(E, 'cur'), ground_angle(E, 'prev')
    al = tm.div(tm.sub(R('surf.angular_azimuth_beam_resolution'), thp), tm.sub(th, thp))

    def mix(src):
        p, q = R('prev.' + src), R('cur.' + src)
        return tm.add(p, tm.mul(al, tm.sub(q, p)))
    pairs = [('time_surf', 'time_sar_ku'), ('alt_rate_sat', 'alt_rate_sat_sar'), ('roll_sat', 'roll_sar'),
             ('pitch_sat', 'pitch_sar'), ('yaw_sat', 'yaw_sar')]
    for i, x in enumerate(XYZ):
        pairs += [(x + '_surf', x + '_sar_surf'), (x + '_sat', x + '_sar_sat'), (x + '_vel_sat', 'vel%d' % i)]
    for n, src in pairs:
        E.prove(pre + n, tm.eq(g(n), mix(src)))
    su = geo.lla(*[mix(x + '_sar_surf') for x in XYZ])
    sa = geo.lla(*[mix(x + '_sar_sat') for x in XYZ])
    for i, n in enumerate(LLA):
        E.prove(pre + n + '_surf', tm.eq(g(n + '_surf'), su[i]))
        E.prove(pre + n + '_sat', tm.eq(g(n + '_sat'), sa[i]))
    E.prove(pre + 'win_delay', tm.eq(g('win_delay_surf'), tm.div(tm.mul(2, tm.sub(sa[2], su[2])), cst('c'))))


@contract('C07', 'first-surface')
def first(E, I):
    c, a = setup(E, I)
    r = run(I, a, [], bursts_of(E, c, 1))
    E.prove('created', r is True)
    E.prove('first_surf', I.getattr(a, 'first_surf') is True)
    under_burst(E, I, a)


@contract('C07', 'forced-after-gap')
def forced(E, I):
    c, a = setup(E, I, False)
    r = run(I, a, surfaces_of(E, c), bursts_of(E, c, 1), True)
    E.prove('created', r is True)
    under_burst(E, I, a)


@contract('C07', 'next-surface')
def next_(E, I):
    c, a = setup(E, I, False)
    positive(E, geo.dot(*[[at('ssv', i) for i in range(3)]] * 2))
    r = run(I, a, surfaces_of(E, c), bursts_of(E, c))
    th, thp = ground_angle(E, 'cur'), ground_angle(E, 'prev')
    # the previous burst did not reach the resolution, or it would have created the surface itself
    far = tm.le(R('surf.angular_azimuth_beam_resolution'), th)
    if E.branch(far):
        E.assume(tm.lt(thp, th))
        E.prove('created', r is True)
        interpolated(E, I, a)
    else:
        E.prove('not-created', r is False)
    E.prove('first_surf', I.getattr(a, 'first_surf') is False)
    E.prove('new_surf', I.getattr(a, 'new_surf') is r)


@contract('C07', 'angle-between')
def ang(E, I):
    geo.check_angle_between(E, I)


@contract('C07', 'angular-resolution')
def resol(E, I):
    c = Conf(E, I)
    s = surface(E, c)
    pri = R('pri')
    run(I, method(I, s, 'compute_angular_azimuth_beam_resolution'), pri)
    v = [R('surf.%s_vel_sat' % x) for x in XYZ]
    want = tm.generic('asin', tm.div(cst('c'), tm.mul(tm.mul(tm.mul(2, chd('freq_ku')), tm.sqrt(geo.dot(v, v))),
                                                     tm.mul(c.P, pri))))
    E.prove('resolution', tm.eq(I.getattr(s, 'angular_azimuth_beam_resolution'), want))


@contract('C07', 'surface-satellite-vector')
def ssv(E, I):
    c = Conf(E, I)
    s = surface(E, c)
    run(I, method(I, s, 'compute_surf_sat_vector'))
    v = I.getattr(s, 'surf_sat_vector')
    E.prove('shape', tm.eq(v.shape[0], 3) if v.ndim == 1 else False)
    for i, x in enumerate(XYZ):
        E.prove(x, tm.eq(v.get([i]), tm.sub(R('surf.%s_surf' % x), R('surf.%s_sat' % x))))


@contract('C07', 'surface-takes-over')
def takes(E, I):
    """the dictionary handed to the new surface holds the computed values under their own names"""
    c, a = setup(E, I, False)
    names = STATE[:STATE.index('prev_tai')]
    for n in names:
        I.setattr(a, n, R('alg.' + n))
    d = run(I, method(I, a, 'get_surface'))
    s = I.call(SurfaceData, (c.cst, c.chd, 5, d))
    for n in names:
        E.prove(n, tm.eq(I.getattr(s, n), R('alg.' + n)))
    E.prove('counter', tm.eq(I.getattr(s, 'surface_counter'), 5))


@contract('C07', 'new-surface')
def new_surface(E, I):
    """the surface put into the queue: numbered consecutively, appended at the end, holding the computed location
    and the vector and resolution derived from it"""
    from dedop.proc.sar.processor import L1BProcessor as P
    c, a = setup(E, I, False)
    n, cnt = tm.var('n.surfaces', 'Int'), tm.var('count', 'Int')
    E.assume([tm.le(0, n), tm.le(0, cnt)])
    q = SList(E, length=n, fn=lambda i: surf_at(E, c, 'olds', tm.t(i)))
    p = SObj(E, P, 'processor', lazy=lambda k: {'_surfaces': q, 'surfaces_count': cnt, 'cst': c.cst, 'chd': c.chd,
                                                'cnf': c.cnf, 'surface_locations_algorithm': a}.get(k, SDict.MISSING))
    names = ['time_surf', 'win_delay_surf', 'alt_rate_sat', 'roll_sat', 'pitch_sat', 'yaw_sat'] + \
            [x + s for x in XYZ for s in ('_surf', '_sat', '_vel_sat')] + [x + s for x in LLA for s in ('_surf', '_sat')]
    for m in names:
        I.setattr(a, m, R('alg.' + m))
    v2 = geo.dot(*[[R('alg.%s_vel_sat' % x) for x in XYZ]] * 2)
    r = run(I, method(I, p, 'new_surface'), I.call(I.getattr(a, 'get_surface'), ()))
    E.prove('queue-length', tm.eq(q.length(), tm.add(n, 1)))
    last = q.get(n)
    E.prove('returned', last is r)
    E.prove('number', tm.eq(I.getattr(r, 'surface_counter'), cnt))
    E.prove('count', tm.eq(I.getattr(p, 'surfaces_count'), tm.add(cnt, 1)))
    for m in names:
        E.prove(m, tm.eq(I.getattr(r, m), R('alg.' + m)))
    v = I.getattr(r, 'surf_sat_vector')
    for i, x in enumerate(XYZ):
        E.prove('vector.' + x, tm.eq(v.get([i]), tm.sub(R('alg.%s_surf' % x), R('alg.%s_sat' % x))))
    want = tm.generic('asin', tm.div(cst('c'), tm.mul(tm.mul(tm.mul(2, chd('freq_ku')), tm.sqrt(v2)),
                                                     tm.mul(c.P, tm.div(1, chd('prf_sar'))))))
    E.prove('resolution', tm.eq(I.getattr(r, 'angular_azimuth_beam_resolution'), want))
