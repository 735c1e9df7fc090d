from .base import *
from . import geo
from .c07 import R, XYZ, LLA, setup, bursts_of, interpolated, under_burst, ground_angle, surf_over
from dedop.proc.sar.algorithms import SurfaceLocationAlgorithm as A

MOVED = {x + '_surf' for x in XYZ} | {x + '_surf' for x in LLA} | {'win_delay_surf', 'target_focused'}


def target():
    return geo.ecef(*[R('cnf.surface_focusing_' + n) for n in LLA])


def sub3(a, b):
    return [tm.sub(x, y) for x, y in zip(a, b)]


def pos(name):
    return [R('%s.%s_surf' % (name, x)) for x in XYZ]


def dist(p):
    d = sub3(target(), p)
    return tm.sqrt(geo.dot(d, d))


def distinct(E):
    E.assume(tm.lt(0, geo.dot(*[sub3(pos('last'), pos('prior'))] * 2)))
    E.assume(tm.lt(0, geo.dot(*[sub3(target(), pos('prior'))] * 2)))


def moved_ok(E, I, s, pre):
    """s now lies on the line prior-last at the orthogonal projection of the target"""
    t = sub3(target(), pos('prior'))
    d = sub3(pos('last'), pos('prior'))
    k = tm.div(geo.dot(t, d), geo.dot(d, d))
    q = [I.getattr(s, x + '_surf') for x in XYZ]
    for i, x in enumerate(XYZ):
        # on the line, at the projection
        E.prove(pre + 'position.' + x, tm.eq(tm.mul(geo.dot(d, d), tm.sub(q[i], pos('prior')[i])),
                                             tm.mul(geo.dot(t, d), d[i])))
    g = geo.lla(*q)
    for i, n in enumerate(LLA):
        E.prove(pre + n, tm.eq(I.getattr(s, n + '_surf'), g[i]))
    E.prove(pre + 'win_delay', tm.eq(I.getattr(s, 'win_delay_surf'),
                                     tm.div(tm.mul(2, tm.sub(R('last.alt_sat'), g[2])), cst('c'))))
    E.prove(pre + 'flagged', I.getattr(s, 'target_focused') is True)


@contract('C08', 'move')
def move(E, I):
    c, a = setup(E, I, True)
    distinct(E)
    s, p = surface(E, c, name='last'), surface(E, c, name='prior')
    ds, da = I.getattr(s, '_data'), a
    framed(E, I, method(I, a, 'focus_surface'), (s, p), [(ds, MOVED), (a, {'focus_found'})])
    moved_ok(E, I, s, '')
    E.prove('found', I.getattr(a, 'focus_found') is True)


@contract('C08', 'projection-is-orthogonal')
def ortho(E, I):
    """lemma: the projected position makes the vector to the target orthogonal to the track"""
    t, d = [[tm.var(n + x, 'Real') for x in XYZ] for n in 'td']
    n2 = geo.dot(d, d)
    E.assume(tm.lt(0, n2))
    q = [tm.div(tm.mul(geo.dot(t, d), x), n2) for x in d]
    E.prove('orthogonal', tm.eq(tm.mul(n2, geo.dot(sub3(t, q), d)), 0))


@contract('C08', 'distance')
def distance(E, I):
    c, a = setup(E, I, True)
    p = [R('p' + x) for x in XYZ]
    got = run(I, method(I, a, 'focus_target_distance'), Arr(E, (3,), 'real', lambda idx: p[int(tm.as_const(idx[0]))]))
    E.prove('distance', tm.eq(got, dist(p)))


@contract('C08', 'recorded-distance')
def recorded(E, I):
    """a new surface carries its distance to the target"""
    c, a = setup(E, I, True)
    for x in XYZ:
        I.setattr(a, x + '_surf', R('alg.%s_surf' % x))
    d = run(I, method(I, a, 'get_surface'))
    s = I.call(SurfaceData, (c.cst, c.chd, 5, d))
    E.prove('distance', tm.eq(I.getattr(s, 'focus_target_distance'), dist([R('alg.%s_surf' % x) for x in XYZ])))


def call(E, I, focusing, found, n0):
    c, a = setup(E, I, focusing)
    I.setattr(a, 'focus_found', found)
    n = tm.var('n.surfaces', 'Int')
    E.assume(tm.le(n0, n))
    if n0 == 1:
        E.assume(tm.eq(n, 1))
    over = surf_over(E)
    # every queued surface carries its distance (contract recorded-distance)
    last, prior = surface(E, c, over, 'last'), surface(E, c, name='prior')
    old = lambda i: surf_at(E, c, 'olds', tm.t(i))
    sl = tail_list(E, n, [prior, last][2 - n0:], old)
    E.write_log, E.alloc_log = [], set()
    force = tm.boolvar('force')
    I.entry = True
    r = I.call(a, (sl, bursts_of(E, c), force))
    log, fresh = E.write_log, E.alloc_log
    E.write_log = E.alloc_log = None
    mine = {a.heapid}
    others = [(o, i) for o, i in log if o.heapid not in fresh and o.heapid not in mine]
    return c, a, last, r, others


@contract('C08', 'disabled')
def disabled(E, I):
    c, a, last, r, others = call(E, I, False, False, 2)
    E.prove('no-surface-altered', not others, detail=repr(others[:3]))


@contract('C08', 'at-most-once')
def once(E, I):
    c, a, last, r, others = call(E, I, True, True, 2)
    E.prove('no-surface-altered', not others, detail=repr(others[:3]))
    E.prove('still-found', I.getattr(a, 'focus_found') is True)


@contract('C08', 'needs-two')
def two(E, I):
    c, a, last, r, others = call(E, I, True, False, 1)
    E.prove('no-surface-altered', not others, detail=repr(others[:3]))
    E.prove('still-searching', I.getattr(a, 'focus_found') is False)


@contract('C08', 'moves-when-receding')
def receding(E, I):
    distinct(E)
    c, a, last, r, others = call(E, I, True, False, 2)
    ds = I.getattr(last, '_data')
    new = dist([I.getattr(a, x + '_surf') for x in XYZ]) if r is True else None
    if r is True and E.branch(tm.lt(R('last.focus_target_distance'), new)):
        moved_ok(E, I, last, 'moved.')
        E.prove('found', I.getattr(a, 'focus_found') is True)
        bad = [(o, i) for o, i in others if not (o.heapid == ds.heapid and i[1] in MOVED)]
        E.prove('only-that-surface', not bad, detail=repr(bad[:3]))
    else:
        E.prove('no-surface-altered', not others, detail=repr(others[:3]))
        E.prove('still-searching', I.getattr(a, 'focus_found') is False)
