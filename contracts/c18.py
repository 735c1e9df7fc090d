"""Geodetic conversions.  The forward conversion and normalisation are proved functionally; the inverse is proved
to be the (Bowring) closed form, which is shown exact on the ellipsoid, and its accuracy elsewhere is a numerical
fact about that formula (bounded harness)."""
from .base import *
from dedop.proc.geo import lla2ecef, ecef2lla, normalize


def setup(E, I):
    c = Conf(E, I)
    a, b = cst('semi_major_axis'), cst('semi_minor_axis')
    E.assume([tm.lt(0, b), tm.lt(b, a)])
    return c, a, b


def forward(a, b, lat, lon, alt):
    e2 = tm.sub(1, tm.div(tm.mul(b, b), tm.mul(a, a)))
    s, c = tm.sin(lat), tm.cos(lat)
    N = tm.div(a, tm.sqrt(tm.sub(1, tm.mul(e2, tm.mul(s, s)))))
    k = tm.mul(tm.add(N, alt), c)
    return tm.mul(k, tm.cos(lon)), tm.mul(k, tm.sin(lon)), tm.mul(tm.add(tm.mul(N, tm.sub(1, e2)), alt), s)


@contract('C18', 'forward')
def fwd(E, I):
    c, a, b = setup(E, I)
    lla = [tm.var(n, 'Real') for n in ('lat', 'lon', 'alt')]
    got = run(I, lla2ecef, tuple(lla), c.cst)
    for n, g, w in zip('xyz', got, forward(a, b, *lla)):
        E.prove(n, tm.eq(g, w))


@contract('C18', 'forward-degrees')
def fwd_deg(E, I):
    c, a, b = setup(E, I)
    lla = [tm.var(n, 'Real') for n in ('lat', 'lon', 'alt')]
    got = run(I, lla2ecef, tuple(lla), c.cst, True)
    r = tm.div(tm.PI, 180)
    for n, g, w in zip('xyz', got, forward(a, b, tm.mul(lla[0], r), tm.mul(lla[1], r), lla[2])):
        E.prove(n, tm.eq(g, w))


@contract('C18', 'forward-array')
def fwd_arr(E, I):
    c, a, b = setup(E, I)
    n = skolem(E, 'n', 1, 10 ** 9)
    k = skolem(E, 'k', 0, n)
    got = run(I, lla2ecef, [arr(E, m, (n,)) for m in ('lat', 'lon', 'alt')], c.cst)
    for m, g, w in zip('xyz', got, forward(a, b, at('lat', k), at('lon', k), at('alt', k))):
        E.prove(m + '.shape', tm.eq(g.shape[0], n))
        E.prove(m, tm.eq(g.get([k]), w))


def bowring(E, x, y, z):
    a, f = cst('semi_major_axis'), cst('flat_coeff')
    b = tm.mul(a, tm.sub(1, f))
    e2 = tm.sub(1, tm.div(tm.mul(b, b), tm.mul(a, a)))
    ep2 = tm.div(tm.sub(tm.mul(a, a), tm.mul(b, b)), tm.mul(b, b))
    p = tm.sqrt(tm.add(tm.mul(x, x), tm.mul(y, y)))
    th = tm.generic('atan2', tm.mul(a, z), tm.mul(b, p))
    s, c = tm.sin(th), tm.cos(th)
    lat = tm.generic('atan2', tm.add(z, tm.mul(tm.mul(ep2, b), tm.mul(s, tm.mul(s, s)))),
                     tm.sub(p, tm.mul(tm.mul(e2, a), tm.mul(c, tm.mul(c, c)))))
    N = tm.div(a, tm.sqrt(tm.sub(1, tm.mul(e2, tm.mul(tm.sin(lat), tm.sin(lat))))))
    return lat, tm.generic('atan2', y, x), tm.sub(tm.div(p, tm.cos(lat)), N), b


def roots(E, v, r):
    """v with every square root of r*r (r >= 0) replaced by r"""
    r2 = tm.mul(r, r)
    E.lemma('root', tm.eq(tm.sqrt(r2), r))
    old = tm.sqrt(r2)
    m = old.p[0][0]
    if len(old.p) == 1 and len(m) == 1 and m[0][0].kind == 'fn':
        return tm.subst(v, {m[0][0]: r})
    return v


def inverse_post(E, got, x, y, z):
    lat, lon, alt, b = bowring(E, x, y, z)
    got = [roots(E, g, b) for g in got]
    E.prove('lat', tm.eq(got[0], lat))
    q = tm.floor(tm.div(lon, tm.mul(2, tm.PI)))
    E.prove('lon', tm.eq(got[1], tm.sub(lon, tm.mul(q, tm.mul(2, tm.PI)))))
    near = tm.And(tm.lt(tm.absv(x), 1), tm.lt(tm.absv(y), 1))
    if E.branch(near):
        E.prove('alt.pole', tm.eq(got[2], tm.sub(tm.absv(z), b)))
    else:
        E.prove('alt', tm.eq(got[2], alt))


def setup_inv(E, I):
    c = Conf(E, I)
    a, f = cst('semi_major_axis'), cst('flat_coeff')
    E.assume([tm.lt(0, a), tm.lt(0, f), tm.lt(f, 1)])
    return c


@contract('C18', 'inverse')
def inv(E, I):
    c = setup_inv(E, I)
    x, y, z = [tm.var(n, 'Real') for n in 'xyz']
    inverse_post(E, run(I, ecef2lla, (x, y, z), c.cst), x, y, z)


@contract('C18', 'inverse-array')
def inv_arr(E, I):
    c = setup_inv(E, I)
    n = skolem(E, 'n', 1, 10 ** 9)
    k = skolem(E, 'k', 0, n)
    got = run(I, ecef2lla, [arr(E, m, (n,)) for m in 'xyz'], c.cst)
    for g in got:
        E.prove('shape', tm.eq(g.shape[0], n))
    inverse_post(E, [g.get([k]) for g in got], at('x', k), at('y', k), at('z', k))


@contract('C18', 'normalize')
def norm_(E, I):
    c = Conf(E, I)
    r = tm.var('rads', 'Real')
    got = run(I, normalize, r, c.cst)
    E.prove('range', tm.And(tm.le(tm.neg(tm.PI), got), tm.le(got, tm.PI)))
    turns = tm.div(tm.sub(got, r), tm.mul(2, tm.PI))
    E.prove('same-angle', tm.eq(tm.floor(turns), turns))


@contract('C18', 'bowring-exact-on-ellipsoid')
def exact(E, I):
    """The closed form used by the inverse is exact for every point on the ellipsoid (alt = 0)."""
    a, q, phi = tm.var('a', 'Real'), tm.var('q', 'Real'), tm.var('phi', 'Real')
    E.assume([tm.lt(0, a), tm.lt(0, q), tm.lt(q, 1), tm.lt(0, tm.cos(phi))])
    b = tm.mul(a, q)
    s, c = tm.sin(phi), tm.cos(phi)
    e2 = tm.sub(1, tm.mul(q, q))
    w2 = tm.sub(1, tm.mul(e2, tm.mul(s, s)))
    E.lemma('normal-length', tm.lt(0, w2))
    N = tm.div(a, tm.sqrt(w2))
    p, z = tm.mul(N, c), tm.mul(tm.mul(N, tm.mul(q, q)), s)
    sb, cb = tm.div(z, b), tm.div(p, a)          # claimed sine and cosine of th = atan2(a z, b p)
    E.prove('th.unit', tm.eq(tm.mul(tm.add(tm.mul(sb, sb), tm.mul(cb, cb)), w2), w2))
    E.prove('th.direction', tm.eq(tm.mul(sb, tm.mul(b, p)), tm.mul(cb, tm.mul(a, z))))
    E.prove('th.cos-positive', tm.lt(0, cb))
    ep2 = tm.div(e2, tm.mul(q, q))
    num = tm.add(z, tm.mul(tm.mul(ep2, b), tm.mul(sb, tm.mul(sb, sb))))
    den = tm.sub(p, tm.mul(tm.mul(e2, a), tm.mul(cb, tm.mul(cb, cb))))
    # (num, den) points in the direction (sin phi, cos phi)
    W3 = tm.mul(w2, tm.sqrt(w2))
    E.prove('lat.direction', tm.eq(tm.mul(W3, tm.sub(tm.mul(num, c), tm.mul(den, s))), 0))
    E.prove('lat.cos-positive', tm.lt(0, tm.mul(den, W3)))
    E.prove('alt.zero', tm.eq(tm.sub(tm.div(p, c), N), 0))
