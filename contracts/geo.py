"""contracts of the geodetic conversions as seen by their callers (the conversions themselves: C18)"""
from .base import *
from dedop.proc.geo import lla2ecef, ecef2lla, normalize
from dedop.proc.functions import angle_between


def parts(I, v):
    if isinstance(v, Arr):
        n = v.shape[0] if v.ndim == 1 else None
        if v.ndim == 1 and tm.as_const(tm.t(n)) == 3:
            return [v.get([i]) for i in range(3)]
        if v.ndim == 2 and tm.as_const(tm.t(v.shape[0])) == 3 and tm.as_const(tm.t(v.shape[1])) == 1:
            return [v.get([i, 0]) for i in range(3)]
        if v.ndim == 2 and tm.as_const(tm.t(v.shape[1])) == 3 and tm.as_const(tm.t(v.shape[0])) == 1:
            return [v.get([0, i]) for i in range(3)]
        raise Unsupported('coordinate vector %r' % v)
    return I.unpack(v, 3)


def ecef(lat, lon, alt):
    return tuple(tm.app('ecef.' + a, 'Real', tm.t(lat), tm.t(lon), tm.t(alt)) for a in 'xyz')


def lla(x, y, z):
    return tuple(tm.app('lla.' + a, 'Real', tm.t(x), tm.t(y), tm.t(z)) for a in ('lat', 'lon', 'alt'))


def norm_angle(x):
    return tm.app('normalized', 'Real', tm.t(x))


def dot(a, b):
    s = 0
    for x, y in zip(a, b):
        s = tm.add(s, tm.mul(x, y))
    return tm.t(s)


def angle(E, a, b):
    """arccos of the normalised inner product, limited to 1"""
    c = tm.div(dot(a, b), tm.mul(tm.sqrt(dot(a, a)), tm.sqrt(dot(b, b))))
    return tm.app('angle', 'Real', c)


def use(E, I, angles=True):
    def fwd(I, args, kwargs):
        v = parts(I, args[0])
        deg = args[2] if len(args) > 2 else kwargs.get('lla_as_degrees', False)
        if I.truth(deg):
            v = [tm.mul(v[0], tm.div(tm.PI, 180)), tm.mul(v[1], tm.div(tm.PI, 180)), v[2]]
        return ecef(*v)
    E.contracts[lla2ecef] = fwd
    E.contracts[ecef2lla] = lambda I, args, kw: lla(*parts(I, args[0]))
    E.contracts[normalize] = lambda I, args, kw: norm_angle(args[0])
    if angles:
        E.contracts[angle_between] = lambda I, args, kw: angle(E, parts(I, args[0]), parts(I, args[1]))


def check_angle_between(E, I, fn=angle_between):
    a, b = [[tm.var('%s%d' % (n, i), 'Real') for i in range(3)] for n in 'ab']
    E.assume([tm.lt(0, dot(a, a)), tm.lt(0, dot(b, b))])
    va = Arr(E, (3,), 'real', lambda idx: a[int(tm.as_const(idx[0]))])
    vb = Arr(E, (3, 1), 'real', lambda idx: b[int(tm.as_const(idx[0]))], matrix=True)
    got = run(I, fn, va, vb)
    c = tm.div(dot(a, b), tm.mul(tm.sqrt(dot(a, a)), tm.sqrt(dot(b, b))))
    c = tm.const(1) if E.branch(tm.lt(1, c)) else c
    E.prove('angle', tm.eq(got, tm.generic('acos', c)))
