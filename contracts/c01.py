from .base import *
from .c03 import dataset, val, T
from dedop.data.input.l1a import L1ADataset
from dedop.data.input.netcdf_reader import NetCDFReader
from dedop.data.input.l1a.enums import L1AVariables as V
import dedop.data.input.l1a.l1a_dataset as mod

LIMITS = ('min_lat', 'min_lon', 'max_lat', 'max_lon')
n = tm.var('records', 'Int')


def limits(E, which):
    return {k: (tm.var('cnf.' + k, 'Real') if k in which else None) for k in LIMITS}


def inside(lim, i):
    f = True
    for k, v in lim.items():
        if v is not None:
            a = val('lat' if 'lat' in k else 'lon', i)
            f = tm.And(f, tm.le(v, a) if k.startswith('min') else tm.le(a, v))
    return f


def opened(E, I, lim):
    """the data set as constructed on a product of n records"""
    c = Conf(E, I, dict(lim))
    E.assume(tm.le(1, n))
    ds, _ = dataset(E, I, c)       # installs the contract of the reader
    dims = SDict(E, {'time_l1a_echo_sar_ku': SObj(E, object, 'dim', lazy=lambda k: n if k == 'size' else SDict.MISSING)})
    doc = SObj(E, object, 'doc', lazy=lambda k: dims if k == 'dimensions' else SDict.MISSING)
    rd = SObj(E, NetCDFReader, 'reader', lazy=lambda k: doc if k == '_doc' else SDict.MISSING)
    E.contracts[NetCDFReader] = lambda I, a, k: rd

    def var(I, args, kw):
        nm = args[1].value[:-len(T)]
        return Arr(E, (n,), 'real', lambda idx: val(nm, idx[0]))
    E.contracts[NetCDFReader.get_variable] = var
    E.contracts[L1ADataset.__getitem__] = lambda I, args, kw: rec(E, c, args[1])
    return c


def rec(E, c, i):
    """the burst made from record i (contract C03)"""
    rad = tm.div(tm.PI, 180)
    return burst(E, c, 'rec', {'lat_sar_sat': lambda j: tm.mul(rad, val('lat', j)), 'lon_sar_sat': lambda j: tm.mul(rad, val('lon', j))}, tm.t(i))


def construct(E, I, c):
    return raises(E, I, L1ADataset, 'product.nc', c.cst, c.chd, c.cnf)


def facts(E, *idx):
    """use what is known about the region indices at idx"""
    extra = []
    for nm, rank, cnt in E.ghost.get('index_arrays', ()):
        extra += [rank(i) for i in idx]
    E.instantiate(*idx)
    E.instantiate(*extra)


def valid(i):
    return tm.Not(tm.And(tm.eq(val('lat', i), 0), tm.eq(val('lon', i), 0)))


def setup(E, I, which):
    lim = limits(E, which)
    c = opened(E, I, lim)
    q = tm.var('some.inside', 'Int')      # there is a burst in the region
    E.assume([tm.le(0, q), tm.lt(q, n), inside(lim, q)])
    ex, ds = construct(E, I, c)
    if ex is not None:
        facts(E, q)
        E.prove('opens', False)
        return None
    facts(E, q)
    return lim, c, ds, q


def span(which):
    def fn(E, I):
        r = setup(E, I, which)
        if r is None:
            return
        lim, c, ds, q = r
        a, b = I.getattr(ds, '_start_index'), I.getattr(ds, '_final_index')
        E.prove('within', tm.And(tm.le(0, a), tm.le(b, n)))
        i = skolem(E, 'i', 0, n)
        facts(E, i)
        E.prove('all-inside-covered', tm.Or(tm.Not(inside(lim, i)), tm.And(tm.le(a, i), tm.lt(i, b))))
        E.prove('first-inside', inside(lim, a))
        E.prove('last-inside', inside(lim, tm.sub(b, 1)))
        E.prove('starts-at-first', tm.eq(I.getattr(ds, '_last_index'), a))
        E.prove('length', tm.eq(run(I, method(I, ds, '__len__')), tm.sub(b, a)))
        E.prove('max-index', tm.eq(I.getattr(ds, 'max_index'), tm.sub(b, a)))
        E.prove('first-time', tm.eq(run(I, method(I, ds, 'first_time')), val('time', a)))
        E.prove('last-time', tm.eq(run(I, method(I, ds, 'last_time')), val('time', tm.sub(b, 1))))
    return fn


def step(which):
    def fn(E, I):
        """one call of next() at any position"""
        r = setup(E, I, which)
        if r is None:
            return
        lim, c, ds, q = r
        a, b = I.getattr(ds, '_start_index'), I.getattr(ds, '_final_index')
        k = tm.var('position', 'Int')
        E.assume([tm.le(a, k), tm.le(k, b)])
        I.setattr(ds, '_last_index', k)
        ex, p = raises(E, I, method(I, ds, '__next__'))
        if ex is not None:
            E.prove('ends-only-at-the-end', tm.And(ex is StopIteration, tm.eq(k, b)))
            return
        E.prove('does-not-run-over', tm.lt(k, b))
        E.prove('advances', tm.eq(I.getattr(ds, '_last_index'), tm.add(k, 1)))
        E.prove('span-kept', tm.And(tm.eq(I.getattr(ds, '_start_index'), a), tm.eq(I.getattr(ds, '_final_index'), b)))
        ok = tm.And(inside(lim, k), valid(k))
        if p is None:
            E.prove('nothing-left-out', tm.Not(ok))
        else:
            E.prove('only-inside', ok)
            E.prove('this-record', tm.eq(I.getattr(p, 'lat_sar_sat'), tm.mul(tm.div(tm.PI, 180), val('lat', k))))
            E.prove('this-burst', tm.eq(I.getattr(p, 'time_sar_ku'), tm.app('rec.time_sar_ku', 'Real', k)))
    return fn


def iteration(which):
    def fn(E, I):
        r = setup(E, I, which)
        if r is None:
            return
        lim, c, ds, q = r
        a, b = I.getattr(ds, '_start_index'), I.getattr(ds, '_final_index')
        out = run(I, method(I, ds, '__iter__'))
        E.prove('number', tm.eq(out.length(), tm.sub(b, a)))
        if tm.as_const(out.length()) == 0:
            return
        j = skolem(E, 'j', 0, out.length())
        p, k = out.get(j), tm.add(a, j)
        ok = tm.And(inside(lim, k), valid(k))
        if p is None:
            E.prove('nothing-left-out', tm.Not(ok))
        else:
            E.prove('only-inside', ok)
            E.prove('this-burst', tm.eq(I.getattr(p, 'time_sar_ku'), tm.app('rec.time_sar_ku', 'Real', k)))
    return fn


for bits in range(16):
    w = [k for i, k in enumerate(LIMITS) if bits >> i & 1]
    nm = '+'.join(w) or 'none'
    contract('C01', 'span[%s]' % nm)(span(w))
    if bits in (0, 1, 15):
        contract('C01', 'next[%s]' % nm)(step(w))
        contract('C01', 'iterate[%s]' % nm)(iteration(w))
