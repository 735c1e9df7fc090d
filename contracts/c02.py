from .base import *
from dedop.data.input.netcdf_reader import NetCDFReader
from dedop.data.input.l1a.enums import L1AVariables

V = list(L1AVariables)
# first dimension of every variable of the product: the time variables share theirs
OWN = [v for v in V if not v.value.endswith(('_l1a_echo_sar_ku', '_l1a_echo_plrm'))]
APART = [None]     # the coordinate variable whose length is independent in this contract; the others share one


def dim(v):
    if v in OWN:
        return 'dim.' + v.value if v is APART[0] else 'dim.other'
    return 'dim.time_l1a_echo_plrm' if v.value.endswith('_plrm') else 'dim.time_l1a_echo_sar_ku'


def length(v):
    return tm.var(dim(v), 'Int')


def val(v, i):
    return tm.app('stored.' + v.value, 'Real', i)


def reader(E, I, state):
    size = tm.var('chunk_size', 'Int')
    E.assume(tm.lt(0, size))
    for d in {dim(v) for v in V}:
        E.assume(tm.le(0, tm.var(d, 'Int')))
    doc = SObj(E, object, 'doc', lazy=lambda k: {
        'variables': SDict(E, {v.value: Arr(E, (length(v),), 'real', lambda i, v=v: val(v, i[0])) for v in V})
    }.get(k, SDict.MISSING))
    c = tm.var('chunk_index', 'Int')
    if state == 'loaded':
        # the block cached last started at record c; variables that do not reach it may hold anything
        E.assume([tm.le(0, c), tm.eq(tm.imod(c, size), 0)])

        def cached(v):
            def fn(i):
                return val(v, tm.add(c, i[0]))
            n = tm.sub(tm.ite(tm.lt(length(v), tm.add(c, size)), length(v), tm.add(c, size)), c)
            return Arr(E, (n,), 'real', fn)
        lazy = {}

        def get(k):
            if k not in lazy:
                if E.branch(tm.lt(c, length(k))):
                    lazy[k] = cached(k)
                else:
                    n = tm.var('stale.length.' + k.value, 'Int')
                    E.assume(tm.le(0, n))
                    lazy[k] = Arr(E, (n,), 'real', lambda i: tm.app('stale.' + k.value, 'Real', i[0]))
            return lazy[k]
        cache = SDict(E, lazy=lambda k: get(k) if k in V else SDict.MISSING)
    else:
        c = None
        cache = SDict(E, {})
    return SObj(E, NetCDFReader, 'reader', lazy=lambda k: {
        '_doc': doc, 'cache': cache, 'chunk_index': c, 'chunk_size': size}.get(k, SDict.MISSING)), c, size


def inv(E, I, r, size, pre=''):
    """what is cached is the block starting at chunk_index of every variable that reaches it"""
    c = I.getattr(r, 'chunk_index')
    cache = I.getattr(r, 'cache')
    j = tm.var('j', 'Int')
    E.assume([tm.le(0, j), tm.lt(j, size)])
    for v in V:
        if E.branch(tm.lt(c, length(v))):
            a = I.getitem(cache, v)
            E.prove(pre + 'cached.' + v.value, tm.Or(tm.le(length(v), tm.add(c, j)), tm.And(
                tm.lt(j, a.shape[0]), tm.eq(a.get([j]), val(v, tm.add(c, j))))))


def read(state, group):
    def fn(E, I):
        APART[0] = group[0]
        i = tm.var('record', 'Int')
        v = group[0]
        r, c, size = reader(E, I, state)
        E.assume([tm.le(0, i), tm.lt(i, length(v))])
        got = run(I, method(I, r, 'get_value'), v, i)
        E.prove('value.' + v.value, tm.eq(got, val(v, i)))
        c2 = I.getattr(r, 'chunk_index')
        E.prove('block.start', tm.And(tm.le(0, c2), tm.eq(tm.imod(c2, size), 0)))
        if v not in OWN:
            inv(E, I, r, size)
            for w in group[1:]:
                E.prove('value.' + w.value, tm.eq(run(I, method(I, r, 'get_value'), w, i), val(w, i)))
    return fn


TIME = [v for v in V if v.value.endswith('_l1a_echo_sar_ku')]
PLRM = [v for v in V if v.value.endswith('_l1a_echo_plrm')]
for st in ('empty', 'loaded'):
    for nm, g in [('time', TIME), ('plrm', PLRM)] + [(v.value, [v]) for v in OWN]:
        if g:
            contract('C02', 'read[%s,%s]' % (st, nm))(read(st, g))
