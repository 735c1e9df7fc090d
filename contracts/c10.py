from .base import *
from dedop.proc.sar.algorithms import StackGatheringAlgorithm as A


def setup(E, I, full):
    c = Conf(E, I)
    a = instance(E, I, A, c)
    n = tm.var('n_all', 'Int')
    E.assume([tm.le(0, n), tm.le(c.L, n) if full else tm.lt(n, c.L)])
    nb = lambda k: tm.app('bst.nbeams', 'Int', tm.t(k))
    bi = lambda k: tm.app('beam_index', 'Int', tm.t(k))

    def beam_index(k):
        # representation invariant established by beam angles (C09): each index lies in the burst's list
        E.assume([tm.le(0, bi(k)), tm.lt(bi(k), nb(k)), tm.le(nb(k), c.P)])
        return bi(k)
    over = {'beams_focused': lambda k: arr(E, 'bst.beam', (c.P, c.N), 'complex', pre=(k,)),
            'beam_angles_list': lambda k: SList(E, length=nb(k), fn=lambda j: at('bst.angle', k, j))}
    s = surface(E, c, over={
        'stack_all_bursts': SList(E, length=n, fn=lambda k: burst(E, c, 'bst', over, tm.t(k))),
        'stack_all_beams_indices': SList(E, length=n, fn=beam_index),
        'stack_all_beams_indices_abs': SList(E, length=n, fn=lambda k: tm.app('abs_index', 'Int', tm.t(k)))})
    return c, a, s, n, bi


def look(k, bi):
    return tm.sub(tm.add(tm.div(tm.PI, 2), at('bst.doppler_angle_sar_sat', k)), at('bst.angle', k, bi(k)))


def burst_index(o):
    if not isinstance(o, SObj) or not o.ident or o.ident[0] != 'bst':
        raise Unsupported('stack entry is not an input burst: %r' % (o,))
    return o.ident[1]


FIELDS = ('stack_bursts', 'beams_surf', 'beam_angles_surf', 't0_surf', 'doppler_angles_surf', 'look_angles_surf',
          'pointing_angles_surf', 'look_index_surf', 'look_counter_surf', 'data_stack_size', 'closest_burst_index')


def common(E, I, c, g, size, off, bi):
    """kept look i carries burst off+i's data; unused places are zero"""
    E.prove('stack-size', tm.eq(g['data_stack_size'], size))
    i, j = skolem(E, 'i', 0, c.L), skolem(E, 'j', 0, c.N)
    for nm in FIELDS[:-2]:
        E.prove('shape.' + nm, tm.eq(g[nm].shape[0], c.L))
    E.prove('shape.beams', tm.eq(g['beams_surf'].shape[1], c.N))
    if not E.branch(tm.lt(i, size)):
        for nm in FIELDS[2:7] + ('look_counter_surf',):
            E.prove('unused.' + nm, tm.eq(g[nm].get([i]), 0))
        ceq(E, 'unused.beams', g['beams_surf'].get([i, j]), 0)
        E.prove('unused.index', tm.eq(g['look_index_surf'].get([i]), -128))
        return
    k = tm.add(off, i)
    E.assume([tm.le(0, bi(k)), tm.lt(bi(k), tm.app('bst.nbeams', 'Int', k)), tm.le(tm.app('bst.nbeams', 'Int', k), c.P)])
    E.prove('burst', tm.eq(burst_index(g['stack_bursts'].get([i])), k))
    ceq(E, 'beam', g['beams_surf'].get([i, j]), atc('bst.beam', k, bi(k), j))
    E.prove('beam-angle', tm.eq(g['beam_angles_surf'].get([i]), at('bst.angle', k, bi(k))))
    E.prove('t0', tm.eq(g['t0_surf'].get([i]), at('bst.t0_sar', k)))
    E.prove('doppler-angle', tm.eq(g['doppler_angles_surf'].get([i]), at('bst.doppler_angle_sar_sat', k)))
    E.prove('look-angle', tm.eq(g['look_angles_surf'].get([i]), look(k, bi)))
    E.prove('pointing-angle', tm.eq(g['pointing_angles_surf'].get([i]), tm.sub(look(k, bi), at('bst.pitch_sar', k))))
    E.prove('look-index', tm.eq(g['look_index_surf'].get([i]), tm.app('abs_index', 'Int', k)))
    E.prove('look-counter', tm.eq(g['look_counter_surf'].get([i]), tm.app('bst._seq_count_sar', 'Int', k)))
    if any(isinstance(g[n], (int, T)) is False for n in ('closest_burst_index',)):
        raise Unsupported('closest burst index')
    q = g['closest_burst_index']
    E.instantiate(i)
    E.prove('closest-range', tm.And(tm.le(0, q), tm.lt(q, size)))
    dist = lambda m: tm.absv(tm.sub(at('bst.angle', tm.add(off, m), bi(tm.add(off, m))), tm.div(tm.PI, 2)))
    E.prove('closest-minimal', tm.le(dist(q), dist(i)))


@contract('C10', 'all-looks-kept')
def few(E, I):
    c, a, s, n, bi = setup(E, I, False)
    run(I, a, s)
    g = {f: I.getattr(a, f) for f in FIELDS}
    common(E, I, c, g, n, tm.const(0), bi)


def full(E, I):
    c, a, s, n, bi = setup(E, I, True)
    run(I, a, s)
    g = {f: I.getattr(a, f) for f in FIELDS}
    off = burst_index(g['stack_bursts'].get([tm.const(0)]))
    return c, n, bi, g, off


@contract('C10', 'nearest-looks-kept')
def many(E, I):
    c, n, bi, g, off = full(E, I)
    E.prove('inside', tm.And(tm.le(0, off), tm.le(tm.add(off, c.L), n)))
    common(E, I, c, g, c.L, off, bi)


@contract('C10', 'start-of-nearest')
def start(E, I):
    """the first kept look is the earliest of the L looks with the smallest |look angle|"""
    c, n, bi, g, off = full(E, I)
    recs = E.ghost.get('argsorts', ())
    if len(recs) != 1:
        raise Unsupported('no single sorting of the looks to compare with')
    key, m, perm = recs[0]
    E.prove('all-sorted', tm.eq(m, n))
    k = skolem(E, 'k', 0, n)
    E.assume([tm.le(0, bi(k)), tm.lt(bi(k), tm.app('bst.nbeams', 'Int', k)), tm.le(tm.app('bst.nbeams', 'Int', k), c.P)])
    E.prove('sorted-by-abs-look-angle', tm.eq(key(k), tm.absv(look(k, bi))))
    r = skolem(E, 'r', 0, c.L)
    E.instantiate(r)
    E.prove('earliest', tm.le(off, tm.app(perm, 'Int', r)))
    ws = [x[4] for x in E.ghost.get('extrema', ()) if x[0] == 'min']
    if len(ws) != 1:
        raise Unsupported('no single minimum')
    E.prove('one-of-them', tm.And(tm.eq(off, tm.app(perm, 'Int', ws[0])), tm.lt(ws[0], c.L)))
