from .base import *
from pyvc.models import sum_over
from dedop.proc.sar.algorithms import MultilookingAlgorithm as A
import dedop.proc.sar.algorithms.multilooking as ml

NTAB = 250
A0, SP = tm.var('tab.a0', 'Real'), tm.var('tab.spacing', 'Real')


def pointing(k):
    return tm.add(A0, tm.mul(at('u', k), SP))


def setup(E, I, weighting, avoid):
    E.assume(tm.lt(0, SP))
    # precondition: the angle table is uniform with the declared spacing
    over = {'flag_antenna_weighting': weighting, 'flag_avoid_zeros_in_multilooking': avoid,
            'antenna_angles': Arr(E, (NTAB,), 'real', lambda idx: tm.add(A0, tm.mul(idx[0], SP))),
            'antenna_angles_spacing': SP}
    c = Conf(E, I, over)
    a = instance(E, I, A, c)
    size = tm.var('surf.data_stack_size', 'Int')
    E.assume([tm.le(1, size), tm.le(size, c.L)])
    M = tm.mul(c.N, c.zp)
    names = ('look_angles_surf', 'doppler_angles_surf', 'pointing_angles_surf', 'beam_angles_surf', 'stack_mask_vector')
    over = {n: arr(E, n, (c.L,)) for n in names}
    # every angle can be written a0 + u * spacing
    over['pointing_angles_surf'] = Arr(E, (c.L,), 'real', lambda idx: pointing(idx[0]))
    # C10: unused places are zero; beam angles lie strictly between along-track and backwards
    def beam_angle(idx):
        if not E.branch(tm.lt(idx[0], size)):
            return tm.const(0)
        v = at('beam_angles_surf', idx[0])
        E.assume([tm.lt(0, v), tm.lt(v, tm.PI)])
        return v
    over['beam_angles_surf'] = Arr(E, (c.L,), 'real', beam_angle)
    over['beams_masked'] = arr(E, 'beams', (size, M))
    over['stack_mask'] = arr(E, 'mask', (c.L, M))
    over['data_stack_size'] = size
    over['stack_bursts'] = burst_array(E, c, 'bst', c.L)
    s = surface(E, c, over)
    return c, a, s, size, M


STAT = {'stack_max', 'stack_std', 'stack_skewness', 'stack_kurtosis', 'look_angle_centre', 'pointing_angle_centre'}


def stat_contract(I, args, kwargs):
    """contract of compute_stack_characterization_params (proved in `statistics-frame`): sets the stack statistics,
    and nothing else"""
    for n in sorted(STAT):
        I.setattr(args[0], n, tm.var(I.E.fresh(n), 'Real'))


def use_stat_contract(E):
    f = vars(A).get('compute_stack_characterization_params')
    if f is not None:
        E.contracts[f] = stat_contract


def fit_contract(I, args, kwargs):
    nm = I.E.fresh('fit')
    return Arr(I.E, (3,), 'real', lambda idx: tm.app(nm, 'Real', tm.t(idx[0])))


@contract('C15', 'gauss-fit')
def gaussfit(E, I):
    """three finite parameters for every input, and no other effect"""
    f = getattr(ml, 'gauss_fit', None)
    if f is None:
        raise Unsupported('gauss_fit')
    n = tm.var('n', 'Int')
    E.assume(tm.le(1, n))
    r = framed(E, I, f, (arr(E, 'x', (n,)), arr(E, 'y', (n,))), [])
    E.prove('three', tm.eq(I.call(len, (r,)), 3))


@contract('C15', 'statistics-frame')
def stat_frame(E, I):
    c, a, s, size, M = setup(E, I, False, False)
    half = tm.mul(tm.idiv(c.N, 2), c.zp)
    E.lemma('half-beam', tm.And(tm.le(0, half), tm.le(half, M), tm.le(tm.mul(2, tm.idiv(c.N, 2)), c.N)))
    if hasattr(ml, 'gauss_fit'):
        E.contracts[ml.gauss_fit] = fit_contract
    framed(E, I, method(I, a, 'compute_stack_characterization_params'), (s,), [(a, STAT)])


def weight(E, ang):
    last = tm.add(A0, tm.mul(NTAB - 1, SP))
    w = lambda k: at('chd.antenna_weights', k)
    if E.branch(tm.le(ang, A0)):
        return w(0)
    if E.branch(tm.le(last, ang)):
        return w(NTAB - 1)
    k = tm.trunc(tm.div(tm.sub(ang, A0), SP))
    t = tm.div(tm.sub(ang, tm.add(A0, tm.mul(k, SP))), SP)
    return tm.add(w(k), tm.mul(t, tm.sub(w(tm.add(k, 1)), w(k))))


def used(b):
    return tm.Not(tm.eq(at('stack_mask_vector', b), 0))


for _aw in (False, True):
    for _av in (False, True):
        def _wave(E, I, aw=_aw, av=_av):
            c, a, s, size, M = setup(E, I, aw, av)
            use_stat_contract(E)
            run(I, a, s)
            wv = I.getattr(a, 'waveform_multilooked')
            E.prove('shape', tm.eq(wv.shape[0], M))
            j = skolem(E, 'j', 0, M)
            m = lambda b: at('mask', b, j) if av else tm.const(1)

            def top(b):
                if not E.branch(used(b)):
                    return tm.const(0)
                w = weight(E, pointing(b)) if aw else tm.const(1)
                return tm.mul(tm.mul(at('beams', b, j), w), m(b))

            def cnt(b):
                return m(b) if E.branch(used(b)) else tm.const(0)
            num, den = sum_over(I, size, top), sum_over(I, size, cnt)
            E.prove('mean', tm.eq(wv.get([j]), tm.div(num, den)))
        contract('C15', 'waveform.%s%s' % ('weighted' if _aw else 'plain', '.avoid-zeros' if _av else ''))(_wave)


PAIRS = ('look', 'doppler', 'pointing', 'beam')


@contract('C15', 'start-stop')
def startstop(E, I):
    c, a, s, size, M = setup(E, I, False, False)
    use_stat_contract(E)
    run(I, a, s)
    n = I.getattr(a, 'n_beams_start_stop')
    cnt = I.getattr(a, 'n_beams_multilooking')
    E.prove('look-count', tm.eq(cnt, sum_over(I, size, lambda b: tm.const(1) if E.branch(used(b)) else tm.const(0))))
    # a look known to be used or not
    q = skolem(E, 'q', 0, size)
    E.instantiate(q)
    st = {p: (I.getattr(a, 'start_%s_angle' % p), I.getattr(a, 'stop_%s_angle' % p)) for p in PAIRS}
    vec = {p: I.getattr(a, p) for p in ('stack_mask_vector_start_stop', 'beam_angles_start_stop', 'look_angles_start_stop')}
    src = {'stack_mask_vector_start_stop': 'stack_mask_vector', 'beam_angles_start_stop': 'beam_angles_surf',
           'look_angles_start_stop': 'look_angles_surf'}
    l = skolem(E, 'l', 0, c.L)
    if E.branch(tm.eq(n, 0)):
        E.prove('none-used', tm.Not(used(q)))
        for p in PAIRS:
            E.prove('zero.%s' % p, tm.And(tm.eq(st[p][0], 0), tm.eq(st[p][1], 0)))
        for v in vec:
            E.prove('zero.' + v, tm.eq(vec[v].get([l]), 0))
        return
    # first and last used look, recovered from the trimmed vectors' source
    f = first_index(st['look'][0])
    g = first_index(st['look'][1])
    E.prove('range', tm.And(tm.le(0, f), tm.le(f, g), tm.lt(g, size)))
    E.prove('first-used', used(f))
    E.prove('last-used', used(g))
    E.prove('none-before', tm.Implies(tm.lt(q, f), tm.Not(used(q))))
    E.prove('none-after', tm.Implies(tm.lt(g, q), tm.Not(used(q))))
    E.prove('span', tm.eq(n, tm.add(tm.sub(g, f), 1)))
    for p in PAIRS:
        val = pointing if p == 'pointing' else (lambda k: at(p + '_angles_surf', k))
        E.prove('start.' + p, tm.eq(st[p][0], val(f)))
        E.prove('stop.' + p, tm.eq(st[p][1], val(g)))
    ins = E.branch(tm.lt(l, n))
    for v in vec:
        E.prove('trim.' + v, tm.eq(vec[v].get([l]), at(src[v], tm.add(f, l)) if ins else 0))


def first_index(t):
    """the index of the single array element a term consists of"""
    t = tm.t(t)
    ats = [a for a in tm.atoms_of(t) if a.kind == 'app' and a.name == 'look_angles_surf']
    if len(ats) != 1 or t != tm.of_atom(ats[0]):
        raise Unsupported('start/stop look angle is not an element of the stack')
    return tm.t(ats[0].args[0])
