from .base import *
from dedop.proc.sar.algorithms import StackMaskingAlgorithm as A


def setup(E, I, on, limits):
    lo, hi = (tm.var('mask_min', 'Real'), tm.var('mask_max', 'Real'))
    over = {'flag_stack_masking': on}
    over['look_angle_mask_min'] = lo if limits in ('both', 'min') else None
    over['look_angle_mask_max'] = hi if limits in ('both', 'max') else None
    c = Conf(E, I, over)
    a = instance(E, I, A, c)
    size = tm.var('surf.data_stack_size', 'Int')
    E.assume([tm.le(0, size), tm.le(size, c.L)])
    M = tm.mul(c.N, c.zp)
    s = surface(E, c, over={
        'beams_range_compr': arr(E, 'pw', (size, M)),
        'doppler_corrections': arr(E, 'dop', (c.L,)),
        'slant_range_corrections': arr(E, 'sla', (c.L,)),
        'win_delay_corrections': arr(E, 'win', (c.L,)),
        'look_angles_surf': arr(E, 'look', (c.L,)),
        'data_stack_size': size})
    return c, a, s, size, M, lo, hi


def inside(c, b, j, limits, lo, hi):
    """sample j of look b (in oversampled samples) was not wrapped around and the look is within the limits"""
    shift = tm.roundi(tm.add(tm.add(at('dop', b), at('sla', b)), at('win', b)))
    f = tm.And(tm.le(tm.mul(shift, c.zp), j), tm.lt(j, tm.mul(tm.add(c.N, shift), c.zp)))
    if limits == 'both':
        f = tm.And(f, tm.lt(lo, at('look', b)), tm.lt(at('look', b), hi))
    return f


for _lim in ('none', 'both', 'min', 'max'):
    def _mask(E, I, limits=_lim):
        c, a, s, size, M, lo, hi = setup(E, I, True, limits)
        run(I, a, s)
        mask, vec, beams = (I.getattr(a, n) for n in ('stack_mask', 'stack_mask_vector', 'beams_masked'))
        E.prove('shape', tm.And(tm.eq(mask.shape[0], c.L), tm.eq(mask.shape[1], M), tm.eq(vec.shape[0], c.L)))
        b, j = skolem(E, 'b', 0, size), skolem(E, 'j', 0, M)
        keep = inside(c, b, j, limits, lo, hi)
        k = E.branch(keep)
        E.prove('mask', tm.eq(mask.get([b, j]), 1 if k else 0))
        E.prove('masked-beam', tm.eq(beams.get([b, j]), at('pw', b, j) if k else 0))
    contract('C14', 'mask.%s' % _lim)(_mask)

    def _vec(E, I, limits=_lim):
        c, a, s, size, M, lo, hi = setup(E, I, True, limits)
        run(I, a, s)
        mask, vec = (I.getattr(a, n) for n in ('stack_mask', 'stack_mask_vector'))
        b, j = skolem(E, 'b', 0, c.L), skolem(E, 'j', 0, M)
        v = vec.get([b])
        if E.branch(tm.eq(mask.get([b, tm.sub(M, 1)]), 1)):
            E.prove('kept-to-end', tm.eq(v, tm.sub(M, 1)))
            return
        E.prove('range', tm.And(tm.le(0, v), tm.lt(v, M)))
        E.instantiate(j, tm.sub(tm.sub(M, 1), j))
        mj = mask.get([b, j])
        if E.branch(tm.le(v, 0)):
            E.prove('zero-means-blank', tm.eq(mj, 0))
        else:
            E.prove('last-kept', tm.eq(mask.get([b, tm.sub(v, 1)]), 1))
            E.prove('blank-beyond', tm.Implies(tm.le(v, j), tm.eq(mj, 0)))
    contract('C14', 'vector.%s' % _lim)(_vec)


@contract('C14', 'disabled')
def disabled(E, I):
    c, a, s, size, M, lo, hi = setup(E, I, False, 'both')
    run(I, a, s)
    mask, vec, beams = (I.getattr(a, n) for n in ('stack_mask', 'stack_mask_vector', 'beams_masked'))
    b, l, j = skolem(E, 'b', 0, size), skolem(E, 'l', 0, c.L), skolem(E, 'j', 0, M)
    E.prove('shape', tm.And(tm.eq(mask.shape[0], c.L), tm.eq(mask.shape[1], M), tm.eq(vec.shape[0], c.L)))
    E.prove('mask', tm.eq(mask.get([l, j]), 1))
    E.prove('vector', tm.eq(vec.get([l]), tm.sub(M, 1)))
    E.prove('beams', tm.eq(beams.get([b, j]), at('pw', b, j)))
