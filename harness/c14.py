from .util import *
from dedop.proc.sar.algorithms import StackMaskingAlgorithm


def deg(x):
    return None if x is None else float(np.degrees(x))


@case('C14', 'masks', 80, 2500)
def masks(rng, scratch):
    N, L, zp = int(rng.integers(1, 10)), int(rng.integers(1, 7)), int(rng.integers(1, 4))
    if rng.random() < .1:          # sizes of real records
        N, L = int(rng.integers(20, 300)), int(rng.integers(1, 100))
    size = int(rng.integers(0, L + 1))
    on = rng.random() < .85
    lo, hi = sorted(rng.standard_normal(2) * .5)
    if rng.random() < .2:          # a limit at broadside
        lo, hi = (0., abs(hi) + .1) if rng.random() < .5 else (-abs(lo) - .1, 0.)
    lo = float(lo) if rng.random() < .6 else None
    hi = float(hi) if rng.random() < .6 else None
    chd, cst, cnf = mkconf(chd={'n_samples_sar': N, 'look_angle_mask_min': deg(lo), 'look_angle_mask_max': deg(hi)},
                           cnf={'n_looks_stack': L, 'zp_fact_range': zp, 'flag_stack_masking': on})
    lo, hi = (None if x is None else float(np.radians(deg(x))) for x in (lo, hi))
    M = N * zp
    cor = rng.standard_normal((3, L)) * rng.choice([.5, 2, N])
    if rng.random() < .3:
        cor = np.round(cor)
    elif rng.random() < .2:
        cor = np.round(cor * 2) / 2
    look = rng.standard_normal(L) * .4
    if rng.random() < .2 and lo is not None:
        look[0] = lo
    pw = rng.random((size, M)) + .1
    s = mksurf(cst, chd, 0, doppler_corrections=cor[0].copy(), slant_range_corrections=cor[1].copy(),
                    win_delay_corrections=cor[2].copy(), look_angles_surf=look.copy(), beams_range_compr=pw.copy(),
                    data_stack_size=size)
    alg = StackMaskingAlgorithm(chd, cst, cnf)
    before(rng, alg, s)
    if rng.random() < .3:
        alg(s)
    alg(s)
    d = '(N=%d zp=%d looks=%d size=%d on=%s limits=%s,%s)' % (N, zp, L, size, on, lo, hi)
    mask, vec, out = (np.asarray(x) for x in (alg.stack_mask, alg.stack_mask_vector, alg.beams_masked))
    expect(mask.shape == (L, M) and vec.shape == (L,), 'mask shapes %r %r %s', mask.shape, vec.shape, d)
    if not on:
        close(mask, np.ones((L, M)), 'mask ' + d)
        close(vec, np.full(L, M - 1), 'vector ' + d)
        close(out, pw, 'beams ' + d)
        return d
    want = np.zeros((size, M))
    for b in range(size):
        t = cor[0, b] + cor[1, b] + cor[2, b]
        sh = int(np.round(t))
        for j in range(M):
            want[b, j] = sh * zp <= j < (N + sh) * zp
        if lo is not None and hi is not None and not lo < look[b] < hi:
            want[b] = 0
    close(mask[:size], want, 'mask ' + d)
    close(out, pw * want, 'masked beams ' + d)
    wv = [(M - 1 if r[-1] else (np.nonzero(r)[0].max() + 1 if r.any() else 0)) for r in want]
    close(vec[:size], np.array(wv, dtype=float).reshape(size), 'mask vector ' + d)
    return d
