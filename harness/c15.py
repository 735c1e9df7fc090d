from .util import *
from dedop.proc.sar.algorithms import MultilookingAlgorithm


@case('C15', 'multilook', 60, 1500)
def multilook(rng, scratch):
    N, L, zp = int(rng.integers(2, 9)), int(rng.integers(1, 12)), int(rng.integers(1, 3))
    if rng.random() < .1:          # sizes of real records
        N, L = int(rng.integers(20, 200)), int(rng.integers(12, 200))
    if rng.random() < .06:      # more looks than take part in the characterisation of the stack
        N, zp, L = int(rng.integers(2, 4)), 1, int(rng.integers(130, 400))
    size = int(rng.integers(max(1, L // 2), L + 1)) if L > 12 else int(rng.integers(1, L + 1))
    aw, av = bool(rng.random() < .5), bool(rng.random() < .5)
    ang0, sp = rng.standard_normal() * .01 - .02, 10. ** rng.uniform(-4, -3)
    table = ang0 + sp * np.arange(250)
    wts = rng.random(250) + .1
    chd, cst, cnf = mkconf(chd={'n_samples_sar': N, 'antenna_weights': list(wts), 'antenna_angles': list(table), 'antenna_angles_spacing': float(sp)},
                           cnf={'n_looks_stack': L, 'zp_fact_range': zp, 'flag_antenna_weighting': aw, 'flag_avoid_zeros_in_multilooking': av})
    M = N * zp
    mask = (rng.random((L, M)) < .7).astype(float)
    vec = np.array([(0 if not r.any() else (M - 1 if r[-1] else np.nonzero(r)[0].max() + 1)) for r in mask], dtype=float)
    dead = rng.random(L) < rng.choice([0., .3, 1.])
    vec[dead] = 0
    mask[dead] = 0
    pw = (rng.random((size, M)) + .2) * mask[:size]
    V = {}
    for nm in ('look', 'doppler', 'pointing', 'beam'):
        V[nm] = rng.standard_normal(L) * .05 + (np.pi / 2 if nm == 'beam' else 0)
        V[nm][size:] = 0
    if rng.random() < .5:
        V['pointing'][:size] = ang0 + sp * rng.uniform(-30, 280, size)
    bursts = np.zeros(L, dtype=object)
    for i in range(size):
        bursts[i] = mkburst(chd, cst, i, source_seq_count=i)
    s = mksurf(cst, chd, 0, stack_bursts=bursts, data_stack_size=size, beams_masked=pw.copy(), stack_mask=mask.copy(), stack_mask_vector=vec.copy(),
                    **{k + '_angles_surf': v.copy() for k, v in V.items()})
    alg = MultilookingAlgorithm(chd, cst, cnf)
    with np.errstate(all='ignore'):
        before(rng, alg, s)
        if rng.random() < .3:
            alg(s)
        alg(s)
    d = '(N=%d zp=%d looks=%d size=%d weighting=%s avoid=%s used=%s)' % (N, zp, L, size, aw, av, [int(x) for x in vec[:size]])
    use = [b for b in range(size) if vec[b] != 0]
    W = np.interp(V['pointing'][:size], table, wts) if aw else np.ones(size)
    wf = np.asarray(alg.waveform_multilooked)
    expect(wf.shape == (M,), 'waveform shape %r %s', wf.shape, d)
    for j in range(M):
        cnt = [b for b in use if not av or mask[b, j]]
        if cnt:
            close(wf[j], sum(pw[b, j] * W[b] for b in cnt) / len(cnt), 'sample %d %s' % (j, d), rtol=1e-6, atol=1e-9)
    expect(alg.n_beams_multilooking == len(use), 'look count %r %s', alg.n_beams_multilooking, d)
    f, g = (use[0], use[-1]) if use else (None, None)
    span = g - f + 1 if use else 0
    expect(alg.n_beams_start_stop == span, 'start/stop span %r %s', alg.n_beams_start_stop, d)
    for nm in V:
        close(getattr(alg, 'start_%s_angle' % nm), V[nm][f] if use else 0, 'start %s angle %s' % (nm, d))
        close(getattr(alg, 'stop_%s_angle' % nm), V[nm][g] if use else 0, 'stop %s angle %s' % (nm, d))
    for nm, src in (('stack_mask_vector_start_stop', vec), ('beam_angles_start_stop', V['beam']), ('look_angles_start_stop', V['look'])):
        want = np.zeros(L)
        if use:
            want[:span] = src[f:g + 1]
        close(getattr(alg, nm), want, nm + ' ' + d)
    return d
