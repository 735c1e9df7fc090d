from .util import *
from dedop.proc.sar.algorithms import RangeCompressionAlgorithm


@case('C13', 'compression', 60, 1500)
def compression(rng, scratch):
    N, L, zp = int(rng.integers(1, 12)), int(rng.integers(1, 6)), int(rng.integers(1, 5))
    if rng.random() < .1:          # sizes of real records
        N, L = int(rng.integers(20, 300)), int(rng.integers(1, 100))
    size = int(rng.integers(0, L + 3))
    chd, cst, cnf = mkconf(chd={'n_samples_sar': N}, cnf={'n_looks_stack': L, 'zp_fact_range': zp})
    x = crandn(rng, L, N)
    s = mksurf(cst, chd, 0, beams_geo_corr=x.copy(), data_stack_size=size)
    alg = RangeCompressionAlgorithm(chd, cst, cnf)
    before(rng, alg, s)
    if rng.random() < .3:
        alg(s)
    alg(s)
    n, M = min(size, L), zp * N
    q = np.arange(M) - M // 2
    want = np.array([(np.exp(-2j * np.pi * np.outer(q, np.arange(N)) / M) @ x[i]) / np.sqrt(M) for i in range(n)])
    want = want.reshape(n, M)
    d = '(N=%d zp=%d looks=%d size=%d)' % (N, zp, L, size)
    close(alg.beam_range_compr_iq, want, 'complex beams ' + d, rtol=1e-8, atol=1e-10)
    close(alg.beam_range_compr, np.abs(want) ** 2, 'power beams ' + d, rtol=1e-8, atol=1e-10)
    return d
