from .util import *
from dedop.proc.sar.cal import CAL1Algorithm, CAL2Algorithm


@case('C17', 'cal', 80, 3000)
def cal(rng, scratch):
    N, P = int(rng.integers(1, 12)), int(rng.integers(1, 9))
    if rng.random() < .1:          # sizes of real records
        N, P = int(rng.integers(20, 300)), int(rng.integers(9, 100))
    on1, on2 = bool(rng.random() < .7), bool(rng.random() < .7)
    chd, cst, cnf = mkconf(chd={'n_samples_sar': N, 'n_ku_pulses_burst': P}, cnf={'flag_cal1_corrections': on1, 'flag_cal2_correction': on2})
    w = crandn(rng, P, N)
    pw, ph, pr = rng.random(P) * 2 + .1, rng.uniform(-4, 4, P), rng.random(N) + .2
    if rng.random() < .3:          # tables of any positive magnitude
        pr = 10 ** rng.uniform(-7, 4, N)
        pw = 10 ** rng.uniform(-4, 4, P)
    b = mkburst(chd, cst, 0, waveform_cor_sar=w.copy(), cal1_power=pw.copy(), cal1_phase=ph.copy(), cal2_array=pr.copy(), agc_ku=float(rng.uniform(-30, 60)), sig0_cal_ku=float(rng.uniform(-5, 5)))
    d = '(N=%d pulses=%d cal1=%s cal2=%s)' % (N, P, on1, on2)
    cal1, cal2 = CAL1Algorithm(chd, cst, cnf), CAL2Algorithm(chd, cst, cnf)
    mk = lambda: mkburst(chd, cst, 1, waveform_cor_sar=crandn(rng, P, N), cal1_power=rng.random(P) + .1, cal1_phase=rng.random(P), cal2_array=rng.random(N) + .2, agc_ku=float(rng.uniform(-30, 60)), sig0_cal_ku=1.)
    early, late = rng.random(2) < .3      # other bursts before and after: each keeps its own result
    if early:
        o = mk()
        cal1(o), cal2(o)
    cal1(b)
    if late:
        cal1(mk())
    g = 10 ** ((b.agc_ku - b.sig0_cal_ku) / 20)
    want = w * (np.sqrt(pw) * (np.cos(ph) + 1j * np.sin(ph)) / g)[:, None] if on1 else w
    close(b.waveform_cor_sar, want, 'after CAL1 ' + d, rtol=1e-8, atol=1e-9 * np.abs(want).max())
    cal2(b)
    if late:
        cal2(mk())
    if on2:
        f = np.fft.fft(want, axis=1)
        k = np.arange(N)
        gate = (k + N // 2) % N
        want = np.fft.ifft(f / np.sqrt(pr[gate])[None, :], axis=1)
    close(b.waveform_cor_sar, want, 'after CAL2 ' + d, rtol=1e-8, atol=1e-9 * np.abs(want).max())
    close(b.cal1_power, pw, 'cal1 table ' + d)
    close(b.cal1_phase, ph, 'cal1 phase ' + d)
    close(b.cal2_array, pr, 'cal2 table ' + d)
    return d
