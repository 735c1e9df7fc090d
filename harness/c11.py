from .util import *
from dedop.conf.enums import AzimuthWindowingMethod as W, AzimuthProcessingMethod as M
from dedop.proc.sar.algorithms import AzimuthProcessingAlgorithm


def window(kind, P, width):
    w = np.zeros(P)
    start = P // 2 - width // 2
    n = np.arange(width)
    if kind is W.disabled:
        return np.ones(P)
    w[start:start + width] = {W.boxcar: np.ones(width),
                              W.hamming: 0.54 - 0.46 * np.cos(2 * np.pi * n / (width - 1)),
                              W.hanning: 0.5 - 0.5 * np.cos(2 * np.pi * n / (width - 1))}[kind]
    return w


def dft(x, q):
    """orthonormal DFT of the rows of x along axis 0 at frequency q"""
    P = x.shape[0]
    e = np.exp(-2j * np.pi * q * np.arange(P) / P)
    return (e[:, None] * x).sum(0) / np.sqrt(P)


@case('C11', 'azimuth', 60, 1500)
def azimuth(rng, scratch):
    P = int(rng.choice([2, 3, 4, 5, 8, 9, 16, 17, 64]))
    N = int(rng.integers(1, 7) if rng.random() < .9 else rng.integers(100, 300))
    width = int(rng.integers(2, P + 1))
    kind = list(W)[int(rng.integers(len(list(W))))]
    meth = [M.approximate, M.exact][int(rng.integers(2))]
    trend = int(rng.integers(-1, 2))
    n = P if trend == 0 else int(rng.integers(1, P)) if P > 1 else 1
    chd, cst, cnf = mkconf(chd={'n_ku_pulses_burst': P, 'n_samples_sar': N},
                           cnf={'flag_azimuth_windowing_method': kind, 'flag_azimuth_processing_method': meth,
                                'azimuth_window_width': width})
    wf = crandn(rng, P, N)
    vel = rng.standard_normal(3) * 4000
    angles = list(np.pi / 2 + 0.01 * rng.standard_normal(n))
    pri = 5e-5 * (1 + rng.random())
    wv = 0.02 + 0.01 * rng.random()
    b = mkburst(chd, cst, 0, x_vel_sat_sar=vel[0], y_vel_sat_sar=vel[1], z_vel_sat_sar=vel[2],
                waveform_cor_sar=wf.copy(), beam_angles_list=list(angles), beam_angles_trend=trend,
                pri_sar_pre_dat=pri)
    alg = AzimuthProcessingAlgorithm(chd, cst, cnf)
    m = P if rng.random() < .4 else int(rng.integers(1, P + 1))
    o = mkburst(chd, cst, 1, x_vel_sat_sar=vel[1], y_vel_sat_sar=vel[2], z_vel_sat_sar=vel[0],
                waveform_cor_sar=crandn(rng, P, N), beam_angles_list=list(np.pi / 2 + 0.01 * rng.standard_normal(m)),
                beam_angles_trend=0 if m == P else int(rng.choice([-1, 1])), pri_sar_pre_dat=pri * 1.1)
    order = rng.random()
    if order < 0.2:
        alg(b, wv)       # a second call must not depend on the first
    elif order < 0.5:
        alg(o, wv)       # nor on an earlier burst
    alg(b, wv)
    result = alg.beams_focused
    if rng.random() < 0.4:
        alg(o, wv)       # the processor hands the result to the burst before the next one is processed
    got = np.asarray(result)
    x = window(kind, P, width)[:, None] * wf
    half = P // 2
    speed = np.linalg.norm(vel)

    def steer(a):
        return np.exp(-4j * np.pi / wv * speed * np.cos(a) * pri * np.arange(P))[:, None] * x
    if meth is M.exact:
        want = np.array([dft(steer(a), 0) for a in angles])
    else:
        i = half if trend == 0 else ((0 if n < half else n - half) if trend == 1 else (n - 1 if n <= half else half))
        y = steer(angles[i])
        off = P - n if trend == 1 else 0
        want = np.array([dft(y, k + off - half) for k in range(n)])
    expect(got.shape[0] >= n and got.shape[1:] == (N,), 'beams_focused has shape %r for %d beams', got.shape, n)
    close(got[:n], want, 'focused beams (%s, %s, trend %d, P=%d, width=%d)' % (meth.name, kind.name, trend, P, width),
          rtol=1e-7, atol=1e-9)
    return (P, N, width, kind.name, meth.name, trend, n)
