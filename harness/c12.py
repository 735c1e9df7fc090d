from .util import *
from dedop.proc.sar.algorithms import GeometryCorrectionsAlgorithm


@case('C12', 'corrections', 60, 1500)
def corrections(rng, scratch):
    N, L = int(rng.integers(1, 9) if rng.random() < .9 else rng.integers(100, 700)), int(rng.integers(1, 7))
    size = int(rng.integers(0, L + 3))
    fd, fs = bool(rng.integers(2)), bool(rng.integers(2))
    chd, cst, cnf = mkconf(chd={'n_samples_sar': N}, cnf={
        'n_looks_stack': L, 'flag_doppler_range_correction': fd, 'flag_slant_range_correction': fs})
    m = max(size, L)
    bursts, pos, vel, wd = [], rng.standard_normal((m, 3)) * 7e5, rng.standard_normal((m, 3)) * 4e3, rng.random(m) * .005
    for i in range(m):
        bursts.append(mkburst(chd, cst, i, x_vel_sat_sar=vel[i, 0], y_vel_sat_sar=vel[i, 1], z_vel_sat_sar=vel[i, 2],
                              x_sar_sat=pos[i, 0], y_sar_sat=pos[i, 1], z_sar_sat=pos[i, 2], win_delay_sar_ku=wd[i]))
    surf = rng.standard_normal(3) * 1e5
    beams, ang, t0 = crandn(rng, m, N), np.pi / 2 + .02 * rng.standard_normal(m), 3e-9 * (1 + rng.random(m))
    wds, wv = rng.random() * .005, 0.02 + .01 * rng.random()
    s = mksurf(cst, chd, 0, x_surf=surf[0], y_surf=surf[1], z_surf=surf[2], beams_surf=beams.copy(),
                    beam_angles_surf=ang.copy(), t0_surf=t0.copy(), win_delay_surf=wds, data_stack_size=size,
                    stack_bursts=np.array(bursts, dtype=object))
    alg = GeometryCorrectionsAlgorithm(chd, cst, cnf)
    before(rng, alg, s, wv)
    if rng.random() < .3:
        alg(s, wv)
    alg(s, wv)
    n = min(size, L)
    used = np.arange(L) < n
    i = np.arange(L)
    dop = -np.linalg.norm(vel[i], axis=1) * np.cos(ang[i]) * 2 / wv * chd.pulse_length / chd.bw_ku / t0[i]
    rg = np.sqrt(((pos[i] - surf) ** 2).sum(1))
    sl = (wds - 2 * rg / cst.c) / t0[i]
    win = (wd[i] - wds) / t0[i]
    dop = np.where(used & fd, dop, 0)
    sl = np.where(used & fs, sl, 0)
    win = np.where(used, win, 0)
    d = '(N=%d looks=%d size=%d doppler=%s slant=%s)' % (N, L, size, fd, fs)
    close(alg.doppler_corrections, dop, 'doppler corrections ' + d)
    close(alg.range_sat_surf, np.where(used, rg, 0), 'range ' + d)
    close(alg.slant_range_corrections, sl, 'slant range corrections ' + d, atol=1e-6)
    close(alg.win_delay_corrections, win, 'window delay corrections ' + d)
    shift = np.asarray(alg.doppler_corrections) + alg.slant_range_corrections + alg.win_delay_corrections
    want = np.where(used[:, None], np.exp(2j * np.pi / N * shift[:, None] * np.arange(N)) * beams[:L], 0)
    close(alg.beams_geo_corr, want, 'corrected beams ' + d, rtol=1e-6, atol=1e-6)
    return d
