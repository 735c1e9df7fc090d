from .util import *
from dedop.proc.sar.algorithms import Sigma0ScalingFactorAlgorithm


@case('C16', 'sigma0', 60, 1500)
def sigma0(rng, scratch):
    L, P = int(rng.choice([rng.integers(1, 9), rng.integers(1, 300)])), int(rng.integers(1, 70))
    size = int(rng.integers(1, L + 1))
    chd, cst, cnf = mkconf(chd={'n_ku_pulses_burst': P, 'power_tx_ant_ku': float(rng.uniform(.5, 20)), 'antenna_gain_ku': float(rng.uniform(0, 60)),
                                'ratio_trc_ku': float(rng.standard_normal()), 'ptr_width': float(rng.uniform(1e-9, 1e-8))}, cnf={'n_looks_stack': L})
    wl, slope = rng.uniform(.01, .05), rng.standard_normal()
    R = rng.uniform(5e5, 1.5e6, L)
    R[size:] = 0
    bursts = np.zeros(L, dtype=object)
    for i in range(size):
        v = rng.standard_normal(3) * 5000 + 1
        bursts[i] = mkburst(chd, cst, i, x_vel_sat_sar=v[0], y_vel_sat_sar=v[1], z_vel_sat_sar=v[2], pri_sar_pre_dat=float(rng.uniform(4e-5, 8e-5)), agc_ku=float(rng.uniform(-20, 60)))
    q = int(rng.integers(0, size))
    s = mksurf(cst, chd, 0, stack_bursts=bursts, data_stack_size=size, range_sat_surf=R.copy(), closest_burst_index=q)
    alg = Sigma0ScalingFactorAlgorithm(chd, cst, cnf)
    before(rng, alg, s, wl, slope)
    got = alg(s, wl, slope)
    d = '(looks=%d size=%d pulses=%d closest=%d)' % (L, size, P, q)
    want = []
    for i in range(size):
        v = np.sqrt(sum(float(x) ** 2 for x in np.asarray(bursts[i].vel_sat_sar).ravel()))
        az = (1 + R[i] / cst.earth_radius) * wl * R[i] / (bursts[i].pri_sar_pre_dat * 2 * v * P)
        rg = 2 * np.sqrt(cst.c * R[i] * chd.ptr_width * cst.earth_radius / (cst.earth_radius + R[i]))
        lin = 64 * cst.pi ** 3 * R[i] ** 4 * P / (chd.power_tx_ant_ku * wl ** 2 * .886 * az * rg)
        want.append(-(10 * np.log10(lin) - 2 * chd.antenna_gain_ku + chd.ratio_trc_ku - bursts[q].agc_ku))
    close(got, np.mean(want), 'returned factor ' + d, atol=1e-8)
    close(alg.sigma0_scaling_factor, np.mean(want), 'stored factor ' + d, atol=1e-8)
    close(np.asarray(alg.sigma0_scaling_factor_beam)[:size], np.array(want), 'per look ' + d, atol=1e-8)
    return d
