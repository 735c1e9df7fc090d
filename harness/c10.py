from .util import *
from dedop.proc.sar.algorithms import StackGatheringAlgorithm
from dedop.model import PacketPid


@case('C10', 'gather', 80, 4000)
def gather(rng, scratch):
    N, P, L = int(rng.integers(1, 5)), int(rng.integers(1, 9)), int(rng.integers(1, 8))
    if rng.random() < .1:          # sizes of real records
        P, L = int(rng.integers(1, 65)), int(rng.integers(20, 300))
    n = int(rng.integers(0, 2 * L + 2))
    chd, cst, cnf = mkconf(chd={'n_samples_sar': N, 'n_ku_pulses_burst': P}, cnf={'n_looks_stack': L})
    bursts, idx, absidx = [], [], []
    mono = rng.random() < .7
    base = np.sort(rng.standard_normal(n)) * .01 if mono else rng.standard_normal(n) * .01
    for k in range(n):
        nb = int(rng.integers(1, P + 1))
        j = int(rng.integers(0, nb))
        ang = np.pi / 2 + rng.standard_normal(nb) * .01
        ang[j] = np.pi / 2 + base[k]
        if rng.random() < .05:
            ang[j] = cst.pi / 2        # exactly broadside
        bursts.append(mkburst(chd, cst, 100 + k, beams_focused=crandn(rng, P, N), beam_angles_list=list(ang), t0_sar=1e-9 * (1 + rng.random()),
                              doppler_angle_sar_sat=rng.standard_normal() * .003, pitch_sar=rng.standard_normal() * .01,
                              isp_pid=PacketPid.echo_rmc if rng.random() < .2 else PacketPid.echo_sar))
        idx.append(j)
        absidx.append(int(rng.integers(-64, 64)))
    s = mksurf(cst, chd, 0, stack_all_bursts=list(bursts), stack_all_beams_indices=list(idx), stack_all_beams_indices_abs=list(absidx))
    alg = StackGatheringAlgorithm(chd, cst, cnf)
    before(rng, alg, s)
    if rng.random() < .3:
        alg(s)
    alg(s)
    d = '(N=%d P=%d looks=%d contributing=%d)' % (N, P, L, n)
    look = np.array([cst.pi / 2 + b.doppler_angle_sar_sat - b.beam_angles_list[j] for b, j in zip(bursts, idx)])
    size = min(n, L)
    off = 0
    if n >= L:
        off = int(np.min(np.argsort(np.abs(look), kind='stable')[:L]))
    expect(alg.data_stack_size == size, 'stack size %r, expected %r %s', alg.data_stack_size, size, d)
    for nm in ('stack_bursts', 'beams_surf', 'beam_angles_surf', 't0_surf', 'doppler_angles_surf', 'look_angles_surf', 'pointing_angles_surf', 'look_index_surf', 'look_counter_surf'):
        expect(len(getattr(alg, nm)) == L, '%s has %d places %s', nm, len(getattr(alg, nm)), d)
    for i in range(L):
        if i < size:
            b, j = bursts[off + i], idx[off + i]
            expect(alg.stack_bursts[i] is b, 'look %d is not contributing burst %d %s', i, off + i, d)
            want = (b.beams_focused[j], b.beam_angles_list[j], b.t0_sar, b.doppler_angle_sar_sat, look[off + i], look[off + i] - b.pitch_sar, absidx[off + i], b.seq_count_sar)
        else:
            want = (np.zeros(N), 0, 0, 0, 0, 0, -128, 0)
        got = (alg.beams_surf[i], alg.beam_angles_surf[i], alg.t0_surf[i], alg.doppler_angles_surf[i], alg.look_angles_surf[i], alg.pointing_angles_surf[i], alg.look_index_surf[i], alg.look_counter_surf[i])
        for nm, g, w in zip(('beam', 'beam angle', 't0', 'doppler angle', 'look angle', 'pointing angle', 'look index', 'counter'), got, want):
            close(g, w, '%s of look %d %s' % (nm, i, d), atol=1e-13)
    if size:
        dist = [abs(bursts[off + i].beam_angles_list[idx[off + i]] - cst.pi / 2) for i in range(size)]
        expect(0 <= alg.closest_burst_index < size and dist[alg.closest_burst_index] <= min(dist) + 1e-15, 'closest burst %r %s', alg.closest_burst_index, d)
    return d
