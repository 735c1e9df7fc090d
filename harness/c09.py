from .track import *
from dedop.proc.sar.algorithms import BeamAnglesAlgorithm


@case('C09', 'attribution', 60, 2000)
def attribution(rng, scratch):
    from dedop.proc.sar.processor import L1BProcessor
    P = int(rng.integers(2, 9))
    chd, cst, cnf = mkconf(chd={'n_ku_pulses_burst': P})
    p = L1BProcessor.__new__(L1BProcessor)
    p.chd, p.cst, p.cnf = chd, cst, cnf
    p._surfaces, p._packets, p.surfaces_count = [], [], 0
    p.beam_angles_algorithm = BeamAnglesAlgorithm(chd, cst, cnf)
    p.beam_angles_list_size_prev = p.beam_angles_trend_prev = -1
    first = int(rng.integers(0, 200))
    sat, vel = rng.standard_normal(3) * 4e6, unit(rng) * rng.uniform(6500, 7800)
    side = np.cross(vel, rng.standard_normal(3))
    side /= np.linalg.norm(side)
    dop = rng.standard_normal() * 2e-3
    q = np.arccos(cst.c / chd.pri_sar / 4 / chd.freq_ku / np.linalg.norm(vel))
    half = np.pi / 2 - q
    surfs = []

    def add(k, visible):
        a = rng.uniform(-.98, .98) * half if visible else rng.choice([-1, 1]) * half * rng.uniform(1.02, 3)
        a = np.pi / 2 + a + dop
        pos = sat + rng.uniform(7e5, 1.3e6) * (np.cos(a) * vel / np.linalg.norm(vel) + np.sin(a) * side)
        surfs.append((mksurf(cst, chd, first + k, x_surf=pos[0], y_surf=pos[1], z_surf=pos[2]), visible, a))
    n = int(rng.integers(1, 14))
    pv = rng.choice([.2, .6, .9, 1.])
    for k in range(n):
        add(k, rng.random() < pv)
    want = {s.surface_counter: [] for s, _, _ in surfs}
    prev, trend = -1, -1
    for step in range(int(rng.integers(1, 6))):
        queue = [s for s, _, _ in surfs]
        b = mkburst(chd, cst, step, x_sar_sat=sat[0], y_sar_sat=sat[1], z_sar_sat=sat[2], x_vel_sat_sar=vel[0], y_vel_sat_sar=vel[1],
                    z_vel_sat_sar=vel[2], doppler_angle_sar_sat=dop)
        w = int(rng.integers(len(queue)))
        p._surfaces, p._packets = queue, [b]
        p.beam_angles(queue, b, queue[w])
        vis = [v for _, v, _ in surfs]
        f = vis.index(True) if True in vis else len(vis)
        e = f
        while e < len(vis) and vis[e]:
            e += 1
        d = '(P=%d visible=%s work=%d step=%d)' % (P, ''.join('01'[v] for v in vis), w, step)
        expect(bool(p.beam_angles_algorithm.work_location_seen) == (f <= w < e), 'work location seen %s', d)
        run_ = surfs[max(f, e - P):e]
        expect(list(b.surfaces_seen_list) == [s.surface_counter for s, _, _ in run_], 'surfaces %r %s', list(b.surfaces_seen_list), d)
        close(np.array(b.beam_angles_list, dtype=float), np.array([a for _, _, a in run_]), 'angles ' + d, rtol=0, atol=1e-7)
        m = len(run_)
        trend = 0 if m == P else 1 if prev == -1 or m > prev else -1 if m < prev else trend
        prev = m
        expect(b.beam_angles_trend == trend, 'trend %r, expected %r %s', b.beam_angles_trend, trend, d)
        for j, (s, _, _) in enumerate(run_):
            want[s.surface_counter].append((b, j, j + P - m - P // 2 if trend == 1 else j - P // 2))
        for s, _, _ in surfs:
            x = want[s.surface_counter]
            got = list(zip(s.stack_all_bursts, s.stack_all_beams_indices, s.stack_all_beams_indices_abs))
            ok = len(s.stack_all_bursts) == len(s.stack_all_beams_indices) == len(s.stack_all_beams_indices_abs) == len(x) and \
                all(g[0] is h[0] and tuple(g[1:]) == tuple(h[1:]) for g, h in zip(got, x))
            expect(ok, 'surface %d records %r, expected %r %s', s.surface_counter, [g[1:] for g in got], [h[1:] for h in x], d)
        # next burst: the queue moves on, other surfaces become visible
        if rng.random() < .5 and len(surfs) > 1:
            del surfs[0]
        for _ in range(int(rng.integers(0, 3))):
            add(n, rng.random() < pv)
            want[surfs[-1][0].surface_counter] = []
            n += 1
    return d
