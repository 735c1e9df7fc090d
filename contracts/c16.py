from .base import *
from pyvc.models import sum_over
from dedop.proc.sar.algorithms import Sigma0ScalingFactorAlgorithm as A


def sigma0(R, vel, pri, agc, wl, P):
    c, Re = cst('c'), cst('earth_radius')
    az = tm.div(tm.mul(tm.mul(tm.add(1, tm.div(R, Re)), wl), R), tm.mul(pri, tm.mul(tm.mul(2, vel), P)))
    rg = tm.mul(2, tm.sqrt(tm.div(tm.mul(tm.mul(c, R), tm.mul(chd('ptr_width'), Re)), tm.add(Re, R))))
    area = tm.mul(tm.mul(az, rg), tm.const(Fraction(886, 1000)))
    log = lambda k, x: tm.mul(k, tm.log10(x))
    t = log(10, tm.const(64))
    t = tm.add(t, log(30, tm.PI))
    t = tm.sub(t, log(10, chd('power_tx_ant_ku')))
    t = tm.sub(t, tm.mul(2, chd('antenna_gain_ku')))
    t = tm.sub(t, log(20, wl))
    t = tm.add(t, chd('ratio_trc_ku'))
    t = tm.add(t, log(10, P))
    t = tm.add(t, log(40, R))
    t = tm.sub(t, log(10, area))
    return tm.neg(tm.sub(t, agc))


@contract('C16', 'radar-equation')
def radar(E, I):
    c = Conf(E, I)
    a = instance(E, I, A, c)
    use_speed_contract(E, I)
    size = tm.var('surf.data_stack_size', 'Int')
    q = tm.var('surf.closest_burst_index', 'Int')
    wl, slope = tm.var('wl', 'Real'), tm.var('slope', 'Real')
    E.assume([tm.le(1, size), tm.le(size, c.L), tm.le(0, q), tm.lt(q, size)])
    positive(E, wl, cst('c'), cst('earth_radius'), chd('power_tx_ant_ku'), chd('ptr_width'))

    def rng(idx):
        v = at('range', idx[0])
        E.assume(tm.lt(0, v))
        return v

    def pri(k):
        v = at('bst.pri', k)
        E.assume([tm.lt(0, v), tm.lt(0, vnorm2('bst', k))])
        return v
    s = surface(E, c, over={'range_sat_surf': Arr(E, (c.L,), 'real', rng), 'data_stack_size': size,
                            'stack_bursts': burst_array(E, c, 'bst', c.L, {'pri_sar_pre_dat': pri})})
    r = run(I, a, s, wl, slope)
    beam = I.getattr(a, 'sigma0_scaling_factor_beam')
    b = skolem(E, 'b', 0, size)
    E.assume([tm.lt(0, at('range', b)), tm.lt(0, at('bst.pri', b)), tm.lt(0, vnorm2('bst', b))])

    def want(k):
        E.assume([tm.lt(0, at('range', k)), tm.lt(0, at('bst.pri', k)), tm.lt(0, vnorm2('bst', k))])
        return sigma0(at('range', k), tm.sqrt(vnorm2('bst', k)), at('bst.pri', k), at('bst.agc_ku', q), wl, c.P)
    E.prove('per-look', tm.eq(beam.get([b]), want(b)))
    mean = tm.div(sum_over(I, size, want), size)
    E.prove('returned-mean', tm.eq(r, mean))
    E.prove('stored-mean', tm.eq(I.getattr(a, 'sigma0_scaling_factor'), mean))


@contract('C16', 'frame')
def frame(E, I):
    """the surface, its bursts and their ranges are not modified"""
    c = Conf(E, I)
    a = instance(E, I, A, c)
    use_speed_contract(E, I)
    size = tm.var('surf.data_stack_size', 'Int')
    q = tm.var('surf.closest_burst_index', 'Int')
    E.assume([tm.le(1, size), tm.le(size, c.L), tm.le(0, q), tm.lt(q, size)])
    s = surface(E, c, over={'range_sat_surf': arr(E, 'range', (c.L,)), 'data_stack_size': size,
                            'stack_bursts': burst_array(E, c, 'bst', c.L)})
    framed(E, I, a, (s, tm.var('wl', 'Real'), tm.var('slope', 'Real')),
           [(a, {'sigma0_scaling_factor_beam', 'sigma0_scaling_factor'})])
