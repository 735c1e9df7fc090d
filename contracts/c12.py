from .base import *
from dedop.proc.sar.algorithms import GeometryCorrectionsAlgorithm as A


def setup(E, I):
    c = Conf(E, I)
    a = instance(E, I, A, c)
    size = tm.var('surf.data_stack_size', 'Int')
    E.assume(tm.le(0, size))
    s = surface(E, c, over={
        'stack_bursts': burst_array(E, c, 'bst', c.L),
        'beams_surf': arr(E, 'beam', (c.L, c.N), 'complex'),
        'beam_angles_surf': arr(E, 'ang', (c.L,)),
        't0_surf': arr(E, 't0', (c.L,)),
        'data_stack_size': size})
    return c, a, s, size


def formulas(E, b):
    C = cst('c')
    wv = tm.var('wv', 'Real')
    dop = tm.mul(tm.div(tm.neg(C), wv), tm.mul(tm.sqrt(vnorm2('bst', b)), tm.cos(at('ang', b))))
    dop = tm.mul(dop, tm.div(chd('pulse_length'), chd('bw_ku')))
    dop = tm.div(tm.mul(tm.div(2, C), dop), at('t0', b))
    d2 = 0
    for ax in 'xyz':
        d = tm.sub(at('bst.%s_sar_sat' % ax, b), tm.var('surf.%s_surf' % ax, 'Real'))
        d2 = tm.add(d2, tm.mul(d, d))
    rng = tm.sqrt(d2)
    wd = tm.var('surf.win_delay_surf', 'Real')
    slant = tm.div(tm.sub(wd, tm.div(tm.mul(2, rng), C)), at('t0', b))
    win = tm.div(tm.sub(at('bst.win_delay_sar_ku', b), wd), at('t0', b))
    return dop, rng, slant, win


def flag(name):
    return tm.boolvar('cnf.flag_%s_correction' % name)


@contract('C12', 'corrections')
def corrections(E, I):
    c, a, s, size = setup(E, I)
    positive(E, cst('c'))
    run(I, a, s, tm.var('wv', 'Real'))
    b = skolem(E, 'b', 0, c.L)
    g = lambda n: I.getattr(a, n)
    for n in ('doppler_corrections', 'range_sat_surf', 'slant_range_corrections', 'win_delay_corrections'):
        E.prove('shape.' + n, tm.eq(g(n).shape[0], c.L))
    E.prove('shape.beams', tm.And(tm.eq(g('beams_geo_corr').shape[0], c.L), tm.eq(g('beams_geo_corr').shape[1], c.N)))
    k = skolem(E, 'k', 0, c.N)
    if E.branch(tm.lt(b, size)):
        dop, rng, slant, win = formulas(E, b)
        dop = dop if E.branch(flag('doppler_range')) else tm.const(0)
        slant = slant if E.branch(flag('slant_range')) else tm.const(0)
        E.prove('doppler', tm.eq(g('doppler_corrections').get([b]), dop))
        E.prove('range', tm.eq(g('range_sat_surf').get([b]), rng))
        E.prove('slant', tm.eq(g('slant_range_corrections').get([b]), slant))
        E.prove('window', tm.eq(g('win_delay_corrections').get([b]), win))
        shift = tm.add(tm.add(dop, slant), win)
        ph = tm.div(tm.mul(tm.mul(tm.mul(2, tm.PI), shift), k), c.N)
        got = g('beams_geo_corr').get([b, k])
        ceq(E, 'beam', got, tm.c_mul(tm.c_exp(Cx(0, ph)), atc('beam', b, k)))
        E.prove('energy', tm.eq(tm.c_abs2(got), tm.c_abs2(atc('beam', b, k))))
    else:
        for n in ('doppler_corrections', 'range_sat_surf', 'slant_range_corrections', 'win_delay_corrections'):
            E.prove('unused.' + n, tm.eq(g(n).get([b]), 0))
        ceq(E, 'unused.beam', g('beams_geo_corr').get([b, k]), Cx(0, 0))

