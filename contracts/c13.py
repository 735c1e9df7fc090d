from .base import *
from dedop.proc.sar.algorithms import RangeCompressionAlgorithm as A


@contract('C13', 'compression')
def compression(E, I):
    c = Conf(E, I)
    a = instance(E, I, A, c)
    size = tm.var('surf.data_stack_size', 'Int')
    E.assume(tm.le(0, size))
    x = arr(E, 'beam', (c.L, c.N), 'complex')
    s = surface(E, c, over={'beams_geo_corr': x, 'data_stack_size': size})
    run(I, a, s)
    M = tm.mul(c.zp, c.N)
    iq, pw = I.getattr(a, 'beam_range_compr_iq'), I.getattr(a, 'beam_range_compr')
    n = size if E.branch(tm.le(size, c.L)) else c.L
    for nm, z in (('iq', iq), ('power', pw)):
        E.prove('looks.' + nm, tm.eq(z.shape[0], n))
        E.prove('padded.' + nm, tm.eq(z.shape[1], M))
    b = skolem(E, 'b', 0, n)
    j = skolem(E, 'j', 0, M)
    half = tm.idiv(M, 2)
    q = tm.sub(j, half) if E.branch(tm.le(half, j)) else tm.add(tm.sub(j, half), M)

    def cell(idx):
        return atc('beam', b, idx[0]) if E.branch(tm.lt(idx[0], c.N)) else Cx(0, 0)
    X = I.call(np.fft.fft, (Arr(E, (M,), 'complex', cell),))
    want = tm.c_div(X.get([q]), tm.sqrt(M))
    ceq(E, 'iq', iq.get([b, j]), want)
    E.prove('power', tm.eq(pw.get([b, j]), tm.c_abs2(iq.get([b, j]))))
