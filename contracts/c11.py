from .base import *
from dedop.conf.enums import AzimuthWindowingMethod as W, AzimuthProcessingMethod as M
from dedop.proc.sar import L1BProcessor
from dedop.proc.sar.algorithms import AzimuthProcessingAlgorithm as A


def alg(E, I, over=None):
    c = Conf(E, I, over)
    return c, instance(E, I, A, c)


def window_spec(c, meth, width, p):
    start = tm.sub(tm.idiv(c.P, 2), tm.idiv(width, 2))
    n = tm.sub(p, start)
    inside = tm.And(tm.le(0, n), tm.lt(n, width))
    cosn = tm.cos(tm.div(tm.mul(tm.mul(2, tm.PI), n), tm.sub(width, 1)))
    if meth is W.disabled:
        return tm.const(Fraction(1))
    body = {W.boxcar: tm.const(Fraction(1)),
            W.hamming: tm.sub(Fraction(54, 100), tm.mul(Fraction(46, 100), cosn)),
            W.hanning: tm.sub(Fraction(1, 2), tm.mul(Fraction(1, 2), cosn))}[meth]
    return inside, body


for _m in W:
    def _c(E, I, m=_m):
        c, a = alg(E, I)
        w = tm.var('width', 'Int')
        E.assume([tm.le(2, w), tm.le(w, c.P)])
        r = I.call(method(I, a, 'construct_azimuth_window'), (m,), {'width': w})
        E.prove('shape', tm.eq(r.shape[0], c.P))
        p = skolem(E, 'p', 0, c.P)
        got = r.get([p])
        s = window_spec(c, m, w, p)
        if isinstance(s, tuple):
            if E.branch(s[0]):
                E.prove('inside', tm.eq(got, s[1]))
            else:
                E.prove('outside', tm.eq(got, 0))
        else:
            E.prove('value', tm.eq(got, s))
    contract('C11', 'window.%s' % _m.name)(_c)


def phase_of(c, wv, ang, p):
    return tm.mul(tm.mul(tm.div(tm.mul(-4, tm.PI), wv), tm.mul(tm.sqrt(vnorm2('burst')), tm.cos(ang))),
                  tm.mul(tm.var('burst.pri_sar_pre_dat', 'Real'), p))


def focused_spec(E, I, c, m, width, wv, ang, q, s):
    """azimuth transform at frequency q (0 = zero Doppler after steering to ang), range sample s"""
    def cell(idx):
        p, s = idx
        w = window_spec(c, m, width, p)
        if isinstance(w, tuple):
            w = w[1] if E.branch(w[0]) else 0
        z = tm.c_mul(tm.c_exp(Cx(0, phase_of(c, wv, ang, p))), atc('wf', p, s))
        return tm.c_mul(z, tm.cx(w))
    S = Arr(E, (c.P, c.N), 'complex', cell)
    X = I.call(np.fft.fft, (S,), {'axis': 0})
    return tm.c_div(X.get([q, s]), tm.sqrt(c.P))


def angle(i):
    return at('angle', i)


def nadir_index(E, c, trend, n):
    half = tm.idiv(c.P, 2)
    if trend == 0:
        return half
    if trend == 1:
        return tm.const(0) if E.branch(tm.lt(n, half)) else tm.sub(n, half)
    return tm.sub(n, 1) if E.branch(tm.le(n, half)) else half


def setup(E, I, m, meth, trend):
    width = tm.var('width', 'Int')
    c, a = alg(E, I, {'flag_azimuth_windowing_method': m, 'azimuth_window_width': width,
                      'flag_azimuth_processing_method': meth})
    E.assume([tm.le(2, width), tm.le(width, c.P), tm.le(2, c.P)])
    n = c.P if trend == 0 else tm.var('nbeams', 'Int')
    E.assume([tm.le(1, n), tm.le(n, c.P)])
    b = burst(E, c, over={'waveform_cor_sar': arr(E, 'wf', (c.P, c.N), 'complex'),
                          'beam_angles_list': SList(E, length=n, fn=angle),
                          'beam_angles_trend': trend})
    return c, a, b, n, width


for _m in W:
    for _t in (-1, 0, 1):
        def _approx(E, I, m=_m, t=_t):
            c, a, b, n, width = setup(E, I, m, M.approximate, t)
            wv = tm.var('wv', 'Real')
            run(I, a, b, wv)
            k, s = skolem(E, 'k', 0, n), skolem(E, 's', 0, c.N)
            got = I.getattr(a, 'beams_focused').get([k, s])
            ang = angle(nadir_index(E, c, t, n))
            col = tm.add(k, tm.sub(c.P, n)) if t == 1 else k
            # column j of the centred spectrum is frequency j - P//2 (mod P)
            half = tm.idiv(c.P, 2)
            q = tm.sub(col, half) if E.branch(tm.le(half, col)) else tm.add(tm.sub(col, half), c.P)
            ceq(E, 'beam', got, focused_spec(E, I, c, m, width, wv, ang, q, s))
        contract('C11', 'approximate.%s.trend%d' % (_m.name, _t))(_approx)

        def _exact(E, I, m=_m, t=_t):
            c, a, b, n, width = setup(E, I, m, M.exact, t)
            wv = tm.var('wv', 'Real')
            run(I, a, b, wv)
            k, s = skolem(E, 'k', 0, n), skolem(E, 's', 0, c.N)
            got = I.getattr(a, 'beams_focused').get([k, s])
            ceq(E, 'beam', got, focused_spec(E, I, c, m, width, wv, angle(k), tm.const(0), s))
        contract('C11', 'exact.%s.trend%d' % (_m.name, _t))(_exact)


for _m in (M.approximate, M.exact):
    def _step(E, I, m=_m):
        """processor: each burst gets its own beams; those of an earlier burst stay what they were"""
        c, a, b, n, width = setup(E, I, W.disabled, m, 0)
        proc = SObj(E, L1BProcessor, 'processor', lazy=lambda k: {
            'azimuth_processing_algorithm': a, 'cst': c.cst, 'chd': c.chd, 'cnf': c.cnf}.get(k, SDict.MISSING))
        b2 = burst(E, c, 'other', over={'waveform_cor_sar': arr(E, 'wf2', (c.P, c.N), 'complex'),
                                        'beam_angles_list': SList(E, length=n, fn=lambda i: at('angle2', i)),
                                        'beam_angles_trend': 0})
        f = method(I, proc, 'azimuth_processing')
        run(I, f, b)
        run(I, f, b2)
        k, s = skolem(E, 'k', 0, n), skolem(E, 's', 0, c.N)
        got = I.getattr(b, 'beams_focused').get([k, s])
        ang, q = angle(k), tm.const(0)
        if m is M.approximate:
            ang, half = angle(nadir_index(E, c, 0, n)), tm.idiv(c.P, 2)
            q = tm.sub(k, half) if E.branch(tm.le(half, k)) else tm.add(tm.sub(k, half), c.P)
        ceq(E, 'beam', got, focused_spec(E, I, c, W.disabled, width, I.getattr(c.chd, 'wv_length_ku'), ang, q, s))
    contract('C11', 'each-burst-its-own.%s' % _m.name)(_step)


@contract('C11', 'unknown-method')
def unknown(E, I):
    c, a, b, n, width = setup(E, I, W.disabled, None, 0)
    et, _ = raises(E, I, a, b, tm.var('wv', 'Real'))
    E.prove('rejected', et is not None and issubclass(et, ValueError))
