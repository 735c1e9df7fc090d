from .base import *
from dedop.proc.sar.cal import CAL1Algorithm, CAL2Algorithm


def mk(E, I, cls, over):
    c = Conf(E, I, over)
    a = instance(E, I, cls, c)
    wf = arr(E, 'wf', (c.P, c.N), 'complex')
    b = burst(E, c, 'b', over={'waveform_cor_sar': wf, 'cal1_power': arr(E, 'pow', (c.P,)),
                               'cal1_phase': arr(E, 'pha', (c.P,)), 'cal2_array': arr(E, 'prof', (c.N,))})
    return c, a, b


@contract('C17', 'cal1')
def cal1(E, I):
    c, a, b = mk(E, I, CAL1Algorithm, {'flag_cal1_corrections': True})
    run(I, a, b)
    out = I.getattr(b, 'waveform_cor_sar')
    E.prove('shape', tm.And(tm.eq(out.shape[0], c.P), tm.eq(out.shape[1], c.N)))
    p, j = skolem(E, 'p', 0, c.P), skolem(E, 'j', 0, c.N)
    E.assume(tm.le(0, at('pow', p)))
    gain = tm.sqrt(tm.pow10(tm.div(tm.sub(tm.var('b.agc_ku', 'Real'), tm.var('b.sig0_cal_ku', 'Real')), 10)))
    amp = tm.div(tm.sqrt(at('pow', p)), gain)
    w = atc('wf', p, j)
    cs, sn = tm.cos(at('pha', p)), tm.sin(at('pha', p))
    want = Cx(tm.mul(amp, tm.sub(tm.mul(w.re, cs), tm.mul(w.im, sn))),
              tm.mul(amp, tm.add(tm.mul(w.re, sn), tm.mul(w.im, cs))))
    ceq(E, 'corrected', out.get([p, j]), want)


for _cls, _flag, _nm in ((CAL1Algorithm, 'flag_cal1_corrections', 'cal1'), (CAL2Algorithm, 'flag_cal2_correction', 'cal2')):
    def _off(E, I, cls=_cls, flag=_flag):
        c, a, b = mk(E, I, cls, {flag: False})
        framed(E, I, a, (b,), [])
        out = I.getattr(b, 'waveform_cor_sar')
        p, j = skolem(E, 'p', 0, c.P), skolem(E, 'j', 0, c.N)
        ceq(E, 'unchanged', out.get([p, j]), atc('wf', p, j))
    contract('C17', _nm + '.disabled')(_off)

    def _frame(E, I, cls=_cls, flag=_flag):
        """only the waveform of the burst changes"""
        c, a, b = mk(E, I, cls, {flag: True})
        data = I.getattr(b, '_data')
        wf = I.getattr(b, 'waveform_cor_sar')
        saved = E.write_log, E.alloc_log
        E.write_log, E.alloc_log = [], set()
        run(I, a, b)
        log, fresh = E.write_log, E.alloc_log
        E.write_log, E.alloc_log = saved
        bad = [(o, i) for o, i in log if o.heapid not in fresh and o is not wf and
               not (o is data and i[1] == 'waveform_cor_sar')]
        E.prove('frame', not bad, detail=repr(bad[:3]))
    contract('C17', _nm + '.frame')(_frame)


@contract('C17', 'cal2')
def cal2(E, I):
    c, a, b = mk(E, I, CAL2Algorithm, {'flag_cal2_correction': True})
    run(I, a, b)
    out = I.getattr(b, 'waveform_cor_sar')
    E.prove('shape', tm.And(tm.eq(out.shape[0], c.P), tm.eq(out.shape[1], c.N)))
    p, j = skolem(E, 'p', 0, c.P), skolem(E, 'j', 0, c.N)
    # specification: the spectrum of the result is the input spectrum with gate g (frequency g - N//2 after
    # centring) divided by sqrt(profile[g])
    W = arr(E, 'wf', (c.P, c.N), 'complex')
    spec = I.call(np.fft.fft, (W,), {'axis': 1})
    z = spec.freeze()
    h = tm.idiv(c.N, 2)

    def scaled(idx):
        q, f = idx
        # frequency bin f sits at gate f + N//2 of the centred spectrum, wrapped into 0..N-1
        g = tm.add(f, h)
        if not E.branch(tm.lt(g, c.N)):
            g = tm.sub(g, c.N)
        v, d = z([q, f]), tm.sqrt(at('prof', g))
        return Cx(tm.div(v.re, d), tm.div(v.im, d))
    want = I.call(np.fft.ifft, (Arr(E, (c.P, c.N), 'complex', scaled),), {'axis': 1})
    ceq(E, 'corrected', out.get([p, j]), want.get([p, j]))
