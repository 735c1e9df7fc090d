from .util import *
import contextlib
import io
import re
import signal
from dedop.util.monitor import Monitor, ConsoleMonitor


class Boom(Exception):
    pass


@case('C26', 'history', 150, 4000)
def history(rng, scratch):
    bar = [None, 0, int(rng.integers(1, 40))][rng.integers(3)]
    m = ConsoleMonitor(stay_in_line=bool(rng.integers(2)), progress_bar_size=bar)
    total = float(rng.choice([1, 3, 7, 100, 250, 12.5])) if rng.random() < .9 else None
    out = io.StringIO()
    desc = []
    cancelled = False
    old = signal.getsignal(signal.SIGINT)

    def text():
        s = out.getvalue()
        out.truncate(0)
        out.seek(0)
        return s

    def check(mons):
        for x in mons:
            expect(bool(x.is_cancelled()) == cancelled, 'cancel request visible: %r, requested: %r (%s)',
                   x.is_cancelled(), cancelled, desc)
    with contextlib.redirect_stdout(out):
        if rng.random() < .15:
            m.cancel()
            cancelled = True
        for rnd in range(int(rng.integers(1, 3))):
            m.start('task', total)
            check([m])
            # tree of monitors: (monitor, factor of one unit of its work in units of the root)
            mons = [(m, 1.0)]
            acc, shown = 0.0, None
            text()
            for step in range(int(rng.integers(1, 14))):
                act = rng.random()
                if act < .25 and len(mons) < 5 and total:
                    par, f = mons[rng.integers(len(mons))]
                    share, tot = float(rng.integers(1, 9)), float(rng.choice([1, 2, 10, 64]))
                    c = par.child(share)
                    if rng.random() < .15:      # a child that only tells messages
                        c.start('child')
                        c.progress(msg='m')
                        c.done()
                        desc.append('child(%g), messages only' % share)
                        ps = re.findall(r'(-?\d+)%', text())
                        expect(not ps or abs(int(ps[-1]) - 100 * acc / total) <= .5 + 1e-6,
                               'shown %r%%, accumulated work is %r%% (%s)', ps, 100 * acc / total, desc)
                        shown = None
                        check([x for x, _ in mons])
                        continue
                    c.start('child', tot)
                    mons.append((c, f * share / tot))
                    desc.append('child(%g)/%g' % (share, tot))
                    work = 0.0
                elif act < .3:
                    mons[rng.integers(len(mons))][0].cancel()
                    cancelled = True
                    desc.append('cancel')
                    check([x for x, _ in mons])
                    continue
                elif act < .33:
                    signal.raise_signal(signal.SIGINT)
                    cancelled = True
                    desc.append('ctrl-c')
                    check([x for x, _ in mons])
                    continue
                elif act < .45:
                    mons[rng.integers(len(mons))][0].progress(msg=None if rng.random() < .3 else 'm%d' % rng.integers(3))
                    desc.append('msg')
                    t = text()
                    expect(not re.search(r'\d+%', t), 'percentage shown without progress: %r', t)
                    if t:
                        shown = None
                    check([x for x, _ in mons])
                    continue
                elif act < .55 and len(mons) > 1:
                    i = 1 + rng.integers(len(mons) - 1)
                    mons[i][0].done()
                    desc.append('child-done')
                    work = 0.0
                else:
                    x, f = mons[rng.integers(len(mons))]
                    w = float(rng.choice([0, .25, 1, 2, 5]))
                    x.progress(work=w, msg=[None, 'a', 'b'][rng.integers(3)])
                    work = w * f
                    desc.append('%g*%g' % (w, f))
                acc += work
                t = text()
                ps = re.findall(r'(-?\d+)%', t)
                if total is None:
                    expect(not ps, 'percentage without announced total: %r', t)
                    continue
                if ps:
                    expect(len(ps) == 1, 'more than one percentage in %r', t)
                    shown = int(ps[0])
                pct = 100 * acc / total
                expect(shown is not None, 'no percentage shown after progress: %r %s', t, desc)
                expect(abs(shown - pct) <= .5 + 1e-6, 'shown %r%%, accumulated work is %r%% (%s)', shown, pct, desc)
                check([x for x, _ in mons])
            m.done()
            expect(signal.getsignal(signal.SIGINT) == old, 'interrupt handler not restored after done')
            check([x for x, _ in mons])
    return ' '.join(desc)


class Rec(Monitor):
    def __init__(self):
        self.ev = []

    def start(self, label, total_work=None):
        self.ev.append(('start', label, total_work))

    def progress(self, work=None, msg=None):
        self.ev.append(('progress', work, msg))

    def done(self):
        self.ev.append(('done',))


@case('C26', 'starting', 30, 300)
def starting(rng, scratch):
    m = Rec()
    fail = rng.random() < .5
    tot = None if rng.random() < .3 else float(rng.integers(1, 50))
    try:
        with m.starting('lab', total_work=tot) as x:
            expect(x is m, 'starting hands out another object')
            expect(m.ev == [('start', 'lab', tot)], 'events at start: %r', m.ev)
            if fail:
                raise Boom()
        expect(not fail, 'exception swallowed')
    except Boom:
        expect(fail, 'unexpected')
    expect(m.ev[-1] == ('done',) and len(m.ev) == 2, 'events %r (fail=%r)', m.ev, fail)
    n = Monitor.NULL
    expect(n.child(3) is n and not n.is_cancelled(), 'null monitor')
    return 'fail=%r' % fail
