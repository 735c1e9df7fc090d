"""Progress monitors."""
from .base import *
import signal
from pyvc.ext import Recorder, Text, log, logged
from dedop.util.monitor import Monitor, ConsoleMonitor, ChildMonitor


def install(E, I):
    """console and signal module: calls are recorded"""
    for nm in ('write', 'flush'):
        def h(I, a, k, nm=nm):
            log(E, ('out', nm) + tuple(a))
        E.contracts[getattr(sys.stdout, nm)] = h

    def sig(I, a, k):
        log(E, ('signal',) + tuple(a))
        return Opaque('handler%d' % len(logged(E)))
    E.contracts[signal.signal] = sig


def lines(E):
    return [e[2] for e in logged(E) if e[0] == 'out' and e[1] == 'write']


def shows(E, name, ls, p):
    """the text written shows the integer percentage p (p None: no percentage at all)"""
    vals = []
    for x in ls:
        if not isinstance(x, Text):
            continue
        for a, b in zip(x.parts, x.parts[1:] + ('',)):
            if isinstance(a, tuple) and a[0].endswith('d'):
                E.prove(name + '.percent-sign', isinstance(b, str) and b.startswith('%'))
                vals.append(a[1])
    if p is None:
        E.prove(name + '.none', not vals)
    else:
        E.prove(name + '.shown', len(vals) == 1)
        for v in vals:
            E.prove(name + '.value', tm.eq(v, p))


def opt(E, name, v):
    return v if E.choice(name + '.given') else None


def console(E, I, total=True, bar=True):
    """a started console monitor after any history of progress calls"""
    m = I.call(ConsoleMonitor, (E.choice('stay_in_line'), opt(E, 'bar', tm.var('bar', 'Int')) if bar else None))
    E.assume(tm.lt(0, tm.var('bar', 'Int')))
    tot = tm.var('total', 'Real')
    positive(E, tot)
    E.assume(tm.Not(tm.streq(Str('label'), '')))
    run(I, method(I, m, 'start'), Str('label'), tot if total else None)
    if I.getattr(m, '_cancelled') is not False:
        E.prove('cancelled-initially', False)
    for nm in ('_worked', '_percentage', '_msg', '_cancelled', '_last_line_len'):
        if m.get(nm) is SDict.MISSING:
            raise Unsupported('no field ' + nm)
    m.set('_worked', tm.var('worked', 'Real'))
    m.set('_percentage', opt(E, 'shown', tm.var('shown', 'Int')))
    m.set('_msg', opt(E, 'lastmsg', Str('lastmsg')))
    m.set('_last_line_len', opt(E, 'lastlen', tm.var('lastlen', 'Int')))
    m.set('_cancelled', tm.boolvar('cancelled'))
    E.ghost['log'] = ()
    return m, tot


def truth(E, I, m):
    v = run(I, method(I, m, 'is_cancelled'))
    return v if isinstance(v, bool) else v


@contract('C26', 'console-start')
def start(E, I):
    install(E, I)
    m = I.call(ConsoleMonitor, (E.choice('stay_in_line'), opt(E, 'bar', tm.var('bar', 'Int'))))
    E.prove('fresh-not-cancelled', tm.Not(truth(E, I, m)))
    c = E.choice('cancelled')
    if c:
        run(I, method(I, m, 'cancel'))
    again = E.choice('restarted')
    lab = Str('label')
    E.assume(tm.Not(tm.streq(lab, '')))
    if again:
        m.set('_worked', tm.var('oldwork', 'Real'))
        m.set('_percentage', tm.var('oldshown', 'Int'))
    E.ghost['log'] = ()
    tot = tm.var('total', 'Real')
    positive(E, tot)
    run(I, method(I, m, 'start'), lab, opt(E, 'total', tot))
    E.prove('cancel-kept', tm.Iff(truth(E, I, m), c))
    shows(E, 'start', lines(E), None)
    sg = [e for e in logged(E) if e[0] == 'signal']
    E.prove('handler-installed', len(sg) == 1 and sg[0][1] == signal.SIGINT)
    for e in sg:
        run(I, e[2], signal.SIGINT, Opaque('frame'))
        E.prove('ctrl-c-cancels', truth(E, I, m))
    E.ghost['log'] = ()
    w = tm.var('w', 'Real')
    p0 = I.getattr(m, '_total_work')
    if p0 is not None:
        m.set('_percentage', None)
        run(I, method(I, m, 'progress'), work=w)
        shows(E, 'first', lines(E), I.call(round, (tm.div(tm.mul(100, w), tot),)))


@contract('C26', 'console-progress')
def progress(E, I):
    install(E, I)
    m, tot = console(E, I)
    was = m.get('_cancelled')
    W, w = tm.var('worked', 'Real'), tm.var('w', 'Real')
    work, msg = opt(E, 'work', w), opt(E, 'msg', Str('msg'))
    old, oldmsg = m.get('_percentage'), m.get('_msg')
    run(I, method(I, m, 'progress'), work=work, msg=msg)
    E.prove('cancel-kept', tm.Iff(truth(E, I, m), was))
    done = W if work is None else tm.add(W, w)
    pct = I.call(round, (tm.div(tm.mul(100, done), tot),))
    ls = lines(E)
    if ls:
        shows(E, 'line', ls, pct if work is not None else None)
    else:
        E.prove('unchanged', (old is None) == (work is None))
        if work is not None and old is not None:
            E.prove('unchanged.percentage', tm.eq(old, pct))
        E.prove('unchanged.message', (oldmsg is None) == (msg is None))
        if msg is not None and oldmsg is not None:
            E.prove('unchanged.text', tm.streq(oldmsg, msg))


@contract('C26', 'console-two-steps')
def twosteps(E, I):
    """a further step shows the sum of both"""
    install(E, I)
    m, tot = console(E, I, bar=False)
    W, w = tm.var('worked', 'Real'), tm.var('w', 'Real')
    work = opt(E, 'work', w)
    run(I, method(I, m, 'progress'), work=work, msg=Str('msg'))
    done = W if work is None else tm.add(W, w)
    pct = I.call(round, (tm.div(tm.mul(100, done), tot),))
    E.ghost['log'] = ()
    v = tm.var('v', 'Real')
    last = pct if work is not None else None
    run(I, method(I, m, 'progress'), work=v, msg=Str('other'))
    pct2 = I.call(round, (tm.div(tm.mul(100, tm.add(done, v)), tot),))
    ls = lines(E)
    if ls:
        shows(E, 'next', ls, pct2)
    else:
        E.prove('next.unchanged', last is not None)
        if last is not None:
            E.prove('next.percentage', tm.eq(last, pct2))


@contract('C26', 'console-no-total')
def nototal(E, I):
    install(E, I)
    m, tot = console(E, I, total=False, bar=False)
    was = m.get('_cancelled')
    run(I, method(I, m, 'progress'), work=opt(E, 'work', tm.var('w', 'Real')), msg=opt(E, 'msg', Str('msg')))
    shows(E, 'line', lines(E), None)
    E.prove('cancel-kept', tm.Iff(truth(E, I, m), was))


@contract('C26', 'console-done')
def done(E, I):
    install(E, I)
    m, tot = console(E, I, bar=False)
    was = m.get('_cancelled')
    h = m.get('_old_ctrl_c_handler')
    run(I, method(I, m, 'done'))
    E.prove('cancel-kept', tm.Iff(truth(E, I, m), was))
    sg = [e for e in logged(E) if e[0] == 'signal']
    E.prove('handler-restored', len(sg) == 1 and sg[0][1] == signal.SIGINT and sg[0][2] is h)
    run(I, method(I, m, 'cancel'))
    E.prove('cancel', truth(E, I, m))


def child(E, I):
    """child monitor, with arbitrary share and total, of an arbitrary parent"""
    flag = tm.boolvar('parent.cancelled')
    p = Recorder(E, 'parent', {'is_cancelled': lambda: flag})
    part = tm.var('partial', 'Real')
    c = I.call(ChildMonitor, (p, part))
    return p, c, part, flag


def reported(E):
    """works passed to the parent (None: message only)"""
    out = []
    for nm, m, a, k in logged(E):
        if m == 'progress':
            out.append(k['work'] if 'work' in k else (a[0] if a else None))
    return out


@contract('C26', 'child')
def childs(E, I):
    p, c, part, flag = child(E, I)
    tot, w1, w2 = tm.var('total', 'Real'), tm.var('w1', 'Real'), tm.var('w2', 'Real')
    positive(E, tot)
    lab = Str('label')
    E.assume(tm.Not(tm.streq(lab, '')))
    if E.choice('restarted'):
        run(I, method(I, c, 'start'), lab, tm.var('oldtotal', 'Real'))
        E.ghost['log'] = ()

    def same():
        return tm.Iff(truth(E, I, c), flag)

    def total():
        s = 0
        for x in reported(E):
            if x is not None:
                s = tm.add(s, x)
        return s
    run(I, method(I, c, 'start'), lab, tot)
    E.prove('start.no-work', tm.eq(total(), 0))
    E.prove('start.visible', same())
    run(I, method(I, c, 'progress'), work=w1, msg=opt(E, 'msg', Str('msg')))
    E.prove('progress.share', tm.eq(total(), tm.div(tm.mul(part, w1), tot)))
    if E.choice('message-only'):
        run(I, method(I, c, 'progress'), msg=Str('msg2'))
        E.prove('message.no-work', tm.eq(total(), tm.div(tm.mul(part, w1), tot)))
    run(I, method(I, c, 'progress'), work=w2)
    E.prove('progress.sum', tm.eq(total(), tm.div(tm.mul(part, tm.add(w1, w2)), tot)))
    E.prove('progress.visible', same())
    run(I, method(I, c, 'done'))
    E.prove('done.no-work', tm.eq(total(), tm.div(tm.mul(part, tm.add(w1, w2)), tot)))
    E.prove('done.visible', same())
    E.prove('not-cancelled-by-use', all(e[1] != 'cancel' for e in logged(E)))
    run(I, method(I, c, 'cancel'))
    E.prove('cancel-reaches-parent', any(e[1] == 'cancel' for e in logged(E)))


@contract('C26', 'child-of')
def childof(E, I):
    """Monitor.child(work) of a console monitor and of a child monitor reaches that monitor in proportion"""
    install(E, I)
    m, tot = console(E, I, bar=False)
    W, a, b = tm.var('worked', 'Real'), tm.var('a', 'Real'), tm.var('b', 'Real')
    t1, t2, w = tm.var('t1', 'Real'), tm.var('t2', 'Real'), tm.var('w', 'Real')
    positive(E, t1, t2)
    lab = Str('label')
    E.assume(tm.Not(tm.streq(lab, '')))
    c = run(I, method(I, m, 'child'), a)
    run(I, method(I, c, 'start'), lab, t1)
    g = run(I, method(I, c, 'child'), b)
    run(I, method(I, g, 'start'), lab, t2)
    E.ghost['log'] = ()
    run(I, method(I, g, 'progress'), work=w)
    E.prove('accumulated', tm.eq(m.get('_worked'), tm.add(W, tm.div(tm.mul(a, tm.mul(b, w)), tm.mul(t1, t2)))))
    for x in (m, c, g):
        E.prove('visible', tm.Iff(truth(E, I, x), m.get('_cancelled')))
    who = m if E.choice('root-cancels') else g
    run(I, method(I, who, 'cancel'))
    for x in (m, c, g):
        E.prove('cancelled', truth(E, I, x))


@contract('C26', 'child-no-total')
def childno(E, I):
    """a child that announces no total reports no work to its parent"""
    p, c, part, flag = child(E, I)
    lab = Str('label')
    E.assume(tm.Not(tm.streq(lab, '')))
    if E.choice('restarted'):
        tot = tm.var('oldtotal', 'Real')
        positive(E, tot)
        run(I, method(I, c, 'start'), lab, tot)
        E.ghost['log'] = ()
    run(I, method(I, c, 'start'), lab)
    if E.choice('message'):
        run(I, method(I, c, 'progress'), msg=Str('msg'))
    run(I, method(I, c, 'done'))
    for x in reported(E):
        E.prove('no-work', x is None or tm.eq(x, 0))
    E.prove('visible', tm.Iff(truth(E, I, c), flag))


@contract('C26', 'starting')
def starting(E, I):
    """the context manager announces the task, hands out the monitor and ends the task on every way out"""
    from .c26_client import task, Stop
    p = Recorder(E, 'monitor')
    m = SObj(E, Monitor, 'mon', lazy=lambda k: {'start': p.attr(I, 'start'), 'done': p.attr(I, 'done')}.get(k, SDict.MISSING))
    lab, tot = Str('label'), tm.var('total', 'Real')
    mode = 0 if E.choice('completes') else 1 if E.choice('fails') else 2
    I.inline_modules = ('dedop', 'contracts')
    r, v = raises(E, I, task, m, lab, tot, mode)
    E.prove('outcome', r is (None if mode != 1 else Stop) and (mode == 1 or v == mode))
    ev = logged(E)
    E.prove('start-once-done-once', [e[1] for e in ev] == ['start', 'done'])
    for e in ev[:1]:
        k = dict(e[3])
        args = list(e[2])
        E.prove('label', tm.streq(args[0] if args else k['label'], lab))
        E.prove('total', tm.eq(args[1] if len(args) > 1 else k['total_work'], tot))


@contract('C26', 'null')
def null(E, I):
    m = Monitor.NULL
    E.prove('null.child', run(I, I.getattr(m, 'child'), tm.var('w', 'Real')) is Monitor.NULL)
    run(I, I.getattr(m, 'start'), Str('label'), tm.var('t', 'Real'))
    run(I, I.getattr(m, 'progress'), tm.var('w', 'Real'), Str('msg'))
    run(I, I.getattr(m, 'done'))
    E.prove('null.never-cancelled', run(I, I.getattr(m, 'is_cancelled')) is False)
