from .product import *
from dedop.data.output import L1BWriter, L1BWriterExtended, L1BSWriter
from dedop.proc.sar.algorithms import SurfaceLocationAlgorithm as A
from . import c07
from .procloop import whole_run
from dedop.util.time import iso_format
import ast
import datetime

WRITERS = (('s3', L1BWriter, 'l1b'), ('extended', L1BWriterExtended, 'l1b'), ('l1bs', L1BSWriter, 'l1bs'))
FIELDS = ('prev_tai', 'prev_utc_days', 'prev_utc_secs', 'curr_day_length')
R = c07.R


def one(E, st, name):
    """the one value stored in a scalar variable"""
    v = st.get(name, [])
    E.prove('stored-once/' + name, len(v) == 1 and v[0][1] == ())
    return v[0][2] if len(v) == 1 else tm.var('nothing.' + name, 'Real')


def tag(tai, days, secs, length, t):
    """(UTC day, second of the day) of the instant t, from the UTC of the earlier instant tai on a day of this length"""
    u = tm.add(secs, tm.sub(t, tai))
    same = tm.lt(u, length)
    return same, u


def make(nm, cls, pre):
    @contract('C19', 'tags-' + nm)
    def tags(E, I):
        """write_record: the surface time, and the UTC derived from the reference stored with the surface"""
        c = Conf(E, I)
        w, ds = writer(E, I, cls, c)
        s, M, ci = product_surface(E, c)
        tai, days, secs, length = [R('surf.' + f) for f in FIELDS]
        t = R('surf.time_surf')
        E.assume([tm.le(0, secs), tm.lt(0, length), tm.le(tai, t), tm.lt(tm.add(secs, tm.sub(t, tai)), tm.mul(2, length))])
        run(I, method(I, w, 'write_record'), s)
        st = stores(E)
        suf = '_%s_echo_sar_ku' % pre
        E.prove('time', tm.eq(one(E, st, 'time' + suf), t))
        day, sec = one(E, st, 'UTC_day' + suf), one(E, st, 'UTC_sec' + suf)
        same, u = tag(tai, days, secs, length, t)
        if E.branch(same):
            E.prove('same-day', tm.eq(day, days))
            E.prove('same-day-seconds', tm.eq(sec, u))
        else:
            E.prove('next-day', tm.eq(day, tm.add(days, 1)))
            E.prove('next-day-seconds', tm.eq(sec, tm.sub(u, length)))
        E.prove('seconds-within-day', tm.And(tm.le(0, sec), tm.lt(sec, length)))
        if pre == 'l1b':
            # 1980-01-06 is 7300 days before 2000-01-01; TAI is 19 s ahead of GPS time
            E.prove('gps', tm.eq(one(E, st, 'GPS_time' + suf), tm.add(t, 7300 * 86400 - 19)))
    return tags


for x in WRITERS:
    make(*x)


def utc(E, b, D):
    """the UTC of burst b is a valid one on a day of D seconds"""
    E.assume([tm.le(0, R(b + '.seconds')), tm.lt(R(b + '.seconds'), D)])


def reference(E, I, a, b, D, t, pre):
    """the reference held by the algorithm gives the true UTC of the instant t (on the day of burst b, D seconds
    long, or the next one)"""
    tai, days, secs, length = [I.getattr(a, f) for f in FIELDS]
    same, u = tag(R(b + '.time_sar_ku'), R(b + '.days'), R(b + '.seconds'), D, t)
    got, v = tag(tai, days, secs, length, t)
    E.prove(pre + 'within', tm.And(tm.le(0, secs), tm.lt(0, length), tm.le(tai, t), tm.lt(v, tm.mul(2, length))))
    if E.branch(same):
        E.prove(pre + 'on-the-day', got)
        E.prove(pre + 'day', tm.eq(days, R(b + '.days')))
        E.prove(pre + 'seconds', tm.eq(v, u))
    else:
        E.prove(pre + 'past-the-day', tm.Not(got))
        E.prove(pre + 'next-day', tm.eq(tm.add(days, 1), tm.add(R(b + '.days'), 1)))
        E.prove(pre + 'next-seconds', tm.eq(tm.sub(v, length), tm.sub(u, D)))


def daylength(E):
    D = tm.var('day.length', 'Real')
    E.assume(tm.eq(cst('sec_in_day'), 86400))
    E.assume(tm.Or(tm.eq(D, 86400), tm.eq(D, 86401)))
    return D


@contract('C19', 'reference-first')
def first(E, I):
    """first surface of a run, and of the run after a gap: its own burst"""
    c, a = c07.setup(E, I, False)
    D = daylength(E)
    utc(E, 'cur', D)
    gap = E.choice('after a gap')
    bs = c07.bursts_of(E, c, 1)
    if gap:
        run(I, a, c07.surfaces_of(E, c), bs, True)
    else:
        run(I, a, [], bs)
    t = I.getattr(a, 'time_surf')
    E.prove('time', tm.eq(t, R('cur.time_sar_ku')))
    reference(E, I, a, 'cur', D, t, '')


@contract('C19', 'reference-next')
def following(E, I):
    """any instant between the two bursts around the surface, which carry the UTC of consecutive instants less than a
    day apart"""
    c, a = c07.setup(E, I, False)
    D = daylength(E)
    utc(E, 'prev', D)
    p, q = (lambda n: R('prev.' + n)), (lambda n: R('cur.' + n))
    dt = tm.sub(q('time_sar_ku'), p('time_sar_ku'))
    E.assume(tm.lt(0, dt))
    u = tm.add(p('seconds'), dt)
    if E.branch(tm.lt(u, D)):
        E.assume([tm.eq(q('days'), p('days')), tm.eq(q('seconds'), u)])
    else:
        E.assume([tm.eq(q('days'), tm.add(p('days'), 1)), tm.eq(q('seconds'), tm.sub(u, D)), tm.lt(q('seconds'), 43200)])
    positive(E, c07.geo.dot(*[[at('ssv', i) for i in range(3)]] * 2))
    r = run(I, a, c07.surfaces_of(E, c), c07.bursts_of(E, c))
    if r is not True:
        E.prove('no-surface', r is False)
        return
    t = R('instant')
    E.assume([tm.le(p('time_sar_ku'), t), tm.le(t, q('time_sar_ku'))])
    reference(E, I, a, 'prev', D, t, '')


@contract('C19', 'reference-kept')
def kept(E, I):
    """the reference reaches the surface under its own name"""
    c, a = c07.setup(E, I, False)
    names = FIELDS + ('time_surf',)
    for n in names:
        I.setattr(a, n, R('alg.' + n))
    d = run(I, method(I, a, 'get_surface'))
    s = I.call(SurfaceData, (c.cst, c.chd, 5, d))
    for n in names:
        E.prove(n, tm.eq(I.getattr(s, n), R('alg.' + n)))


class Span(Ext):
    """datetime.timedelta (assumed of the library: exact up to its microsecond resolution)"""

    def __init__(self, s):
        self.s = s

    def attr(self, I, name):
        if name == 'total_seconds':
            return Native(lambda: self.s, name)
        raise Unsupported('timedelta.%s' % name)

    def binop(self, I, op, other, left):
        if isinstance(other, Span) and op in (ast.Add, ast.Sub):
            a, b = (self.s, other.s) if left else (other.s, self.s)
            return Span(tm.add(a, b) if op is ast.Add else tm.sub(a, b))
        if isinstance(other, (datetime.datetime, Instant)) and (op is ast.Add or op is ast.Sub and not left):
            b = instant(other)
            return Instant(tm.add(b.s, self.s) if op is ast.Add else tm.sub(b.s, self.s), b.off)
        if isinstance(other, (int, float, Fraction, T)) and op is ast.Mult:
            return Span(tm.mul(self.s, other))
        raise Unsupported('timedelta operator')


class Instant(Ext):
    def __init__(self, s, off):
        self.s, self.off = s, off

    def attr(self, I, name):
        if name == 'isoformat':
            return Native(lambda *a: IsoText(self.s, self.off, a), name)
        if name == 'tzinfo' and self.off is not None:
            return Opaque('tz')
        raise Unsupported('datetime.%s' % name)

    binop = Span.binop


class IsoText(Ext):
    types = (str,)

    def __init__(self, s, off, how):
        self.s, self.off, self.how = s, off, how


def instant(d):
    """a date and time of the program: seconds since the start of 2000 UTC, and its offset to UTC"""
    if isinstance(d, Instant):
        return d
    off = d.utcoffset()
    e = d.replace(tzinfo=None) - datetime.datetime(2000, 1, 1) - (off or datetime.timedelta(0))
    return Instant(tm.t(e.days * 86400 + e.seconds + Fraction(e.microseconds, 10 ** 6)), off)


UNITS = (('days', 86400), ('seconds', 1), ('microseconds', Fraction(1, 10 ** 6)), ('milliseconds', Fraction(1, 1000)),
         ('minutes', 60), ('hours', 3600), ('weeks', 7 * 86400))


@contract('C19', 'iso-format')
def iso(E, I):
    """a time in seconds since 2000 is written as that instant of UTC"""
    def span(I, a, k):
        s = tm.t(0)
        for (n, u), v in [(x, v) for x, v in zip(UNITS, a)] + [((n, u), k[n]) for n, u in UNITS if n in k]:
            s = tm.add(s, tm.mul(tm.frac(u) if not isinstance(u, int) else tm.t(u), v))
        return Span(s)
    E.contracts[datetime.timedelta] = span
    t = tm.var('utc_secs', 'Real')
    r = run(I, iso_format, t)
    if not isinstance(r, IsoText) or r.how:
        raise Unsupported('time stamp %r' % (r,))
    E.prove('instant', tm.eq(r.s, t))
    E.prove('offset', r.off is not None and r.off == datetime.timedelta(0))


contract('C19', 'product-times', max_paths=20000)(whole_run(('C19',)))
