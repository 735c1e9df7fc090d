from .base import *
from . import geo
import ast
from pyvc.interp import LoopSpec, assigned_names
from dedop.proc.sar.algorithms import BeamAnglesAlgorithm as A
from dedop.proc.sar.processor import L1BProcessor
import dedop.proc.sar.algorithms.beam_angles as bam

XYZ = 'xyz'
N, F0, E0, C0 = [tm.var(x, 'Int') for x in ('n.surfaces', 'run.first', 'run.end', 'counter0')]


def R(name, *i):
    return tm.app(name, 'Real', *i)


def angle(i):
    """angle between the velocity of burst `cur` and the line of sight to surface i"""
    d = [tm.sub(R('s.%s_surf' % x, i), R('cur.%s_sar_sat' % x)) for x in XYZ]
    v = [R('cur.vel%d' % j) for j in range(3)]
    return tm.generic('acos', tm.div(geo.dot(d, v), tm.mul(tm.sqrt(geo.dot(d, d)), tm.sqrt(geo.dot(v, v)))))


def qmin(c):
    v = [R('cur.vel%d' % j) for j in range(3)]
    return tm.generic('acos', tm.div(tm.mul(cst('c'), chd('prf_sar')),
                                     tm.mul(tm.mul(4, chd('freq_ku')), tm.sqrt(geo.dot(v, v)))))


def seen(c, i):
    a = tm.sub(angle(i), R('cur.doppler_angle_sar_sat'))
    return tm.And(tm.le(qmin(c), a), tm.le(a, tm.sub(tm.PI, qmin(c))))


def surf(E, c, i):
    return surf_at(E, c, 's', i, {'_surface_counter': lambda j: tm.add(C0, j)})


def world(E, I):
    c = Conf(E, I)
    use_speed_contract(E, I)
    v = [R('cur.vel%d' % j) for j in range(3)]
    E.assume([tm.le(0, F0), tm.le(F0, E0), tm.le(E0, N), tm.lt(0, c.P), tm.lt(0, geo.dot(v, v)), tm.le(0, C0)])
    # every surface lies away from the satellite
    return c


def nonempty(E, c, k):
    d = [tm.sub(R('s.%s_surf' % x, k), R('cur.%s_sar_sat' % x)) for x in XYZ]
    E.assume(tm.lt(0, geo.dot(d, d)))


def definition(E, c, k):
    """[F0, E0) is the first contiguous run of visible surfaces: what that says about surface k <= E0, k < N"""
    nonempty(E, c, k)
    if E.branch(tm.lt(k, F0)):
        E.assume(tm.Not(seen(c, k)))
    elif E.branch(tm.lt(k, E0)):
        E.assume(seen(c, k))
    else:
        E.assume(tm.Not(seen(c, k)))


def count(E, c, k):
    """number of list entries after k surfaces"""
    if not E.branch(tm.lt(F0, k)):
        return tm.const(0)
    return c.P if E.branch(tm.lt(c.P, tm.sub(k, F0))) else tm.sub(k, F0)


def matches(E, c, lst, k, val, nm, length=None):
    m = length(k) if length else count(E, c, k)
    E.prove(nm + '.length', tm.eq(lst.length(), m))
    if not E.branch(tm.eq(lst.length(), m)):
        return
    j = tm.var(E.fresh('j'), 'Int')
    if E.branch(tm.And(tm.le(0, j), tm.lt(j, m))):
        E.prove(nm + '.element', tm.eq(lst.get(j), val(tm.add(tm.sub(k, m), j))))


@contract('C09', 'visible-run', variants=2)
def visible(E, I):
    c = world(E, I)
    a = instance(E, I, A, c)
    b = burst(E, c, 'cur')
    w = tm.var('work.index', 'Int')
    E.assume([tm.le(0, w), tm.lt(w, N)])
    # a run is empty only if no surface is visible
    E.assume(tm.Or(tm.lt(F0, E0), tm.eq(F0, N)))
    sl = SList(E, length=N, fn=lambda i: surf(E, c, tm.t(i)))
    nxt = lambda i: tm.add(C0, i)
    lists = (('beam_angles', angle), ('surfaces_seen', nxt))

    last = {}

    def during(k):
        """list length inside the loop: limited as it grows, or (variant) only at the end"""
        if E.variant:
            return tm.sub(k, F0) if E.branch(tm.lt(F0, k)) else tm.const(0)
        return count(E, c, k)

    def entry(L):
        L.carried = sorted(nm for nm, v in L.frame.loc.items()
                           if isinstance(v, bool) and nm in L.assigned)

    def havoc(L):
        k = last['k'] = L.k
        E.assume(tm.le(k, E0))
        m = during(k)
        for nm, val in lists:
            if not isinstance(I.getattr(a, nm), SList):
                raise Unsupported('%s is not a list' % nm)
            I.setattr(a, nm, SList(E, length=m, fn=lambda j, val=val, k=k, m=m: val(tm.add(tm.sub(k, m), j))))
        I.setattr(a, 'work_location_seen', E.branch(tm.And(tm.le(F0, w), tm.lt(w, k))))
        for nm in L.carried:
            L.frame.loc[nm] = E.branch(tm.lt(F0, k))
        if E.branch(tm.lt(k, N)):
            definition(E, c, k)

    def inv(L):
        k = L.k
        E.prove('within-run', tm.le(k, E0))
        for nm in L.carried:
            v = L.frame.loc.get(nm)
            if not isinstance(v, (bool, tm.F)):
                raise Unsupported('loop variable %s' % nm)
            E.prove('carried.' + nm, tm.Iff(v, tm.lt(F0, k)))
        E.prove('work-seen', tm.Iff(I.getattr(a, 'work_location_seen'), tm.And(tm.le(F0, w), tm.lt(w, k))))
        for nm, val in lists:
            matches(E, c, I.getattr(a, nm), k, val, nm, during)
        return []
    E.loops[(A.__call__.__qualname__, 0)] = LoopSpec(havoc, inv, entry=entry, assume=lambda L: [])
    run(I, a, sl, b, surf(E, c, w))
    E.prove('work-seen', tm.Iff(I.getattr(a, 'work_location_seen'), tm.And(tm.le(F0, w), tm.lt(w, E0))))
    if 'k' not in last:
        raise Unsupported('the loop over the surfaces was not met')
    E.lemma('whole-run', tm.eq(last['k'], E0))
    for nm, val in lists:
        matches(E, c, I.getattr(a, nm), last['k'], val, nm)


@contract('C09', 'attribution')
def attribution(E, I):
    """each surface of the list delivered by the algorithm, and no other, records the burst at its own position"""
    c = world(E, I)
    c.P
    m, b0 = tm.var('list.length', 'Int'), tm.var('list.first', 'Int')
    E.assume([tm.le(0, m), tm.le(m, c.P), tm.le(0, b0), tm.le(tm.add(b0, m), N)])
    sl = SList(E, length=N, fn=lambda i: surf(E, c, tm.t(i)))
    a = instance(E, I, A, c)
    pk = burst(E, c, 'cur')
    seen_l = lambda n: SList(E, length=m, fn=lambda j: tm.add(C0, tm.add(b0, j)))
    work = surf(E, c, tm.const(0))

    def algo(I, args, kw):
        if args[0] is not a or args[1] is not sl or args[2] is not pk or args[3] is not work:
            raise Unsupported('beam angles of other objects')
        I.setattr(a, 'beam_angles', SList(E, length=m, fn=lambda j: tm.app('angle', 'Real', tm.t(j))))
        I.setattr(a, 'surfaces_seen', seen_l(m))
        I.setattr(a, 'work_location_seen', tm.boolvar('work.seen'))
    E.contracts[A.__call__] = algo
    ps, pt = tm.var('prev.size', 'Int'), tm.var('prev.trend', 'Int')

    def history(size, tr):
        # what _process starts with (-1, -1) and every burst re-establishes: the trend is 0 exactly when the list is full
        return [tm.le(-1, size), tm.le(size, c.P), tm.le(-1, tr), tm.le(tr, 1), tm.Iff(tm.eq(tr, 0), tm.eq(size, c.P))]
    E.assume(history(ps, pt))
    p = SObj(E, L1BProcessor, 'processor', lazy=lambda k: {
        'beam_angles_algorithm': a, 'cst': c.cst, 'chd': c.chd, 'cnf': c.cnf, 'beam_angles_list_size_prev': ps,
        'beam_angles_trend_prev': pt}.get(k, SDict.MISSING))
    log = SObj(E, object, 'attributions', lazy=lambda k: {'idx': SList(E, []), 'burst': SList(E, [])}.get(k, SDict.MISSING))

    def index_of(s):
        k = tm.sub(I.getattr(s, 'surface_counter'), C0)
        return k

    def trend():
        size_full = tm.eq(m, c.P)
        return tm.ite(size_full, tm.const(0), tm.ite(tm.Or(tm.eq(ps, -1), tm.lt(ps, m)), tm.const(1),
                                                     tm.ite(tm.lt(m, ps), tm.const(-1), pt)))

    def add_index(I, args, kw):
        s, bi, tr, size = args
        E.prove('trend', tm.eq(tr, trend()))
        E.prove('size', tm.eq(size, m))
        l = I.getattr(log, 'idx')
        l.append((index_of(s), bi))

    def add_burst(I, args, kw):
        s, pb = args
        E.prove('burst', pb is pk)
        l = I.getattr(log, 'burst')
        l.append((index_of(s), index_of(s)))
    E.contracts[SurfaceData.add_stack_beam_index] = add_index
    E.contracts[SurfaceData.add_stack_burst] = add_burst
    st = {}

    def ints(L):
        return sorted(nm for nm, v in L.frame.loc.items() if isinstance(v, int) and not isinstance(v, bool) or
                      isinstance(v, tm.T) and v.sort == 'Int')

    def entry(L):
        L.carried = [nm for nm in ints(L) if nm in L.assigned and tm.as_const(L.frame.loc[nm]) == 0]

    def pos(k):
        """where the search for the k-th seen surface starts"""
        return tm.const(0) if E.branch(tm.eq(k, 0)) else tm.add(b0, k)

    def havoc(L):
        k = L.k
        for nm, f in (('idx', lambda j: (tm.add(b0, j), j)), ('burst', lambda j: (tm.add(b0, j),) * 2)):
            I.setattr(log, nm, SList(E, length=k, fn=f))
        for nm in L.carried:
            L.frame.loc[nm] = pos(k)

    def check(k):
        for nm in ('idx', 'burst'):
            l = I.getattr(log, nm)
            E.prove(nm + '.number', tm.eq(l.length(), k))
            j = tm.var(E.fresh('j'), 'Int')
            if E.branch(tm.And(tm.le(0, j), tm.lt(j, k))) and E.branch(tm.eq(l.length(), k)):
                g = l.get(j)
                E.prove(nm + '.surface', tm.eq(g[0], tm.add(b0, j)))
                E.prove(nm + '.position', tm.eq(g[1], j if nm == 'idx' else tm.add(b0, j)))

    def inv(L):
        for nm in L.carried:
            v = L.frame.loc.get(nm)
            if not isinstance(v, (int, tm.T)):
                raise Unsupported('loop variable %s' % nm)
            E.prove('carried.' + nm, tm.eq(v, pos(L.k)))
        check(L.k)
        return []
    E.loops[(L1BProcessor.beam_angles.__qualname__, 0)] = LoopSpec(havoc, inv, entry=entry, assume=lambda L: [])

    # inner search: no match up to position k of the slice; the counter moves with it
    def entry2(L):
        asg = L.assigned
        L.carried = {nm: L.frame.loc[nm] for nm in ints(L) if nm in asg}
        L.logs = {nm: I.getattr(log, nm).length() for nm in ('idx', 'burst')}
        # the searched sequence is some tail of the queue: where it starts is read off its first element
        first = L.it.item(tm.const(0))
        for s in (first if isinstance(first, tuple) else (first,)):
            if isinstance(s, SObj) and s.cls is SurfaceData:
                break
        else:
            raise Unsupported('the search is not over surfaces')
        L.limit = tm.sub(tm.add(b0, L.logs['idx']), index_of(s))
        E.prove('search-starts-before', tm.le(0, L.limit))

    def moved(L, nm, v):
        # a counter of the search moves with it unless it is only set when the surface is found
        top = [x for x in L.stmt.body if not isinstance(x, ast.If)]
        return tm.add(v, L.k) if nm in assigned_names(top) else v

    def havoc2(L):
        for nm, v in L.carried.items():
            L.frame.loc[nm] = moved(L, nm, v)

    def inv2(L):
        out = [('not-passed', tm.le(L.k, L.limit))]
        for nm, v in L.carried.items():
            w = L.frame.loc.get(nm)
            if not isinstance(w, (int, tm.T)):
                raise Unsupported('loop variable %s' % nm)
            out.append(('carried.' + nm, tm.eq(w, moved(L, nm, v))))
        for nm in ('idx', 'burst'):
            out.append((nm + '.untouched', tm.eq(I.getattr(log, nm).length(), L.logs[nm])))
        return out
    E.loops[(L1BProcessor.beam_angles.__qualname__, 1)] = LoopSpec(havoc2, inv2, entry=entry2)
    run(I, method(I, p, 'beam_angles'), sl, pk, work)
    check(m)
    for nm, want in (('beam_angles_list', lambda j: tm.app('angle', 'Real', j)), ('surfaces_seen_list', lambda j: tm.add(C0, tm.add(b0, j)))):
        l = I.getattr(pk, nm)
        E.prove(nm + '.length', tm.eq(l.length(), m))
        j = tm.var(E.fresh('j'), 'Int')
        if E.branch(tm.And(tm.le(0, j), tm.lt(j, m))):
            E.prove(nm + '.element', tm.eq(l.get(j), want(j)))
    E.prove('trend-stored', tm.eq(I.getattr(pk, 'beam_angles_trend'), trend()))
    E.prove('next-size', tm.eq(I.getattr(p, 'beam_angles_list_size_prev'), m))
    E.prove('next-trend', tm.eq(I.getattr(p, 'beam_angles_trend_prev'), trend()))
    for f in history(I.getattr(p, 'beam_angles_list_size_prev'), I.getattr(p, 'beam_angles_trend_prev')):
        E.prove('next-history', f)


@contract('C09', 'each-burst-its-own')
def apart(E, I):
    """the lists kept with a burst do not change when the next burst is processed"""
    c = Conf(E, I)
    a = instance(E, I, A, c)
    p = SObj(E, L1BProcessor, 'processor', fields={'beam_angles_list_size_prev': -1, 'beam_angles_trend_prev': -1}, lazy=lambda k: {
        'beam_angles_algorithm': a, 'cst': c.cst, 'chd': c.chd, 'cnf': c.cnf}.get(k, SDict.MISSING))
    use_speed_contract(E, I)
    for f in ('beam_angles', 'surfaces_seen'):
        I.setattr(a, f, SList(E, length=tm.var('earlier', 'Int'), fn=lambda i: tm.app('earlier', 'Real', i)))
    E.assume(tm.le(0, tm.var('earlier', 'Int')))
    kept = []
    for nm in ('b1', 'b2'):
        b = burst(E, c, nm, over={'doppler_angle_sar_sat': tm.var(nm + '.doppler', 'Real')})
        E.assume(tm.lt(0, vnorm2(nm)))
        run(I, method(I, p, 'beam_angles'), SList(E, []), b, surface(E, c))
        kept.append([I.getattr(b, f) for f in ('beam_angles_list', 'surfaces_seen_list')])
        for l in kept[-1]:
            E.prove('empty', tm.eq(I.call(len, (l,)), 0))
    E.prove('apart', not any(x is y for x in kept[0] for y in kept[1]))


@contract('C09', 'look-index')
def look_index(E, I):
    """a surface appends the position, the re-centred position and the burst, and nothing else"""
    c = Conf(E, I)
    s = surface(E, c)
    l0 = {nm: SList(E, [tm.var(nm + '0', 'Int')]) for nm in ('stack_all_beams_indices', 'stack_all_beams_indices_abs', 'stack_all_bursts')}
    for nm, v in l0.items():
        I.setattr(s, nm, v)
    bi, tr, m = [tm.var(x, 'Int') for x in ('position', 'trend', 'size')]
    pk = burst(E, c, 'cur')
    # what beam_angles passes: a position in the burst's list, and trend 0 exactly for a full list
    E.assume([tm.le(0, bi), tm.lt(bi, m), tm.le(m, c.P), tm.le(-1, tr), tm.le(tr, 1), tm.Iff(tm.eq(tr, 0), tm.eq(m, c.P))])
    run(I, method(I, s, 'add_stack_beam_index'), bi, tr, m)
    run(I, method(I, s, 'add_stack_burst'), pk)
    half = tm.idiv(c.P, tm.const(2))
    want = tm.ite(tm.eq(tr, 1), tm.sub(tm.sub(tm.add(bi, c.P), m), half), tm.sub(bi, half))
    for nm, w in (('stack_all_beams_indices', bi), ('stack_all_beams_indices_abs', want), ('stack_all_bursts', pk)):
        l = I.getattr(s, nm)
        E.prove(nm + '.length', tm.eq(l.length(), 2))
        if nm != 'stack_all_bursts':
            E.prove(nm + '.kept', tm.eq(l.get(0), tm.var(nm + '0', 'Int')))
            E.prove(nm + '.appended', tm.eq(l.get(1), w))
        else:
            E.prove(nm + '.appended', l.get(1) is pk)
