"""The real processor over an arbitrary input sequence.

Bursts delivered by the reader are numbered 0, 1, 2, ...; surfaces likewise in order of creation.  The two queues
are intervals of these sequences; every event (calibration, queueing, processing, writing, retiring) carries an
obligation on the numbers.  The invariant of the main loop is a finite set of abstract states, each describing
arbitrarily many concrete ones (see Interp.while_abs)."""
import ast
import datetime
import time
from .base import *
from pyvc.ext import Ext, Recorder
from pyvc.engine import Poison, PathEnd
from pyvc.interp import LoopSpec, Native, SIter, CtxMgr, BoundM
import dedop.proc.sar.processor as P
from dedop.proc.sar import L1BProcessor
from dedop.conf.enums import OutputFormat

STEPS = ('geometry_corrections', 'range_compression', 'stack_masking', 'multilooking', 'sigma_zero')

RESULTS = frozenset('''data_stack_size stack_bursts beams_surf beam_angles_surf doppler_angles_surf look_angles_surf pointing_angles_surf
    look_index_surf look_counter_surf closest_burst_index slant_range_corrections range_sat_surf doppler_corrections win_delay_corrections
    beams_geo_corr beams_range_compr beams_range_compr_iq beams_masked stack_mask_vector waveform_multilooked sigma0_scaling_factor
    stack_max stack_std stack_skewness stack_kurtosis start_look_angle stop_look_angle'''.split())      # the least a record needs


class Packet(Ext):
    types = (L1AProcessingData,)

    def __init__(self, W, j):
        self.W, self.j = W, tm.t(j)

    def __repr__(self):
        return 'burst(%r)' % (self.j,)

    def eq(self, I, o):
        return tm.eq(self.j, o.j) if isinstance(o, Packet) else False

    def attr(self, I, name):
        W = self.W
        if name == 'time_sar_ku':
            return W.T(self.j)
        if name in ('counter', 'source_seq_count', 'seq_count_sar'):
            return W.counter(self.j, name)
        if name == 'burst_processed':
            return tm.lt(self.j, W.m)
        raise Unsupported('burst.%s' % name)

    def setattr(self, I, name, v):
        W = self.W
        if name == 'burst_processed':
            if v is True:
                W.prove('C04', 'bursts-processed-in-order', tm.eq(self.j, W.m))
                W.m = tm.add(self.j, 1)
                return
            raise Unsupported('burst marked as not processed')
        if name in ('beams_focused', 'beam_angles_list', 'surfaces_seen_list', 'beam_angles_trend'):
            return
        raise Unsupported('burst.%s = ...' % name)


class Stack(Ext):
    types = (list,)

    def __init__(self, s):
        self.s = s

    def getitem(self, I, ix):
        W = self.s.W
        if tm.as_const(ix) == 0:
            return Packet(W, W.first(self.s.i))
        raise Unsupported('stack item')


class Surface(Ext):
    types = (SurfaceData,)

    def __init__(self, W, i):
        self.W, self.i = W, tm.t(i)

    def __repr__(self):
        return 'surface(%r)' % (self.i,)

    def eq(self, I, o):
        return tm.eq(self.i, o.i) if isinstance(o, Surface) else False

    def is_head(self):
        return tm.eq(self.i, self.W.h)

    def attr(self, I, name):
        W = self.W
        if name == 'data_stack_size':
            W.prove('C05', 'stack-size-known', W.gathered)
            return W.size(self.i)
        if name in ('stack_all_bursts', 'stack_bursts'):
            return Stack(self)
        if name == 'surface_counter':
            return self.i
        if name in ('compute_surf_sat_vector', 'compute_angular_azimuth_beam_resolution'):
            return Native(lambda *a: None, name)
        if name == 'focus_target_distance':
            return None
        raise Unsupported('surface.%s' % name)

    def setattr(self, I, name, v):
        W = self.W
        if name == 'data_stack_size':
            W.prove('C05', 'stack-size-of-this-surface', tm.eq(v, W.size(self.i)))
            W.prove('C05', 'head-surface', self.is_head())
            W.gathered = True
        W.stored = W.stored | {name}         # (that it is the result of the step: contracts step-* of C20)


class Queue(Ext):
    """items[a], ..., items[b-1]"""
    types = (list,)

    def __init__(self, W, which):
        self.W, self.which = W, which

    def __repr__(self):
        return '<queue of %s>' % self.which

    def ends(self):
        W = self.W
        return (W.a, W.nq) if self.which == 'bursts' else (W.h, W.t)

    def item(self, k):
        return Packet(self.W, k) if self.which == 'bursts' else Surface(self.W, k)

    def truth(self, I):
        a, b = self.ends()
        return self.W.E.branch(tm.lt(a, b))

    def length(self, I):
        a, b = self.ends()
        return tm.sub(b, a)

    def getitem(self, I, ix):
        a, b = self.ends()
        c = tm.as_const(ix) if not isinstance(ix, slice) else None
        if c is None:
            raise Unsupported('queue item')
        c = int(c)
        k = tm.add(a, c) if c >= 0 else tm.add(b, c)
        if not self.W.E.branch(tm.And(tm.le(a, k), tm.lt(k, b))):
            raise PyRaise(IndexError, 'list index out of range')
        return self.item(k)

    def delitem(self, I, ix):
        self.remove(I, ix)

    def remove(self, I, ix):
        W = self.W
        x = self.getitem(I, ix)
        if tm.as_const(ix) != 0:
            raise Unsupported('removal from the middle')
        if self.which == 'bursts':
            W.a = tm.add(W.a, 1)
        else:
            W.retire(x)
        return x

    def append(self, x):
        W = self.W
        if self.which == 'bursts':
            if not isinstance(x, Packet):
                raise Unsupported('queued %r' % (x,))
            W.prove('C04', 'queued-once-in-order', tm.eq(x.j, W.nq))
            W.prove('C04', 'calibrated-before-queued', tm.And(tm.eq(W.nc1, tm.add(x.j, 1)), tm.eq(W.nc2, tm.add(x.j, 1))))
            W.nq = tm.add(W.nq, 1)
        else:
            if not isinstance(x, Surface):
                raise Unsupported('queued %r' % (x,))
            W.prove('C05', 'surface-queued-once-in-order', tm.eq(x.i, W.t))
            W.t = tm.add(W.t, 1)

    def iterate(self, I):
        a, b = self.ends()
        it = SIter(tm.sub(b, a), lambda k: self.item(tm.add(a, tm.t(k))), True)
        if self.which == 'bursts':
            it.spec = self.W.burst_loop(a, b)
        return it

    def attr(self, I, name):
        nat = lambda f: Native(f, name)
        if name == 'append':
            return nat(self.append)
        if name == 'pop':
            return nat(lambda ix=-1: self.remove(I, ix))
        if name == 'clear':
            W = self.W

            def clear():
                if self.which == 'bursts':
                    W.a = W.nq
                else:
                    W.prove('C05', 'surfaces-dropped', tm.eq(W.h, W.t))
                    W.h = W.t
            return nat(clear)
        raise Unsupported('queue.%s' % name)


class Leftover(Ext):
    """queue as an earlier run left it"""
    types = (list,)

    def __init__(self, E, name):
        self.E, self.name, self.n = E, name, tm.var('leftover.' + name, 'Int')
        E.assume(tm.le(0, self.n))

    def truth(self, I):
        return self.E.branch(tm.lt(0, self.n))

    def length(self, I):
        return self.n

    def attr(self, I, name):
        if name == 'clear':
            def clear():
                self.n = tm.const(0)
            return Native(clear, name)
        raise Unsupported('queue.%s' % name)

    def delitem(self, I, ix):
        if isinstance(ix, slice) and ix == slice(None):
            self.n = tm.const(0)
            return
        raise Unsupported('queue deletion')


class Alg(Ext):
    """an algorithm object: its call is an event, its results are opaque"""

    def __init__(self, W, name):
        self.W, self.name = W, name
        self.fields = {}

    def __repr__(self):
        return '<%s>' % self.name

    def call(self, I, a, k):
        return self.W.step(self, I, a, k)

    def attr(self, I, name):
        if name in self.fields:
            return self.fields[name]
        if self.name == 'stack_gathering' and name == 'data_stack_size':
            return self.W.size(self.arg.i)
        if self.name == 'beam_angles' and name == 'work_location_seen':
            return self.seen
        if self.name == 'surface_locations' and name == 'get_surface':
            return Native(lambda: SDict(self.W.E, {'x_surf': Opaque('x')}), name)
        return Opaque('%s.%s' % (self.name, name))

    def setattr(self, I, name, v):
        self.fields[name] = v


class IsoTime(Ext):
    """text of the contract of iso_format (C19): the UTC instant t in seconds since 2000"""
    types = (str,)

    def __init__(self, t):
        self.t = t


class Writer(Ext):
    times = False

    def __init__(self, W, which):
        self.W, self.which, self.state = W, which, 'new'
        W.writers[which] = self

    def attr(self, I, name):
        W, E = self.W, self.W.E
        nat = lambda f: Native(f, name)
        if name == 'file_path':
            return 'file'
        if name == 'open':
            def open_():
                self.state = 'open'
            return nat(open_)
        if name == 'write_record':
            def write(s):
                if not isinstance(s, Surface):
                    raise Unsupported('record %r' % (s,))
                W.prove('C05', 'product-open', self.state == 'open')
                W.prove('C05', 'record-of-the-head-surface', s.is_head())
                W.prove('C05', 'one-record-per-surface', not W.written[self.which])
                W.prove('C05', 'all-steps-done', W.done == STEPS)
                W.prove('C20', 'results-stored', W.stored >= RESULTS)
                W.prove('C05', 'enough-looks', W.gathered and tm.le(tm.idiv(W.L, 2), W.size(s.i)))
                W.written[self.which] = True
            return nat(write)
        if name == 'write_globals':
            def globals_(**k):
                W.prove('C05', 'globals-of-an-open-product', self.state == 'open')
                for a, f in (('first_meas_time', 'first_time'), ('last_meas_time', 'last_time')):
                    v = k.get(a, MISS)
                    W.prove('C19', a, isinstance(v, IsoTime) and tm.eq(v.t, tm.var('input.' + f, 'Real')))
                self.times = True
            return nat(globals_)
        if name == 'close':
            def close():
                W.prove('C05', 'closed-once', self.state == 'open')
                W.prove('C19', 'times-given', self.times)
                self.state = 'closed'
            return nat(close)
        raise Unsupported('writer.%s' % name)


class Mon(Ext):
    def __init__(self, W, name):
        self.W, self.name = W, name

    def attr(self, I, name):
        W = self.W
        if name == 'is_cancelled':
            def f():
                if self.name == 'monitor' and W.E.branch(tm.boolvar(W.E.fresh('cancel'))):
                    W.cancelled = True
                    return True
                return False
            return Native(f, name)
        if name == 'child':
            return Native(lambda *a, **k: Mon(W, 'child'), name)
        if name == 'starting':
            return Native(lambda *a, **k: CtxMgr(lambda: self, lambda: None), name)
        if name in ('start', 'progress', 'done', 'cancel'):
            return Native(lambda *a, **k: None, name)
        raise Unsupported('monitor.%s' % name)


class Input(Ext):
    def __init__(self, W):
        self.W = W

    def attr(self, I, name):
        if name == 'file_path':
            return 'file'
        if name == 'read_globals':
            return Native(lambda: Globals(), name)
        if name in ('first_time', 'last_time'):
            return Native(lambda: tm.var('input.' + name, 'Real'), name)
        if name == '__next__':
            return Native(lambda: self.next(), name)
        raise Unsupported('input.%s' % name)

    def length(self, I):
        return self.W.E.fresh_nat('records')

    def next(self):
        W, E = self.W, self.W.E
        W.prove('C04', 'previous-burst-queued', tm.eq(W.nq, W.nd))
        if W.ended or E.branch(tm.boolvar(E.fresh('end'))):
            W.ended = True
            raise PyRaise(StopIteration)
        W.progressed = True
        if E.branch(tm.boolvar(E.fresh('skipped'))):
            return None
        j = W.nd
        W.nd = tm.add(W.nd, 1)
        return Packet(W, j)


class Globals(Ext):
    def attr(self, I, name):
        if name.startswith('get_'):
            return Native(lambda *a: Opaque(name), name)
        return Opaque(name)


def assigned_outside_init():
    """attributes of the processor set by methods other than the constructor"""
    import inspect
    import textwrap
    out = set()
    for nm, f in vars(L1BProcessor).items():
        if nm == '__init__' or not inspect.isfunction(f):
            continue
        for x in ast.walk(ast.parse(textwrap.dedent(inspect.getsource(f)))):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)) and isinstance(x.value, ast.Name) \
                    and x.value.id == 'self':
                out.add(x.attr)
    return out


class World:
    def __init__(self, E, I, props, used=False):
        self.E, self.I, self.props = E, I, props
        self.used = used
        self.conf = Conf(E, I)
        self.L = self.conf.L
        z = tm.const(0)
        self.nd = self.nc1 = self.nc2 = self.nq = self.a = self.h = self.t = self.m = self.an = self.az = z
        self.ended = self.cancelled = self.gathered = self.progressed = False
        self.done, self.stored = (), frozenset()
        self.written = {'l1b': False, 'l1bs': False}
        self.writers = {}
        self.bri = I.getattr(self.conf.chd, 'bri_sar')
        E.assume(tm.lt(0, self.bri))
        self.install()
        self.mk()

    # ---- symbols
    def T(self, j):
        return tm.app('burst.time', 'Real', tm.t(j))

    def size(self, i):
        z = tm.app('stack.size', 'Int', tm.t(i))
        self.E.assume(tm.le(0, z))
        return z

    def first(self, i):
        """first burst of the stack of a surface: it was processed, and is still queued (assumed: see DESIGN)"""
        f = tm.app('stack.first', 'Int', tm.t(i))
        self.E.assume([tm.le(self.a, f), tm.lt(f, self.m)])
        self.firsts.append(f)
        return f

    firsts = ()

    def counter(self, j, name):
        """record numbers of different bursts differ"""
        c = tm.app('burst.' + name, 'Int', j)
        for f in self.firsts:
            if f is not j:
                self.E.assume(tm.Or(tm.ne(c, tm.app('burst.' + name, 'Int', f)), tm.eq(j, f)))
        return c

    def prove(self, prop, name, goal):
        """an obligation that belongs to one property; under the others it is assumed"""
        if prop in self.props:
            self.E.prove(name, goal)
        if goal is not True:
            self.E.assume(goal)

    # ---- events
    def step(self, alg, I, a, k):
        E, n = self.E, alg.name
        if n in ('cal1', 'cal2'):
            p = a[0]
            if not isinstance(p, Packet):
                raise Unsupported('calibration of %r' % (p,))
            c = 'nc1' if n == 'cal1' else 'nc2'
            self.prove('C04', 'calibrated-once-in-order', tm.eq(p.j, getattr(self, c)))
            setattr(self, c, tm.add(getattr(self, c), 1))
            return None
        if n == 'surface_locations':
            return self.locate(I, a, k)
        if n == 'azimuth_processing':
            if not isinstance(a[0], Packet):
                raise Unsupported('azimuth processing of %r' % (a[0],))
            self.prove('C04', 'azimuth-processed-once-in-order', tm.eq(self.az, a[0].j))
            self.az = tm.add(a[0].j, 1)
            return None
        if n == 'beam_angles':
            alg.seen = E.branch(tm.boolvar(E.fresh('seen')))
            return None
        s = a[0]
        if not isinstance(s, Surface):
            raise Unsupported('%s of %r' % (n, s))
        self.prove('C05', 'surfaces-in-order', s.is_head())
        alg.arg = s
        if n == 'stack_gathering':
            self.prove('C05', 'gathered-once', not self.gathered)
            return None
        self.prove('C05', 'steps-in-order', n in STEPS and self.done == STEPS[:STEPS.index(n)])
        self.done = self.done + (n,)
        return Opaque(n)

    def locate(self, I, a, k):
        E = self.E
        force = k.get('force_new', a[2] if len(a) > 2 else False)
        force = I.truth(force)
        j = tm.sub(self.nq, 1)
        empty = not E.branch(tm.lt(self.h, self.t))
        start = force or empty
        if E.branch(tm.eq(self.nq, 1)):
            self.prove('C04', 'first-burst-starts-a-surface', start and empty)
        else:
            d = tm.sub(self.T(j), self.T(tm.sub(j, 1)))
            lim = tm.mul(tm.frac(1.5), self.bri)
            if E.branch(tm.lt(lim, d)):
                self.prove('C04', 'pending-surfaces-finished-at-gap', empty)
                self.prove('C04', 'new-surface-after-gap', start)
            elif E.branch(tm.lt(d, lim)):
                self.prove('C04', 'no-restart-without-gap', not start)
        if start:
            return True
        return E.branch(tm.boolvar(E.fresh('new')))

    def retire(self, s):
        self.prove('C05', 'surfaces-in-order', s.is_head())
        self.prove('C05', 'taken-up', self.gathered)
        full = self.E.branch(tm.le(tm.idiv(self.L, 2), self.size(s.i)))
        l1bs = 'l1bs' in self.writers
        self.prove('C05', 'in-every-product-or-none', self.written == {'l1b': full, 'l1bs': full and l1bs})
        self.h = tm.add(self.h, 1)
        self.gathered, self.done, self.stored = False, (), frozenset()
        self.written = {'l1b': False, 'l1bs': False}
        self.progressed = True

    # ---- loops
    def burst_loop(self, a, b):
        W, E = self, self.E

        def havoc(L):
            m0 = W.m
            W.m = W.an = W.az = E.fresh_int('m')
            E.assume([tm.le(m0, W.m), tm.le(W.m, b), tm.le(tm.add(a, L.k), W.m),
                      tm.Or(tm.eq(W.m, m0), tm.eq(W.m, tm.add(a, L.k)))])
            L.m0 = m0
            W.proc_fields()

        def inv(L):
            return [('processed-prefix', tm.And(tm.le(tm.add(a, L.k), W.m), tm.le(W.m, b))), W.in_step()] + (
                [('processed', tm.Or(tm.eq(W.m, L.m0), tm.eq(W.m, tm.add(a, L.k))))] if hasattr(L, 'm0') else [])
        return LoopSpec(havoc, inv, assume=lambda L: [])

    def in_step(self):
        return 'processed-is-attributed-and-azimuth-processed', tm.And(tm.eq(self.an, self.m), tm.eq(self.az, self.m))

    def proc_fields(self):
        for f in ('beam_angles_list_size_prev', 'beam_angles_trend_prev'):
            self.proc.set(f, self.E.fresh_int(f))

    def clear_loop(self):
        """loop that discards bursts from the front of the queue"""
        W, E = self, self.E
        f = None

        def havoc(L):
            L.a0 = W.a
            W.a = E.fresh_int('a')
            E.assume([tm.le(L.a0, W.a), tm.le(W.a, W.first(W.h))])

        def inv(L):
            return [('first-burst-kept', tm.le(W.a, W.first(W.h)) if not hasattr(L, 'a0') else
                     tm.And(tm.le(L.a0, W.a), tm.le(W.a, tm.app('stack.first', 'Int', W.h))))]
        return LoopSpec(havoc, inv, assume=lambda L: [])

    def abs_loop(self, fr, s):
        if not fr.fn.__module__.startswith('dedop.proc.sar.processor'):
            return None
        if self.main is None or self.main == id(s):
            self.main = id(s)
            return self
        return self.clear_loop()

    main = None

    # ---- setup
    def install(self):
        E, I, W = self.E, self.I, self
        C = E.contracts
        conf = {ConstantsFile: self.conf.cst, CharacterisationFile: self.conf.chd, ConfigurationFile: self.conf.cnf}
        for cls, o in conf.items():
            C[cls] = lambda I, a, k, o=o: o
        for nm in ('SurfaceLocation', 'BeamAngles', 'AzimuthProcessing', 'StackGathering', 'GeometryCorrections',
                   'RangeCompression', 'StackMasking', 'Multilooking'):
            low = ''.join('_' + c.lower() if c.isupper() else c for c in nm).strip('_')
            low = {'surface_location': 'surface_locations'}.get(low, low)
            C[getattr(P, nm + 'Algorithm')] = lambda I, a, k, low=low: Alg(W, low)
        C[P.Sigma0ScalingFactorAlgorithm] = lambda I, a, k: Alg(W, 'sigma_zero')
        C[P.CAL1Algorithm] = lambda I, a, k: Alg(W, 'cal1')
        C[P.CAL2Algorithm] = lambda I, a, k: Alg(W, 'cal2')
        C[P.L1ADataset] = lambda I, a, k: Input(W)
        C[P.L1BWriter] = C[P.L1BWriterExtended] = lambda I, a, k: Writer(W, 'l1b')
        C[P.L1BSWriter] = lambda I, a, k: Writer(W, 'l1bs')

        def surf(I, a, k):
            n = a[2] if len(a) > 2 else k.get('surface_counter')
            W.prove('C05', 'surface-number', tm.eq(n, W.t))
            return Surface(W, W.t)
        C[P.SurfaceData] = surf

        def nxt(I, a, k):
            try:
                if isinstance(a[0], Input):
                    return a[0].next()
            except PyRaise as e:
                if e.etype is StopIteration and len(a) > 1:
                    return a[1]
                raise
            raise Unsupported('next')
        C[next] = nxt
        C[P.iso_format] = lambda I, a, k: IsoTime(tm.t(a[0])) if a and a[0] is not None else Opaque('now')
        for f in (P.getlibversion, time.time, datetime.timedelta, print):
            C[f] = lambda I, a, k, f=f: (tm.var(E.fresh('clock'), 'Real') if f is time.time else None if f is print
                                         else Opaque('text'))

        def angles(I, a, k):
            """contract of L1BProcessor.beam_angles (C09)"""
            me, surfaces, packet, working = a[:4]
            W.prove('C04', 'attributed-once-in-order', tm.eq(W.an, packet.j))
            W.an = tm.add(packet.j, 1)
            W.prove('C05', 'surfaces-in-order', working.is_head())
            W.proc_fields()
            I.getattr(me, 'beam_angles_algorithm').seen = E.branch(tm.boolvar(E.fresh('seen')))
        C[L1BProcessor.beam_angles] = angles
        for nm in ('wv_length_ku', 'chirp_slope_ku'):
            C[vars(CharacterisationFile)[nm].fget] = lambda I, a, k, nm=nm: tm.var(nm, 'Real')
        self.firsts = []
        E.abs_loop = self.abs_loop
        E.assume(tm.lt(1, tm.var('min_surfs', 'Int')))

    def mk(self):
        E, I = self.E, self.I
        l1bs = E.choice('with-l1bs')
        self.l1bs = l1bs
        self.proc = SObj(E, L1BProcessor, 'processor', fields={})
        I.call(L1BProcessor.__init__, (self.proc, 'name', 'cnf', 'cst', 'chd', '/out'), {'skip_l1bs': not l1bs})
        ms = self.proc.get('min_surfs')
        self.E.prove('enough-surfaces-before-processing', tm.le(2, ms))
        self.fresh_fields = {k: self.proc.get(k) for k in ('surfaces_count', 'beam_angles_list_size_prev',
                                                          'beam_angles_trend_prev')}
        if self.used:
            for k in assigned_outside_init():
                self.proc.set(k, tm.var('earlier.' + k, 'Int') if k in self.fresh_fields else Poison('earlier ' + k))
            for k in ('_surfaces', '_packets'):
                self.proc.set(k, Leftover(E, k))
            I.getattr(self.proc, 'surface_locations_algorithm').fields['focus_found'] = tm.boolvar('earlier.focus_found')

    # ---- the abstract loop contract
    def capture(self, L, entry):
        E = self.E
        if entry:
            for k in ('_surfaces', '_packets'):
                q = self.proc.get(k)
                n = q.length(self.I) if isinstance(q, Ext) else q.length() if isinstance(q, SList) else None
                if n is None:
                    raise Unsupported('queue %r' % (q,))
                self.prove('C06', 'starts-empty' + k, tm.eq(n, 0))
            for k, v in self.fresh_fields.items():
                g = self.proc.get(k)
                if isinstance(g, Poison):
                    self.prove('C06', 'start-value-' + k, False)
                else:
                    self.prove('C06', 'start-value-' + k, tm.eq(g, v))
            ff = I_get(self.I, self.proc, 'surface_locations_algorithm').fields.get('focus_found', False)
            self.prove('C06', 'not-focused-yet', ff is False if not isinstance(ff, F) else tm.Not(ff))
            self.prove('C06', 'new-products', all(w.state == 'open' for w in self.writers.values()) and
                       ('l1bs' in self.writers) == self.l1bs)
            if self.used:
                for k in ('l1a_file', 'l1b_file', 'l1bs_file'):
                    self.prove('C06', 'new-' + k, not isinstance(self.proc.get(k), Poison))
                # from here on the run is the run of a new processor
                raise PathEnd('same state as with a new processor')
        else:
            self.prove('C04', 'progress', self.progressed or self.nq is not self.n0 or not self.running(L))
            for k in ('_surfaces', '_packets'):
                if not isinstance(self.proc.get(k), Queue):
                    raise Unsupported('queue replaced')
        self.prove('C04', *self.in_step())
        self.prove('C04', 'no-burst-dropped-unprocessed', tm.le(self.a, self.m))
        E.prove('loop.bounds', tm.And(tm.le(self.m, self.nq), tm.le(self.h, self.t), tm.le(self.t, self.nq)))
        key = [('ended', self.ended), ('cancelled', self.cancelled), ('gathered', self.gathered), ('done', self.done), ('stored', self.stored),
               ('written', tuple(sorted(self.written.items()))), ('nonempty', E.branch(tm.lt(self.h, self.t))),
               ('count', self.const(tm.sub(self.proc.get('surfaces_count'), self.t))),
               ('none-yet', E.branch(tm.eq(self.nq, 0))),
               ('writers', tuple(sorted((k, w.state) for k, w in self.writers.items())))]
        for n in ('nc1', 'nc2', 'nq'):
            key.append((n, self.const(tm.sub(getattr(self, n), self.nd))))
        key.append(('gap', key[-1][1] == -1 and E.branch(self.gap())))
        for nm in sorted(L.live):
            key.append((nm, self.abstract(L.loc.get(nm, MISS))))
        return tuple(key)

    def gap(self):
        """between the last two bursts delivered"""
        d = tm.sub(self.T(tm.sub(self.nd, 1)), self.T(tm.sub(self.nd, 2)))
        return tm.le(tm.mul(tm.frac(1.5), self.bri), d)

    def running(self, L):
        return True

    def const(self, d):
        c = tm.as_const(d) if isinstance(d, T) else d
        if c is None:
            raise Unsupported('loop counters out of step')
        return int(c)

    def abstract(self, v):
        E = self.E
        if v is MISS:
            return 'unset'
        if v is None or isinstance(v, bool):
            return v
        if isinstance(v, F):
            return E.branch(v)
        if isinstance(v, Packet):
            c = tm.as_const(tm.sub(v.j, self.nd))
            return ('burst', int(c)) if c is not None else ('burst', None)
        if isinstance(v, Mon):
            return 'monitor'
        if isinstance(v, (T, int, Fraction, float)):
            v = tm.t(v)
            if v.sort == 'Real':
                for lb, j in (('last', tm.sub(self.nq, 1)), ('delivered', tm.sub(self.nd, 1))):
                    if v is self.T(j) or tm.as_const(tm.sub(v, self.T(j))) == 0:
                        return 'time-' + lb
                return 'real'
            return 'int'
        return 'other'

    def restore(self, L, key):
        E, d = self.E, dict(key)
        self.nd = E.fresh_nat('delivered')
        for n in ('nc1', 'nc2', 'nq'):
            setattr(self, n, tm.add(self.nd, d[n]))
        self.n0 = self.nq
        if d['none-yet']:
            E.assume(tm.eq(self.nq, 0))
        else:
            E.assume(tm.lt(0, self.nq))
        if d['nq'] == -1:
            E.assume(self.gap() if d['gap'] else tm.Not(self.gap()))
        self.h = E.fresh_nat('retired')
        self.t = E.fresh_int('created') if d['nonempty'] else self.h
        if d['nonempty']:
            E.assume(tm.lt(self.h, self.t))
        E.assume(tm.le(self.t, self.nq))
        self.a, self.m = E.fresh_nat('oldest'), E.fresh_int('processed')
        self.an = self.az = self.m
        E.assume([tm.le(self.a, self.m), tm.le(self.m, self.nq)])
        self.ended, self.cancelled, self.gathered, self.done, self.stored = (d[x] for x in ('ended', 'cancelled', 'gathered', 'done', 'stored'))
        self.written = dict(d['written'])
        for k, st in d['writers']:
            if k not in self.writers:
                E.assume(False)
            self.writers[k].state = st
        if len(d['writers']) != len(self.writers):
            E.assume(False)
        self.progressed = False
        self.proc_fields()
        self.proc.set('surfaces_count', tm.add(self.t, d['count']))
        self.proc.set('_surfaces', Queue(self, 'surfaces'))
        self.proc.set('_packets', Queue(self, 'bursts'))
        for nm in L.live:
            v = d[nm]
            if v == 'unset':
                L.loc.pop(nm, None)
            elif v is None or isinstance(v, bool):
                L.loc[nm] = v
            elif isinstance(v, tuple):
                if v[1] is None:
                    j = E.fresh_nat('burst')
                    E.assume(tm.lt(j, self.nd))
                else:
                    j = tm.add(self.nd, v[1])
                L.loc[nm] = Packet(self, j)
            elif v == 'monitor':
                L.loc[nm] = Mon(self, 'child')
            elif v == 'int':
                L.loc[nm] = E.fresh_int(nm)
            elif v == 'real':
                L.loc[nm] = E.fresh_real(nm)
            elif v == 'time-last':
                L.loc[nm] = self.T(tm.sub(self.nq, 1))
            elif v == 'time-delivered':
                L.loc[nm] = self.T(tm.sub(self.nd, 1))

    def leave(self, L):
        pass


MISS = object()


def I_get(I, o, n):
    return I.getattr(o, n)


def whole_run(props, used=False):
    def check(E, I):
        W = World(E, I, props, used)
        try:
            e, r = raises(E, I, method(I, W.proc, 'process'), 'L1A_x.nc', Mon(W, 'monitor'))
        finally:
            E.abs_loop = None
        if e is not None:
            # giving up is allowed only when the whole input is too short to start with
            for p in ('C04', 'C05'):
                W.prove(p, 'gave-up-only-on-too-short-input',
                        False if e is not Exception or not W.ended else tm.And(tm.eq(W.h, 0), tm.eq(W.nq, W.nd)))
            return
        if W.cancelled:
            E.prove('cancelled', True)
            return
        W.prove('C04', 'whole-input-consumed', W.ended)
        W.prove('C04', 'every-burst-queued', tm.eq(W.nq, W.nd))
        W.prove('C04', 'every-burst-calibrated', tm.And(tm.eq(W.nc1, W.nd), tm.eq(W.nc2, W.nd)))
        W.prove('C05', 'no-surface-left', tm.eq(W.h, W.t))
        W.prove('C05', 'products-closed', all(w.state == 'closed' for w in W.writers.values()) and
                ('l1bs' in W.writers) == W.l1bs)
    return check
