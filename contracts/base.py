"""Symbolic inputs shared by the contracts: configuration objects, bursts, surfaces, arrays."""
import sys
from fractions import Fraction
import numpy as np
from pyvc import terms as tm
from pyvc.terms import T, F, Cx, Str
from pyvc.engine import Arr, SList, SDict, SObj, Opaque, Unsupported, PyRaise
from pyvc.models import SymEnum
from pyvc.verify import contract
from dedop.conf import CharacterisationFile, ConstantsFile, ConfigurationFile
from dedop.conf.auxiliary_parameter import AuxiliaryParameter, AuxiliaryParameterArray
from dedop.model import PacketPid, SurfaceType
from dedop.model import SurfaceData, L1AProcessingData

ENUMS = {'isp_pid': PacketPid, 'surface_type': SurfaceType}
INTS = {'n_samples_sar', 'n_ku_pulses_burst', 'zp_fact_range', 'n_looks_stack', 'flag_cal2_table_index',
        'data_stack_size', 'closest_burst_index'}
BOOLS = {'flag_cal2_correction', 'flag_uso_correction', 'flag_cal1_corrections', 'flag_cal1_intraburst_corrections',
         'flag_surface_focusing', 'flag_doppler_range_correction', 'flag_slant_range_correction', 'flag_stack_masking',
         'flag_avoid_zeros_in_multilooking', 'flag_surface_weighting', 'flag_antenna_weighting',
         'flag_postphase_azimuth_processing'}


def scalar(name):
    return tm.var(name, 'Int') if name.split('.')[-1] in INTS else tm.var(name, 'Real')


class Conf:
    """chd, cst, cnf with arbitrary parameter values"""

    def __init__(self, E, I, over=None):
        over = over or {}
        self.E = E

        def lazy(pre, cls):
            def f(attr):
                if attr in over:
                    return over[attr]
                s = I.static(cls, attr)
                if isinstance(s, AuxiliaryParameterArray):
                    n = s.shape[0] if s.shape else tm.var(attr + '.n', 'Int')
                    return arr(E, pre + attr, (n,))
                if isinstance(s, AuxiliaryParameter):
                    if attr in BOOLS:
                        return tm.boolvar(pre + attr)
                    if pre == 'cst.' and attr == 'pi':
                        return tm.PI
                    return scalar(pre + attr)
                if pre == 'chd.' and attr == 'cst':
                    return self.cst
                if attr in ('_wv_length_ku', '_chirp_slope_ku'):
                    return None
                return SDict.MISSING
            return f
        self.cst = SObj(E, ConstantsFile, 'cst', lazy=lazy('cst.', ConstantsFile))
        self.chd = SObj(E, CharacterisationFile, 'chd', lazy=lazy('chd.', CharacterisationFile))
        self.cnf = SObj(E, ConfigurationFile, 'cnf', lazy=lazy('cnf.', ConfigurationFile))
        self.N = scalar('chd.n_samples_sar') if 'n_samples_sar' not in over else over['n_samples_sar']
        self.P = scalar('chd.n_ku_pulses_burst')
        self.zp = scalar('cnf.zp_fact_range')
        self.L = scalar('cnf.n_looks_stack')
        E.assume([tm.lt(0, self.N), tm.lt(0, self.P), tm.lt(0, self.zp), tm.lt(0, self.L)])

    def args(self):
        return (self.chd, self.cst, self.cnf)


def cst(name):
    return tm.var('cst.' + name, 'Real')


def chd(name):
    return scalar('chd.' + name)


def positive(E, *ts):
    for x in ts:
        E.assume(tm.lt(0, x))


def arr(E, name, shape, dtype='real', matrix=False, pre=()):
    pre = tuple(pre)

    def init(idx):
        a = pre + tuple(tm.t(i) for i in idx)
        if dtype == 'real':
            return tm.app(name, 'Real', *a)
        if dtype == 'int':
            return tm.app(name, 'Int', *a)
        if dtype == 'bool':
            return tm.boolvar(name, *a)
        if dtype == 'complex':
            return Cx(tm.app(name + '.re', 'Real', *a), tm.app(name + '.im', 'Real', *a))
        raise TypeError(dtype)
    return Arr(E, shape, dtype, init, matrix=matrix)


def at(name, *idx):
    return tm.app(name, 'Real', *[tm.t(i) for i in idx])


def atc(name, *idx):
    return Cx(at(name + '.re', *idx), at(name + '.im', *idx))


def record_obj(E, cls, name, conf, over=None, index=None, counter=None):
    """a burst or surface with arbitrary field values; fields not in `over` are real scalars"""
    over = over or {}
    pre = () if index is None else (index,)

    def dlazy(k):
        if k in over:
            v = over[k]
            return v(index) if callable(v) else v
        if not hasattr(cls, k):
            return SDict.MISSING
        nm = '%s.%s' % (name, k)
        if k in ENUMS:
            v = SymEnum(ENUMS[k], tm.app(nm, 'Int', *pre))
            E.assume([tm.le(0, v.code), tm.lt(v.code, len(list(ENUMS[k])))])
            return v
        if k in INTS:
            return tm.app(nm, 'Int', *pre)
        return tm.app(nm, 'Real', *pre)
    data = SDict(E, lazy=dlazy, name=name + '._data')

    def olazy(k):
        if k == '_data':
            return data
        if k in over and k.startswith('_'):
            v = over[k]
            return v(index) if callable(v) else v
        if k == 'cst':
            return conf.cst
        if k == 'chd':
            return conf.chd
        if k == '_vel_sat_norm':
            return None
        if k == '_vel_sat_sar':
            v = [tm.app('%s.vel%d' % (name, j), 'Real', *pre) for j in range(3)]
            return Arr(E, (3, 1), 'real', lambda idx: v[int(tm.as_const(idx[0]))], matrix=True)
        if k in ('_seq_count_sar', '_counter', '_surface_counter'):
            return tm.app('%s.%s' % (name, k), 'Int', *pre)
        if k in ('_burst_processed',):
            return tm.boolvar('%s.%s' % (name, k), *pre)
        return SDict.MISSING
    return SObj(E, cls, name, lazy=olazy, ident=(name, index) if index is not None else None)


def burst(E, conf, name='burst', over=None, index=None):
    key = (name, index)
    if index is not None:
        o = E.objcache.get(key)
        if o is not None:
            return o
    if index is not None:
        E.lazy_alloc += 1
    try:
        o = record_obj(E, L1AProcessingData, name, conf, over, index)
    finally:
        if index is not None:
            E.lazy_alloc -= 1
    if index is not None:
        E.objcache[key] = o
    return o


def burst_array(E, conf, name, n, over=None):
    """object array of n distinct-by-index bursts"""
    return Arr(E, (n,), 'object', lambda idx: burst(E, conf, name, over, tm.t(idx[0])))


def surface(E, conf, over=None, name='surf'):
    return record_obj(E, SurfaceData, name, conf, over)


def vnorm2(name, *idx):
    v = [tm.app('%s.vel%d' % (name, j), 'Real', *[tm.t(i) for i in idx]) for j in range(3)]
    return tm.add(tm.add(tm.mul(v[0], v[0]), tm.mul(v[1], v[1])), tm.mul(v[2], v[2]))


def speed_contract(I, args, kwargs):
    """contract of L1AProcessingData.vel_sat_sar_norm (verified separately under C03): Euclidean norm of the
    velocity vector"""
    o = args[0]
    v = I.getattr(o, '_vel_sat_sar')
    s = 0
    for j in range(3):
        x = v.get([j, 0])
        s = tm.add(s, tm.mul(x, x))
    return tm.sqrt(s)


def use_speed_contract(E, I):
    E.contracts[L1AProcessingData.vel_sat_sar_norm.fget] = speed_contract


def skolem(E, name, lo, hi):
    k = tm.var(name, 'Int')
    E.assume([tm.le(lo, k), tm.lt(k, hi)])
    return k


def ceq(E, name, got, want):
    g, w = tm.cx(got), tm.cx(want)
    E.prove(name + '.re', tm.eq(g.re, w.re))
    E.prove(name + '.im', tm.eq(g.im, w.im))


def field(I, o, name):
    return I.getattr(o, name)


def method(I, o, name):
    """the function under contract; if the tree no longer has it, the contract is undecided (not violated)"""
    try:
        return I.getattr(o, name)
    except PyRaise as e:
        if e.etype is AttributeError:
            raise Unsupported('no function %s' % name)
        raise


def run(I, fn, *args, **kw):
    """call the function under contract"""
    I.entry = True
    return I.call(fn, args, kw)


def raises(E, I, fn, *args, **kw):
    """-> (exception type or None, result)"""
    try:
        return None, run(I, fn, *args, **kw)
    except PyRaise as e:
        return e.etype, e


def enum_var(E, cls, name):
    v = SymEnum(cls, tm.var(name, 'Int'))
    n = len(list(cls))
    E.assume([tm.le(0, v.code), tm.lt(v.code, n)])
    return v


def framed(E, I, fn, args, allowed):
    """run fn and prove that it writes nothing but fresh objects and the attributes in `allowed`
    (pairs object, set of attribute names)"""
    saved = E.write_log, E.alloc_log
    E.write_log, E.alloc_log = [], set()
    try:
        r = run(I, fn, *args)
        log, fresh = E.write_log, E.alloc_log
    finally:
        E.write_log, E.alloc_log = saved
    ok = {o.heapid: names for o, names in allowed}
    bad = [(o, info) for o, info in log if o.heapid not in fresh and not
           (o.heapid in ok and isinstance(info, tuple) and info[1] in ok[o.heapid])]
    E.prove('frame', not bad, detail='writes %r' % (bad[:3],))
    return r


def tail_list(E, n, tail, other):
    """list of symbolic length n >= len(tail) ending with the objects in `tail`; other(i) elsewhere"""
    def fn(i):
        for j, o in enumerate(reversed(tail)):
            if E.branch(tm.eq(i, tm.sub(n, j + 1))):
                return o
        return other(i)
    return SList(E, length=n, fn=fn)


def surf_at(E, conf, name, i, over=None):
    """surface number i of a sequence of surfaces"""
    key = (name, i)
    o = E.objcache.get(key)
    if o is None:
        E.lazy_alloc += 1
        try:
            o = record_obj(E, SurfaceData, name, conf, over, i)
        finally:
            E.lazy_alloc -= 1
        E.objcache[key] = o
    return o


def assigned_by_methods(cls):
    """attributes of the class's objects assigned by methods other than the constructor"""
    import ast
    import inspect
    import textwrap
    out = set()
    for k in cls.__mro__:
        for nm, f in vars(k).items():
            if nm == '__init__' or not inspect.isfunction(f):
                continue
            try:
                src = textwrap.dedent(inspect.getsource(f))
                tree = ast.parse(src)
            except (OSError, TypeError, SyntaxError):
                continue
            for x in ast.walk(tree):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) \
                        and x.value.id == 'self':
                    out.add(x.attr)
    return out


def instance(E, I, cls, c):
    """an algorithm object which may already have processed other bursts or surfaces: every number, flag or array it
    keeps and which a method assigns is arbitrary"""
    a = I.call(cls, c.args())
    names = assigned_by_methods(cls)
    if not isinstance(a, SObj):
        return a
    for n in sorted(names):
        if n not in E.heap[a.heapid]:
            continue
        v = a.get(n)
        nm = 'stale.' + n
        if isinstance(v, (bool, F)):
            I.setattr(a, n, tm.boolvar(nm))
        elif isinstance(v, (int, float, T)):
            whole = n.startswith('n_') or n.endswith(('_index', '_size'))
            I.setattr(a, n, tm.var(nm, 'Int' if whole else 'Real'))
        elif isinstance(v, Arr) and v.dtype in ('real', 'int', 'bool', 'complex'):
            I.setattr(a, n, arr(E, nm, v.shape, v.dtype))
    return a
