"""Parameter declarations of processing steps and where their values come from."""
from .base import *
import pkgutil
import importlib
from pyvc.ext import Ext, SMap, as_map, keycode
from pyvc.interp import LoopSpec, Native, SIter
from dedop.util.parameter import Parameter
from dedop.proc.sar.base_algorithm import BaseAlgorithm
from dedop.conf.auxiliary_errors import MissingParameterError

X = Str('X')            # an arbitrary parameter name
n = tm.var('mro.n', 'Int')
I0 = tm.var('nearest', 'Int')      # position, in resolution order, of the nearest class that declares X
ANY = tm.boolvar('declared.anywhere')


def declares(j):
    return tm.boolvar('declares', tm.t(j))


def decl(j):
    return tm.app('declaration', 'Int', tm.t(j))


class Declarations(SMap):
    """declarations of a class: reading them must not change them"""

    def put(self, k, v):
        self.E.prove('declarations-unchanged', False)

    def restore(self, f, enum=None):
        self.E.prove('declarations-unchanged', False)


class SClass(Ext):
    """class number j (in resolution order) of an arbitrary hierarchy; class 0 is the class asked for"""
    types = (type,)

    def __init__(self, E, j):
        self.E, self.j = E, tm.t(j)

    def __repr__(self):
        return '<class %r>' % (self.j,)

    def own(self):
        E, j = self.E, self.j

        def look(x):
            if not E.branch(tm.eq(x, X.code)):
                raise Unsupported('other parameter name')
            if E.branch(declares(j)):
                if not E.branch(ANY):
                    E.assume(False)
                E.assume(tm.le(I0, j))       # I0 is the nearest declaring class
                return decl(j)
            return SDict.MISSING
        return Declarations(E, look, name='parameters')

    def classdict(self):
        E, j = self.E, self.j

        def look(x):
            if not E.branch(tm.eq(x, keycode('parameters'))):
                raise Unsupported('class dictionary')
            if E.branch(tm.boolvar('own', j)):
                return self.own()
            E.assume(tm.Not(declares(j)))
            return SDict.MISSING
        return SMap(E, look, name='__dict__')

    def attr(self, I, name):
        if name == '__mro__':
            if self.j != tm.t(0):
                raise Unsupported('resolution order of a base class')
            return SList(self.E, length=n, fn=lambda i: SClass(self.E, i))
        if name == 'mro':
            return Native(lambda: self.attr(I, '__mro__'), 'mro')
        if name == '__dict__':
            return self.classdict()
        raise Unsupported('class attribute %s' % name)


def hierarchy(E, I):
    E.assume(tm.lt(0, n))
    if E.branch(ANY):
        E.assume([tm.le(0, I0), tm.lt(I0, n), declares(I0), tm.boolvar('own', I0)])
    I.models[vars] = lambda I, o: o.attr(I, '__dict__') if isinstance(o, SClass) else vars(o)
    I.models[type.mro] = lambda I, o: o.attr(I, '__mro__')


def collecting(E, I):
    """invariant of the collecting loop: once the nearest declaring class has been visited, the map holds its
    declaration; if no class declares X it holds none"""
    def themap(L):
        ms = {id(v): v for v in L.loc.values() if isinstance(v, (SDict, SMap))}
        if len(ms) != 1:
            raise Unsupported('collected map')
        return as_map(I, list(ms.values())[0])

    def visited(L):
        return tm.And(ANY, tm.lt(tm.sub(tm.sub(n, 1), L.k), I0))

    def passed(L):
        return tm.le(tm.sub(n, L.k), I0)

    def havoc(L):
        m = themap(L)
        k = L.k

        def look(x):
            if not E.branch(tm.eq(x, X.code)):
                raise Unsupported('other parameter name')
            if not E.branch(ANY):
                return SDict.MISSING
            if E.branch(tm.le(tm.sub(n, k), I0)):
                return decl(I0)
            return tm.var('some.declaration', 'Int') if E.branch(tm.boolvar('some')) else SDict.MISSING
        m.restore(look)

    def inv(L):
        m = themap(L)
        v = m.look(X)
        if not E.branch(ANY):
            return [('undeclared', v is SDict.MISSING)]
        if E.branch(passed(L)):
            return [('nearest', v is not SDict.MISSING and tm.eq(v, decl(I0)))]
        return []
    return LoopSpec(havoc, inv, assume=lambda L: [])


@contract('C22', 'get-parameters')
def getps(E, I):
    hierarchy(E, I)
    for q in ('Parameter._collect_parameters_from_class', 'Parameter.get_parameters'):
        E.loops[(q, 0)] = collecting(E, I)
    r = run(I, Parameter.get_parameters, SClass(E, 0))
    v = as_map(I, r).look(X)
    if E.branch(ANY):
        E.prove('nearest-declaration', v is not SDict.MISSING and tm.eq(v, decl(I0)))
    else:
        E.prove('undeclared', v is SDict.MISSING)


@contract('C22', 'get-parameter')
def getp(E, I):
    hierarchy(E, I)
    r = run(I, Parameter.get_parameter, SClass(E, 0), X)
    E.instantiate(I0)
    if E.branch(ANY):
        E.prove('nearest-declaration', r is not None and tm.eq(r, decl(I0)))
    else:
        E.prove('undeclared', r is None)


class DClass(Ext):
    """class being decorated: own dictionary (maybe none yet), base classes with their own declarations"""
    types = (type,)

    def __init__(self, E, has):
        self.E = E
        base = SMap(E, lambda x: tm.app('base.decl', 'Int', x) if E.branch(tm.boolvar('base.has', x)) else SDict.MISSING)
        own = SMap(E, lambda x: tm.app('own.decl', 'Int', x) if E.branch(tm.boolvar('own.has', x)) else SDict.MISSING)
        self.base, self.own0 = base, own
        self.cell = SObj(E, None, 'class', fields={'parameters': own} if has else {})

    def attr(self, I, name):
        if name == '__dict__':
            d = {'parameters': self.cell.get('parameters')}
            return SDict(self.E, {k: v for k, v in d.items() if v is not SDict.MISSING})
        if name == 'parameters':
            v = self.cell.get('parameters')
            return self.base if v is SDict.MISSING else v
        raise Unsupported('class attribute %s' % name)

    def setattr(self, I, name, v):
        if name != 'parameters':
            raise Unsupported('class attribute store')
        self.cell.set(name, v)


@contract('C22', 'declare')
def declare(E, I):
    """decorating a class records the declaration in that class and in no other, and keeps its earlier ones"""
    nm = Str('name')
    E.assume(tm.Not(tm.streq(nm, '')))
    p = SObj(E, Parameter, 'param', lazy=lambda k: {'_name': nm}.get(k, SDict.MISSING))
    has = E.choice('own-declarations')
    c = DClass(E, has)
    b0 = c.base.snapshot()
    saved = E.write_log, E.alloc_log
    E.write_log, E.alloc_log = [], set()
    r = run(I, I.getattr(p, '__call__'), c)
    ok = {c.cell.heapid} | ({c.own0.heapid} if has else set()) | E.alloc_log
    E.prove('frame', all(o.heapid in ok for o, _ in E.write_log))
    E.write_log, E.alloc_log = saved
    E.prove('same-class', r is c)
    m = as_map(I, c.attr(I, 'parameters'))
    E.prove('own-dictionary', m.heapid != c.base.heapid)
    E.prove('declared', m.look(nm) is p)
    x = Str('X')
    E.assume(tm.Not(tm.streq(x, nm)))
    v = m.look(x)
    if has and E.branch(tm.boolvar('own.has', x.code)):
        E.prove('kept', v is not SDict.MISSING and tm.eq(v, tm.app('own.decl', 'Int', x.code)))
    else:
        E.prove('nothing-added', v is SDict.MISSING)


def algorithms():
    import dedop.proc.sar as pkg
    for mod in pkgutil.walk_packages(pkg.__path__, pkg.__name__ + '.'):
        importlib.import_module(mod.name)
    out, todo = {BaseAlgorithm}, [BaseAlgorithm]
    while todo:
        for s in todo.pop().__subclasses__():
            if s.__module__.startswith('dedop') and s not in out:
                out.add(s)
                todo.append(s)
    return sorted(out, key=lambda c: c.__qualname__)


class Cnf:
    pass


def values(cls):
    @contract('C22', 'values.' + cls.__name__)
    def check(E, I):
        """every declared parameter of %s has the value of the given configuration, or its default"""
        mine = {}
        for c in reversed(cls.__mro__):
            mine.update(vars(c).get('parameters', {}))
        missing = E.choice('one-missing')
        absent = [nm for nm in sorted(mine) if missing and E.choice('absent.' + nm)][:1] if missing else []
        if missing and not absent:
            absent = sorted(mine)[:1]
        how = AttributeError if absent and E.choice('unknown') else MissingParameterError

        def value(nm):
            if nm in absent:
                raise PyRaise(how, nm)
            if nm not in mine:
                return SDict.MISSING
            return tm.var('cnf.' + nm, 'Real')
        cnf = SObj(E, Cnf, 'cnf', lazy=value)
        o = SObj(E, cls, 'step', fields={'chd': Opaque('chd'), 'cst': Opaque('cst'), 'cnf': cnf})
        saved = E.write_log, E.alloc_log
        E.write_log, E.alloc_log = [], set()
        run(I, BaseAlgorithm.__init__, o, Opaque('chd'), Opaque('cst'), cnf)
        E.prove('frame', all(x.heapid == o.heapid or x.heapid in E.alloc_log for x, _ in E.write_log))
        E.write_log, E.alloc_log = saved
        E.prove('configuration-kept', I.getattr(o, 'cnf') is cnf)
        for nm, p in mine.items():
            v = o.get(nm)
            if nm in absent:
                E.prove('default.' + nm, v is p.default_value or v == p.default_value)
            else:
                E.prove('configured.' + nm, isinstance(v, T) and tm.eq(v, tm.var('cnf.' + nm, 'Real')))
    return check


for _c in algorithms():
    values(_c)


@contract('C22', 'values.error')
def error(E, I):
    """a value that cannot be used is an error, not replaced by the default"""
    def value(nm):
        raise PyRaise(ValueError, nm)
    o = SObj(E, BaseAlgorithm, 'step')
    e, r = raises(E, I, BaseAlgorithm.__init__, o, Opaque('chd'), Opaque('cst'), SObj(E, Cnf, 'cnf', lazy=value))
    E.prove('error', e is ValueError)
