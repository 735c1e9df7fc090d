"""Symbolic interpreter for the Python subset dedop is written in.  Function bodies are the ASTs of the
live functions imported from /repo; names are resolved through the functions' real globals, attributes
through the real classes."""
import ast
import builtins
import functools
import inspect
import operator
import textwrap
import types
import enum
from fractions import Fraction
from . import terms as tm
from .terms import T, F, Cx, Str
from .engine import (Engine, Arr, SList, SDict, SObj, Opaque, Unsupported, PyRaise, PathEnd, Poison, Node,
                     node_get, Deferred)

from .models import SymEnum
from .ext import Ext, Text, SMap, Bag, bag_comp, percent, piece, text, as_map

SYM = (T, Cx, F, Str, Arr, SList, SDict, SObj, Opaque, Poison, Ext)


class Flow(Exception):
    pass


class FBreak(Flow):
    pass


class FContinue(Flow):
    pass


class FReturn(Flow):
    def __init__(self, v):
        self.v = v


class BodyFlow(Flow):
    """control flow out of the body of a with statement, passing through the context manager"""

    def __init__(self, inner):
        self.inner = inner


class GenCtx:
    """call of a function decorated with contextlib.contextmanager"""

    def __init__(self, fn, args, kwargs):
        self.fn, self.args, self.kwargs = fn, args, kwargs


class NeedReduce(Exception):
    def __init__(self, key):
        self.key = key


class BoundM:
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_

    def __repr__(self):
        return 'BoundM(%r)' % self.fn


class Native:
    """method of a symbolic container, implemented by the engine"""

    def __init__(self, f, name):
        self.f, self.name = f, name


class Closure:
    def __init__(self, node, frame):
        self.node, self.frame = node, frame


class SIter:
    """iterable with length (int or T) and item(k)"""

    def __init__(self, length, item, symbolic_items=False):
        self.length, self.item, self.symbolic_items = length, item, symbolic_items
        self.spec = None          # loop contract for loops over this iterable


class StarTail:
    """*args of symbolic length, last in a call"""

    def __init__(self, it):
        self.it = it


class SuperProxy:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class CtxMgr:
    def __init__(self, enter=None, exit=None):
        self.enter, self.exit = enter, exit


class Frame:
    def __init__(self, fn, loc, glob, qual, closure=None, cls=None):
        self.fn, self.loc, self.glob, self.qual = fn, loc, glob, qual
        self.closure = closure or {}
        self.cls = cls
        self.loops = None
        self.globals = frozenset()


_ast_cache = {}


def fn_ast(fn):
    code = fn.__code__
    r = _ast_cache.get(code)
    if r is None:
        try:
            src = textwrap.dedent(inspect.getsource(fn))
            tree = ast.parse(src)
        except (OSError, SyntaxError, IndentationError, TypeError) as e:
            raise Unsupported('no source for %r: %s' % (fn, e))
        node = tree.body[0]
        if not isinstance(node, (ast.FunctionDef,)):
            # lambda or something else
            cands = [n for n in ast.walk(tree) if isinstance(n, ast.Lambda)]
            if len(cands) != 1:
                raise Unsupported('cannot locate source of %r' % fn)
            node = cands[0]
        loops = [n for n in ast.walk(node) if isinstance(n, (ast.For, ast.While))]
        loops.sort(key=lambda n: (n.lineno, n.col_offset))
        r = (node, {n: i for i, n in enumerate(loops)})
        _ast_cache[code] = r
    return r


def assigned_names(stmts):
    out = set()
    for st in stmts:
        for n in ast.walk(st):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
    return out


def leaves_loop(stmts):
    """does the loop body contain a break of this loop, or a return?"""
    def walk(n, inner):
        if isinstance(n, ast.Return):
            return True
        if isinstance(n, ast.Break):
            return not inner
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            return False
        inner = inner or isinstance(n, (ast.For, ast.While))
        return any(walk(c, inner) for c in ast.iter_child_nodes(n))
    return any(walk(x, False) for x in stmts)


def only_checks(stmts):
    """a loop body that only tests and raises (possibly through helper calls), with local names for what it tests"""
    return (not assigned_names(stmts) or any(isinstance(n, ast.Raise) for s in stmts for n in ast.walk(s))) and all(map(_check, stmts))


def _check(x):
    return (isinstance(x, (ast.Raise, ast.Pass, ast.Continue, ast.Assert)) or
            isinstance(x, ast.Assign) and all(isinstance(t, ast.Name) for t in x.targets) or
            isinstance(x, ast.Expr) and isinstance(x.value, (ast.Call, ast.Constant)) and not (
                isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Attribute) and
                x.value.func.attr in ('append', 'add', 'extend', 'progress', 'update', 'remove', 'insert')) or
            isinstance(x, ast.If) and all(map(_check, x.body)) and all(map(_check, x.orelse)))


class LoopCtx:
    def __init__(self, I, frame, k, n, it):
        self.I, self.E, self.frame, self.loc, self.k, self.n, self.it = I, I.E, frame, frame.loc, k, n, it

    def new_list(self, name, length, fn):
        return SList(self.E, length=length, fn=fn, name=name)


class LoopSpec:
    """havoc(L): give fresh values to everything the loop modifies; inv(L): list of (name, formula);
    variant (while loops): term that must decrease and stay >= 0"""

    def __init__(self, havoc, inv, variant=None, entry=None, step=None, assume=None):
        # assume(L): the invariant as assumed after havoc, when havoc already builds the state that inv describes
        self.assume = assume or inv
        self.havoc, self.inv, self.variant, self.entry, self.step = havoc, inv, variant, entry, step


class Interp:
    def __init__(self, E):
        self.E = E
        self.models = {}
        self.attr_models = {}
        self.native_ok = set()
        self.frames = []
        self.depth = 0
        self.inline_modules = ('dedop',)
        from . import models
        models.register(self)

    # ------------------------------------------------------------------ calls
    def call(self, fn, args=(), kwargs=None):
        kwargs = kwargs or {}
        E = self.E
        if isinstance(fn, Native):
            return fn.f(*args, **kwargs)
        if args and isinstance(args[-1], StarTail) and not (
                isinstance(fn, (BoundM, types.FunctionType)) and self.lookup(E.contracts, fn) is None):
            raise Unsupported('star-args of symbolic length')
        if isinstance(fn, BoundM):
            return self.call(fn.fn, (fn.self_,) + tuple(args), kwargs)
        if isinstance(fn, Closure):
            return self.call_closure(fn, args, kwargs)
        if isinstance(fn, functools.partial):
            return self.call(fn.func, tuple(fn.args) + tuple(args), {**fn.keywords, **kwargs})
        h = self.lookup(E.contracts, fn)
        if h is not None:
            return h(self, args, kwargs)
        h = self.lookup(self.models, fn)
        if h is not None:
            return h(self, *args, **kwargs)
        if isinstance(fn, types.MethodType):
            h = self.lookup(E.contracts, fn.__func__) or self.lookup(self.models, fn.__func__)
            if h is None and isinstance(fn.__func__, types.FunctionType) and self.inlinable(fn.__func__):
                return self.call_function(fn.__func__, (fn.__self__,) + tuple(args), kwargs)
            if h is not None:
                return self.call(fn.__func__, (fn.__self__,) + tuple(args), kwargs)
        if isinstance(fn, types.FunctionType) and hasattr(fn, '__wrapped__') and \
                fn.__code__.co_filename.endswith('contextlib.py') and self.inlinable(fn):
            return GenCtx(fn.__wrapped__, args, kwargs)
        if isinstance(fn, types.FunctionType) and self.inlinable(fn):
            return self.call_function(fn, args, kwargs)
        if isinstance(fn, type):
            return self.construct(fn, args, kwargs)
        if isinstance(fn, Ext) and hasattr(fn, 'call'):
            return fn.call(self, args, kwargs)
        if isinstance(fn, SObj):
            m = self.static(fn.cls, '__call__')
            if m is not None:
                return self.call(m, (fn,) + tuple(args), kwargs)
        if not self.symbolic(args) and not self.symbolic(tuple(kwargs.values())):
            return self.native(fn, args, kwargs)
        raise Unsupported('call of %s with symbolic arguments' % (getattr(fn, '__qualname__', None) or repr(fn)))

    @staticmethod
    def lookup(table, fn):
        try:
            return table.get(fn)
        except TypeError:
            return None

    def inlinable(self, fn):
        return any((fn.__module__ or '').startswith(m) for m in self.inline_modules)

    def symbolic(self, v):
        if isinstance(v, SYM) or isinstance(v, (SIter, BoundM, Native, Closure)):
            return True
        if isinstance(v, (tuple, list)):
            return any(self.symbolic(x) for x in v)
        if isinstance(v, dict):
            return any(self.symbolic(x) for x in v.values())
        return False

    def native(self, fn, args, kwargs):
        args = [float(a) if isinstance(a, Fraction) else a for a in args]
        try:
            r = fn(*args, **kwargs)
        except Exception as e:
            raise PyRaise(type(e), e)
        if isinstance(r, float):
            return tm.frac(r) if r == r and abs(r) != float('inf') else r
        return r

    def construct(self, cls, args, kwargs):
        E = self.E
        if issubclass(cls, BaseException):
            return ExcVal(cls, args, kwargs)
        if issubclass(cls, enum.Enum) and len(args) == 1 and isinstance(args[0], (Str, T, Text, F)):
            if isinstance(args[0], F) and all(isinstance(m.value, str) for m in cls):
                raise PyRaise(ValueError, 'not a valid %s' % cls.__name__)
            for m in cls:
                if self.truth(self.compare(ast.Eq, args[0], tm.frac(m.value) if isinstance(m.value, float) else m.value)):
                    return m
            raise PyRaise(ValueError, 'not a valid %s' % cls.__name__)
        if cls.__module__.startswith(self.inline_modules) and not issubclass(cls, enum.Enum):
            o = SObj(E, cls, name=E.fresh(cls.__name__))
            init = self.static(cls, '__init__')
            if init is not None and isinstance(init, types.FunctionType):
                self.call(init, (o,) + tuple(args), kwargs)
            return o
        if not self.symbolic(args) and not self.symbolic(tuple(kwargs.values())):
            return self.native(cls, args, kwargs)
        raise Unsupported('construct %s' % cls.__name__)

    def call_function(self, fn, args, kwargs, on_yield=None):
        E = self.E
        node, loops = fn_ast(fn)
        q = fn.__module__ + '.' + fn.__qualname__
        E.functions[q] = E.functions.get(q, 0) + 1
        closure = {}
        if fn.__closure__:
            for nm, cell in zip(fn.__code__.co_freevars, fn.__closure__):
                try:
                    closure[nm] = cell.cell_contents
                except ValueError:
                    pass
        try:
            loc = self.bind(fn, node, args, kwargs)
        except PyRaise as e:
            if self.depth == 0 and e.etype is TypeError:
                raise Unsupported('signature of %s: %s' % (q, e.value))
            raise
        fr = Frame(fn, loc, fn.__globals__, fn.__qualname__, closure, closure.get('__class__'))
        fr.loops = loops
        gen = None
        if on_yield is not None:
            loc['$on_yield'] = on_yield
        elif inspect.isgeneratorfunction(fn):
            # a generator is run to its end when called; its result is the list of what it yields
            gen = loc['$yield'] = SList(E, [])
        self.depth += 1
        self.frames.append(fr)
        if self.depth > 60:
            raise Unsupported('recursion depth')
        try:
            if isinstance(node, ast.Lambda):
                return self.eval(node.body, fr)
            self.block(node.body, fr)
            return gen
        except FReturn as r:
            return r.v if gen is None else gen
        finally:
            self.depth -= 1
            self.frames.pop()

    def bind(self, fn, node, args, kwargs):
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        loc = {}
        args = list(args)
        star = args.pop().it if args and isinstance(args[-1], StarTail) else None
        if star is not None and (not a.vararg or len(args) < len(names)):
            raise Unsupported('star-args of symbolic length')
        if len(args) > len(names) and not a.vararg:
            raise PyRaise(TypeError, 'too many arguments')
        for nm, v in zip(names, args):
            loc[nm] = v
        if a.vararg:
            loc[a.vararg.arg] = tuple(args[len(names):])
            if star is not None:
                head, E = loc[a.vararg.arg], self.E

                def nth(i):
                    for j, v in enumerate(head):
                        if E.branch(tm.eq(i, j)):
                            return v
                    return star.item(tm.sub(i, len(head)))
                loc[a.vararg.arg] = SList(E, length=tm.add(star.length, len(head)), fn=nth)
        extra = {}
        for k, v in kwargs.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                if k in loc:
                    raise PyRaise(TypeError, 'multiple values for ' + k)
                loc[k] = v
            else:
                extra[k] = v
        rest = extra.pop('**', None)          # keyword arguments with arbitrary names
        if a.kwarg and rest is not None:
            m = loc[a.kwarg.arg] = SMap(self.E, *rest.st, name=a.kwarg.arg)
            for k, v in extra.items():
                m.put(k, v)
        elif rest is not None:
            raise Unsupported('arbitrary keyword arguments')
        elif a.kwarg:
            loc[a.kwarg.arg] = SDict(self.E, extra)
        elif extra:
            raise PyRaise(TypeError, 'unexpected keyword %s' % list(extra))
        defaults = fn.__defaults__ or ()
        for nm, v in zip(names[len(names) - len(defaults):], defaults):
            loc.setdefault(nm, v)
        for x in a.kwonlyargs:
            if x.arg not in loc:
                d = (fn.__kwdefaults__ or {})
                if x.arg not in d:
                    raise PyRaise(TypeError, 'missing ' + x.arg)
                loc[x.arg] = d[x.arg]
        for nm in names:
            if nm not in loc:
                raise PyRaise(TypeError, 'missing argument ' + nm)
        return loc

    def call_closure(self, c, args, kwargs):
        node = c.node
        a = node.args
        names = [x.arg for x in a.args]
        loc = dict(zip(names, args))
        loc.update(kwargs)
        defs = a.defaults
        for nm, d in zip(names[len(names) - len(defs):], defs):
            if nm not in loc:
                loc[nm] = self.eval(d, c.frame)
        fr = Frame(c.frame.fn, loc, c.frame.glob, c.frame.qual + '.<closure>', None, c.frame.cls)
        fr.closure = dict(c.frame.closure)
        fr.closure.update(c.frame.loc)
        fr.loops = c.frame.loops
        if isinstance(node, ast.Lambda):
            return self.eval(node.body, fr)
        try:
            self.block(node.body, fr)
            return None
        except FReturn as r:
            return r.v

    # ------------------------------------------------------------------ attributes
    @staticmethod
    def static(cls, name):
        for c in cls.__mro__:
            if name in vars(c):
                return vars(c)[name]
        return None

    def getattr(self, o, name):
        E = self.E
        if isinstance(o, Poison):
            raise Unsupported('use of %r' % o)
        if isinstance(o, SuperProxy):
            mro = o.obj.cls.__mro__ if isinstance(o.obj, SObj) else o.obj.__mro__
            i = mro.index(o.cls)
            for c in mro[i + 1:]:
                if name in vars(c):
                    v = vars(c)[name]
                    if isinstance(v, types.FunctionType):
                        return BoundM(v, o.obj)
                    if isinstance(v, property):
                        return self.call(v.fget, (o.obj,))
                    if isinstance(v, (classmethod, staticmethod)):
                        return BoundM(v.__func__, o.obj) if isinstance(v, classmethod) else v.__func__
                    if c is object and name == '__init__':
                        return Native(lambda *a, **k: None, 'object.__init__')
                    return v
            raise PyRaise(AttributeError, name)
        if isinstance(o, SymEnum) and name in ('value', 'name'):
            ms = list(o.cls)
            for i, m in enumerate(ms[:-1]):
                if E.branch(tm.eq(o.code, i)):
                    return getattr(m, name)
            return getattr(ms[-1], name)
        if isinstance(o, SObj):
            if o.cls is None:
                v = o.get(name)
                if v is SDict.MISSING:
                    raise PyRaise(AttributeError, name)
                return v
            if name == '__class__':
                return o.cls
            if name == '__dict__':
                raise Unsupported('__dict__')
            s = self.static(o.cls, name)
            if isinstance(s, property):
                return self.call(s.fget, (o,))
            if s is not None and not isinstance(s, types.FunctionType) and hasattr(type(s), '__get__') and \
                    not isinstance(s, (staticmethod, classmethod)):
                # data descriptor such as AuxiliaryParameter: symbolic field, or interpret __get__
                v = o.get(name)
                if v is not SDict.MISSING:
                    return v
                g = self.static(type(s), '__get__')
                if isinstance(g, types.FunctionType):
                    return self.call(g, (s, o, o.cls))
                raise Unsupported('descriptor %s' % name)
            v = o.get(name)
            if v is not SDict.MISSING:
                return v
            if s is None:
                ga = self.static(o.cls, '__getattr__')
                if isinstance(ga, types.FunctionType):
                    return self.call(ga, (o, name))
                raise PyRaise(AttributeError, '%s has no %s' % (o, name))
            if isinstance(s, types.FunctionType):
                return BoundM(s, o)
            if isinstance(s, staticmethod):
                return s.__func__
            if isinstance(s, classmethod):
                return BoundM(s.__func__, o.cls)
            return s
        if isinstance(o, Ext):
            return o.attr(self, name)
        m = self.attr_models.get((type(o), name))
        if m is not None:
            return m(self, o)
        if isinstance(o, (Arr, SList, SDict, T, Cx, F, Str, Fraction, SIter, CtxMgr)) or \
                (isinstance(o, (int, str, tuple)) and not isinstance(o, bool)):
            from . import models
            return models.container_attr(self, o, name)
        if isinstance(o, (dict, types.MappingProxyType)) and name == 'get':
            def get(k, d=None):
                if self.symbolic(k):
                    raise Unsupported('symbolic key of a real dictionary')
                return o.get(k, d)
            return Native(get, 'get')
        if isinstance(o, ExcVal):
            if name == 'args':
                return o.args
            raise Unsupported('exception attribute')
        try:
            v = getattr(o, name)
        except AttributeError as e:
            raise PyRaise(AttributeError, str(e))
        if isinstance(v, float):
            return tm.PI if v == tm.PI_FLOAT else tm.frac(v)
        return v

    def setattr(self, o, name, v):
        if isinstance(o, SObj):
            s = self.static(o.cls, name) if o.cls else None
            if isinstance(s, property):
                if s.fset is None:
                    raise PyRaise(AttributeError, name)
                self.call(s.fset, (o, v))
                return
            if s is not None and hasattr(type(s), '__set__') and not isinstance(s, types.FunctionType) and \
                    not isinstance(s, types.MemberDescriptorType):
                raise Unsupported('data descriptor set')
            o.set(name, v)
            return
        if isinstance(o, Ext):
            return o.setattr(self, name, v)
        raise Unsupported('attribute store on %r' % type(o))

    # ------------------------------------------------------------------ truth, comparison, arithmetic
    def truth(self, v):
        E = self.E
        if isinstance(v, Poison):
            raise Unsupported('use of %r' % v)
        if isinstance(v, F):
            return E.branch(v)
        if isinstance(v, bool) or v is None:
            return bool(v)
        if isinstance(v, T):
            return E.branch(tm.ne(v, 0))
        if isinstance(v, SList):
            n = v.length()
            return E.branch(tm.ne(n, 0)) if isinstance(n, T) else n != 0
        if isinstance(v, SDict):
            return len(v.keys()) != 0
        if isinstance(v, SObj):
            for nm in ('__bool__', '__len__'):
                m = self.static(v.cls, nm) if v.cls else None
                if isinstance(m, types.FunctionType):
                    return self.truth(self.call(m, (v,)))
            return True
        if isinstance(v, Arr):
            if all(tm.as_const(d) == 1 for d in v.shape):
                return self.truth(v.get([0] * v.ndim))
            raise Unsupported('truth of array')
        if isinstance(v, Str):
            return E.branch(tm.Not(tm.streq(v, '')))
        if isinstance(v, Opaque):
            return True
        if isinstance(v, Ext):
            return v.truth(self)
        return bool(v)

    def binop(self, op, a, b):
        from . import models
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported('use of %r' % (a if isinstance(a, Poison) else b))
        return models.binop(self, op, a, b)

    def compare(self, op, a, b):
        from . import models
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported('use of %r' % (a if isinstance(a, Poison) else b))
        return models.compare(self, op, a, b)

    # ------------------------------------------------------------------ statements
    def block(self, stmts, fr):
        for s in stmts:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        E = self.E
        k = type(s)
        if k is ast.Expr:
            if isinstance(s.value, ast.Constant):
                return
            self.eval(s.value, fr)
        elif k is ast.Assign:
            v = self.eval(s.value, fr)
            for tg in s.targets:
                self.assign(tg, v, fr)
        elif k is ast.AnnAssign:
            if s.value is not None:
                self.assign(s.target, self.eval(s.value, fr), fr)
        elif k is ast.AugAssign:
            self.augassign(s, fr)
        elif k is ast.If:
            if self.truth(self.eval(s.test, fr)):
                self.block(s.body, fr)
            else:
                self.block(s.orelse, fr)
        elif k is ast.Return:
            raise FReturn(self.eval(s.value, fr) if s.value is not None else None)
        elif k is ast.For:
            self.for_(s, fr)
        elif k is ast.While:
            self.while_(s, fr)
        elif k is ast.Break:
            raise FBreak()
        elif k is ast.Continue:
            raise FContinue()
        elif k is ast.Pass:
            pass
        elif k is ast.Raise:
            self.raise_(s, fr)
        elif k is ast.Try:
            self.try_(s, fr)
        elif k is ast.With:
            self.with_(s, fr, 0)
        elif k is ast.Delete:
            for tg in s.targets:
                self.delete(tg, fr)
        elif k is ast.Assert:
            if not self.truth(self.eval(s.test, fr)):
                raise PyRaise(AssertionError)
        elif k is ast.FunctionDef:
            fr.loc[s.name] = Closure(s, fr)
        elif k in (ast.Import, ast.ImportFrom):
            self.import_(s, fr)
        elif k is ast.Global:
            if not self.E.ghost.get('globals-modelled'):
                raise Unsupported('global statement')
            fr.globals = fr.globals | set(s.names)
        elif k is ast.Nonlocal:
            raise Unsupported('nonlocal')
        else:
            raise Unsupported('statement %s' % k.__name__)

    def import_(self, s, fr):
        import importlib
        if isinstance(s, ast.Import):
            for a in s.names:
                m = importlib.import_module(a.name)
                fr.loc[a.asname or a.name.split('.')[0]] = m if a.asname else importlib.import_module(a.name.split('.')[0])
        else:
            if s.level:
                raise Unsupported('relative import in function')
            m = importlib.import_module(s.module)
            for a in s.names:
                fr.loc[a.asname or a.name] = getattr(m, a.name)

    def assign(self, tg, v, fr):
        k = type(tg)
        if k is ast.Name:
            if tg.id in fr.globals:
                # module variables assigned by the code under contract live in the path, not in the real module
                self.E.ghost['globals'] = {**self.E.ghost.get('globals', {}), (id(fr.glob), tg.id): v}
                return
            fr.loc[tg.id] = v
        elif k in (ast.Tuple, ast.List):
            vals = self.unpack(v, len(tg.elts), any(isinstance(x, ast.Starred) for x in tg.elts))
            for x, y in zip(tg.elts, vals):
                self.assign(x, y, fr)
        elif k is ast.Attribute:
            self.setattr(self.eval(tg.value, fr), tg.attr, v)
        elif k is ast.Subscript:
            o = self.eval(tg.value, fr)
            self.setitem(o, self.index(tg.slice, fr), v)
        else:
            raise Unsupported('assignment target %s' % k.__name__)

    def unpack(self, v, n, starred=False):
        if starred:
            raise Unsupported('starred unpack')
        it = self.iterate(v)
        c = tm.as_const(it.length) if isinstance(it.length, T) else it.length
        if c is None:
            if not self.E.branch(tm.eq(it.length, n)):
                raise PyRaise(ValueError, 'unpack')
            c = n
        if c != n:
            raise PyRaise(ValueError, 'unpack')
        return [it.item(i) for i in range(n)]

    def augassign(self, s, fr):
        op = type(s.op)
        tg = s.target
        if isinstance(tg, ast.Name):
            cur = self.eval(ast.copy_location(ast.Name(tg.id, ast.Load()), tg), fr)
            rhs = self.eval(s.value, fr)
            if isinstance(cur, Arr):
                self.inplace(op, cur, rhs)
            elif isinstance(cur, SList) and op is ast.Add:
                self.extend(cur, rhs)
            else:
                fr.loc[tg.id] = self.binop(op, cur, rhs)
        elif isinstance(tg, ast.Attribute):
            o = self.eval(tg.value, fr)
            cur = self.getattr(o, tg.attr)
            rhs = self.eval(s.value, fr)
            if isinstance(cur, Arr):
                self.inplace(op, cur, rhs)
                self.setattr(o, tg.attr, cur)
            elif isinstance(cur, SList) and op is ast.Add:
                self.extend(cur, rhs)
                self.setattr(o, tg.attr, cur)
            else:
                self.setattr(o, tg.attr, self.binop(op, cur, rhs))
        elif isinstance(tg, ast.Subscript):
            o = self.eval(tg.value, fr)
            ix = self.index(tg.slice, fr)
            cur = self.getitem(o, ix)
            rhs = self.eval(s.value, fr)
            if isinstance(cur, Arr):
                self.inplace(op, cur, rhs)
            else:
                self.setitem(o, ix, self.binop(op, cur, rhs))
        else:
            raise Unsupported('augmented target')

    def inplace(self, op, arr, rhs):
        from . import models
        if arr.matrix and op in (ast.Mult, ast.MatMult) and isinstance(rhs, Arr):
            raise Unsupported('in-place matrix product')
        if arr.dtype == 'int' and op is ast.Div:
            raise PyRaise(TypeError, 'in-place true divide of int array')
        r = models.binop(self, op, arr, rhs)
        models.assign_array(self, arr, r)

    def extend(self, lst, rhs):
        it = self.iterate(rhs)
        if isinstance(it.length, T) and tm.as_const(it.length) is None:
            raise Unsupported('extend by symbolic length')
        for i in range(int(tm.as_const(it.length))):
            lst.append(it.item(i))

    def delete(self, tg, fr):
        if isinstance(tg, ast.Name):
            fr.loc.pop(tg.id, None)
        elif isinstance(tg, ast.Subscript):
            o = self.eval(tg.value, fr)
            ix = self.index(tg.slice, fr)
            if isinstance(o, SDict) and self.symbolic(ix):
                as_map(self, o).delitem(self, ix)
            elif isinstance(o, SDict):
                if not o.has(ix):
                    raise PyRaise(KeyError, ix)
                o.delete(ix)
            elif isinstance(o, SList) and ix == 0:
                if not self.truth(o):
                    raise PyRaise(IndexError)
                o.pop0()
            elif isinstance(o, Ext):
                o.delitem(self, ix)
            elif isinstance(o, SObj):
                self.call(self.static(o.cls, '__delitem__'), (o, ix))
            else:
                raise Unsupported('del item')
        elif isinstance(tg, ast.Attribute):
            o = self.eval(tg.value, fr)
            s = self.static(o.cls, tg.attr)
            if isinstance(s, property) and s.fdel:
                self.call(s.fdel, (o,))
            else:
                raise Unsupported('del attribute')
        else:
            raise Unsupported('del')

    def raise_(self, s, fr):
        if s.exc is None:
            cur = getattr(self, '_handling', None)
            if cur:
                raise cur[-1]
            raise PyRaise(RuntimeError)
        v = self.eval(s.exc, fr)
        if isinstance(v, type) and issubclass(v, BaseException):
            raise PyRaise(v, None)
        if isinstance(v, ExcVal):
            raise PyRaise(v.cls, v)
        if isinstance(v, BaseException):
            raise PyRaise(type(v), v)
        raise Unsupported('raise of %r' % (v,))

    def try_(self, s, fr):
        try:
            try:
                self.block(s.body, fr)
            except PyRaise as e:
                for h in s.handlers:
                    if h.type is None:
                        match = True
                    else:
                        ty = self.eval(h.type, fr)
                        tys = ty if isinstance(ty, tuple) else (ty,)
                        match = any(isinstance(x, type) and issubclass(e.etype, x) for x in tys)
                    if match:
                        if h.name:
                            fr.loc[h.name] = e.value if e.value is not None else ExcVal(e.etype, (), {})
                        self._handling = getattr(self, '_handling', []) + [e]
                        try:
                            self.block(h.body, fr)
                        finally:
                            self._handling = self._handling[:-1]
                        break
                else:
                    raise
            else:
                self.block(s.orelse, fr)
        except (PyRaise, Flow):
            if s.finalbody:
                self.block(s.finalbody, fr)
            raise
        if s.finalbody:
            self.block(s.finalbody, fr)

    def with_(self, s, fr, i):
        if i == len(s.items):
            self.block(s.body, fr)
            return
        item = s.items[i]
        m = self.eval(item.context_expr, fr)
        if isinstance(m, CtxMgr):
            v = m.enter() if m.enter else m
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, fr)
            try:
                self.with_(s, fr, i + 1)
            finally:
                if m.exit:
                    m.exit()
            return
        if isinstance(m, GenCtx):
            def body(v):
                if item.optional_vars is not None:
                    self.assign(item.optional_vars, v, fr)
                top = self.frames
                self.frames = top[:-1]
                try:
                    self.with_(s, fr, i + 1)
                except Flow as f:
                    raise BodyFlow(f)
                finally:
                    self.frames = top
            try:
                self.call_function(m.fn, m.args, m.kwargs, on_yield=body)
            except BodyFlow as f:
                raise f.inner
            return
        if isinstance(m, SObj) and self.static(m.cls, '__enter__') is not None:
            v = self.call(self.static(m.cls, '__enter__'), (m,))
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, fr)
            ex = self.static(m.cls, '__exit__')
            try:
                self.with_(s, fr, i + 1)
            except PyRaise as e:
                if self.truth(self.call(ex, (m, e.etype, e.value, None))):
                    return
                raise
            except Flow:
                self.call(ex, (m, None, None, None))
                raise
            self.call(ex, (m, None, None, None))
            return
        raise Unsupported('with %r' % (m,))

    # ------------------------------------------------------------------ loops
    def iterate(self, v):
        E = self.E
        if isinstance(v, SIter):
            return v
        if isinstance(v, SList):
            st = v.st
            if st[0] == 'c':
                items = st[1]
                return SIter(len(items), lambda i: items[int(tm.as_const(i))])
            fn = st[2]
            it = SIter(st[1], fn)
            if getattr(v, 'spec', None) is not None:
                it.spec = v.spec
            return it
        if isinstance(v, (tuple, list)):
            return SIter(len(v), lambda i: v[int(tm.as_const(i))])
        if isinstance(v, Arr):
            n = v.shape[0]
            from . import models
            return SIter(n, lambda i: models.arr_getitem(self, v, (i,), check=False), True)
        if isinstance(v, SDict):
            ks = v.keys()
            return SIter(len(ks), lambda i: ks[int(tm.as_const(i))])
        if isinstance(v, dict):
            ks = list(v)
            return SIter(len(ks), lambda i: ks[int(tm.as_const(i))])
        if isinstance(v, Ext):
            return v.iterate(self)
        if isinstance(v, (str, range, set, frozenset)) or isinstance(v, types.GeneratorType) or \
                (isinstance(v, type) and issubclass(v, enum.Enum)) or type(v).__name__ in (
                    'dict_items', 'dict_keys', 'dict_values', 'list_iterator', 'mappingproxy'):
            ks = list(v)
            return SIter(len(ks), lambda i: ks[int(tm.as_const(i))])
        raise Unsupported('iteration over %r' % (v,))

    def loop_spec(self, fr, s, n=None):
        """contract of a loop: by function and ordinal; a loop moved into a helper keeps the contract it had in the
        function (still on the stack) that no longer contains it"""
        E = self.E
        if not fr.loops or not E.loops:
            return None
        here = (fr.qual, fr.loops.get(s))
        if here in E.loops:
            return E.loops[here]
        if here not in E.moved:
            if n is not None and (not isinstance(n, T) or only_checks(s.body)):
                return None
            E.moved[here] = None
            for g in self.frames:
                if g is fr or g.qual == fr.qual or not hasattr(g.fn, '__module__') or g.fn.__module__ != fr.fn.__module__:
                    continue
                left = set((g.loops or {}).values())
                for k in sorted(E.loops):
                    if k[0] == g.qual and k[1] not in left and k not in E.moved.values():
                        E.moved[here] = k
                        break
                if E.moved[here]:
                    break
        return E.loops.get(E.moved[here])

    def length_spec(self, it, n):
        """a loop over the positions of a sequence whose loops have a contract"""
        if not isinstance(n, T) or not self.E.ghost.get('length-specs'):
            return None
        for length, spec in self.E.ghost['length-specs']:
            if spec is not None and getattr(it, 'positions', False) and tm.eq(n, length) is True:
                return spec
        return None

    def for_(self, s, fr):
        E = self.E
        it = self.iterate(self.eval(s.iter, fr))
        n = it.length
        if isinstance(n, T):
            c = tm.as_const(n)
            if c is not None:
                n = int(c)
        spec = it.spec or self.loop_spec(fr, s, n) or self.length_spec(it, n)
        if not isinstance(n, T) and spec is None and n > 24 and it.symbolic_items and not leaves_loop(s.body):
            saved = (dict(fr.loc), E.heap.fork(), list(E.pc), set(E.pcset))
            try:
                self.for_auto(s, fr, it, tm.const(n))
                self.block(s.orelse, fr)
                return
            except Unsupported:
                if E.pc != saved[2]:
                    raise
                fr.loc.clear()
                fr.loc.update(saved[0])
                E.heap = saved[1]
        if not isinstance(n, T) and spec is None:
            if n > 400:
                raise Unsupported('long concrete loop')
            for i in range(n):
                self.assign(s.target, it.item(i), fr)
                try:
                    self.block(s.body, fr)
                except FContinue:
                    continue
                except FBreak:
                    return
            self.block(s.orelse, fr)
            return
        if spec is not None:
            if self.for_inv(s, fr, it, tm.t(n), spec):
                self.block(s.orelse, fr)
            return
        if leaves_loop(s.body):
            self.for_search(s, fr, it, n)
            return
        if only_checks(s.body):
            saved = (dict(fr.loc), E.heap.fork(), list(E.pc))
            try:
                self.for_search(s, fr, it, n)
                return
            except Unsupported:
                if E.pc != saved[2]:
                    raise
                fr.loc.clear()
                fr.loc.update(saved[0])
                E.heap = saved[1]
        self.for_auto(s, fr, it, n)
        self.block(s.orelse, fr)

    def frame_check(self, log, allowed, allocs, what):
        for obj, info in log:
            if obj.heapid in allocs:
                continue
            key = (obj.heapid, info[1]) if info and info[0] in ('attr', 'key') else obj.heapid
            if key in allowed or obj.heapid in allowed:
                continue
            raise Unsupported('%s writes %r %r outside its declared frame' % (what, obj, info and info[:2]))

    def for_inv(self, s, fr, it, n, spec):
        E = self.E
        qual = '%s.loop%s' % (fr.qual, fr.loops.get(s))
        L = LoopCtx(self, fr, tm.const(0), n, it)
        L.assigned = assigned_names(s.body)
        L.stmt = s
        if spec.entry:
            spec.entry(L)
        for nm, f in spec.inv(L):
            E.prove('%s.init.%s' % (qual, nm), f)
        outer_w, outer_a = E.write_log, E.alloc_log
        E.write_log, E.alloc_log = [], set()
        for nm in assigned_names(s.body) | assigned_names([ast.Assign([s.target], ast.Constant(0))]):
            fr.loc[nm] = Poison('loop-modified %s' % nm)
        k = E.fresh_int('k')
        E.assume([tm.le(0, k), tm.le(k, n)])
        L.k = k
        spec.havoc(L)
        allowed = set()
        for obj, info in E.write_log:
            allowed.add((obj.heapid, info[1]) if info and info[0] in ('attr', 'key') else obj.heapid)
        hav_log = E.write_log
        allowed |= E.alloc_log
        hav_alloc = E.alloc_log
        for nm, f in spec.assume(L):
            E.assume(f)
        E.write_log = []
        E.alloc_log = set()

        def close():
            if outer_w is not None:
                outer_w.extend(hav_log + E.write_log)
            if outer_a is not None:
                outer_a.update(E.alloc_log | hav_alloc)
            E.write_log, E.alloc_log = outer_w, outer_a
        if E.branch(tm.lt(k, n)):
            self.assign(s.target, it.item(k), fr)
            try:
                self.block(s.body, fr)
            except FContinue:
                pass
            except FBreak:
                close()         # the state of the leaving iteration is the state after the loop
                return False
            except (FReturn, PyRaise):
                close()
                raise
            self.frame_check(E.write_log, allowed, E.alloc_log, qual)
            L.k = tm.add(k, 1)
            if spec.step:
                spec.step(L)
            for nm, f in spec.inv(L):
                E.prove('%s.step.%s' % (qual, nm), f)
            raise PathEnd('loop step')
        E.assume(tm.eq(k, n))
        L.k = n
        close()
        return True

    def while_abs(self, s, fr, A):
        """loop whose invariant is a finite set of abstract states, closed under the loop body: the set is built
        by exploration (Engine.explore) starting from the states at loop entry; every obligation inside the body
        is discharged from every state of the set.  A.capture(L) -> state, A.restore(L, state) makes an arbitrary
        concrete state of it"""
        E = self.E
        L = LoopCtx(self, fr, None, None, None)
        from .live import live_at_head
        L.assigned = assigned_names(s.body)
        L.stmt = s
        L.live = L.assigned & live_at_head(s, fn_ast(fr.fn)[0])
        if E.abs_start is None:
            E.abs_reached(A.capture(L, True))
            raise PathEnd('loop entry')
        for nm in L.assigned:
            fr.loc[nm] = Poison('loop-modified %s' % nm)
        A.restore(L, E.abs_start)
        if self.truth(self.eval(s.test, fr)):
            try:
                self.block(s.body, fr)
            except FContinue:
                pass
            except FBreak:
                A.leave(L)
                return
            E.abs_reached(A.capture(L, False))
            raise PathEnd('loop step')
        A.leave(L)
        self.block(s.orelse, fr)

    def while_(self, s, fr):
        E = self.E
        if E.abs_loop is not None:
            A = E.abs_loop(fr, s)
            if A is not None and not isinstance(A, LoopSpec):
                return self.while_abs(s, fr, A)
        spec = self.loop_spec(fr, s)
        if spec is None and E.abs_loop is not None:
            spec = A
        if spec is None:
            if self.while_auto(s, fr):
                return
            # bounded only if the condition becomes concretely false
            for i in range(200):
                c = self.eval(s.test, fr)
                if isinstance(c, F) and i > 60:
                    raise Unsupported('while loop without invariant')
                if not self.truth(c):
                    self.block(s.orelse, fr)
                    return
                try:
                    self.block(s.body, fr)
                except FContinue:
                    continue
                except FBreak:
                    return
            raise Unsupported('while loop without invariant')
        qual = '%s.loop%s' % (fr.qual, fr.loops.get(s))
        L = LoopCtx(self, fr, None, None, None)
        L.assigned = assigned_names(s.body)
        L.stmt = s
        if spec.entry:
            spec.entry(L)
        for nm, f in spec.inv(L):
            E.prove('%s.init.%s' % (qual, nm), f)
        outer_w, outer_a = E.write_log, E.alloc_log
        E.write_log, E.alloc_log = [], set()
        for nm in assigned_names(s.body):
            fr.loc[nm] = Poison('loop-modified %s' % nm)
        spec.havoc(L)
        allowed = set()
        for obj, info in E.write_log:
            allowed.add((obj.heapid, info[1]) if info and info[0] in ('attr', 'key') else obj.heapid)
        hav_log = E.write_log
        allowed |= E.alloc_log
        hav_alloc = E.alloc_log
        for nm, f in spec.assume(L):
            E.assume(f)
        E.write_log, E.alloc_log = [], set()

        def close():
            if outer_w is not None:
                outer_w.extend(hav_log + E.write_log)
            if outer_a is not None:
                outer_a.update(E.alloc_log | hav_alloc)
            E.write_log, E.alloc_log = outer_w, outer_a
        if self.truth(self.eval(s.test, fr)):
            v0 = spec.variant(L) if spec.variant else None
            try:
                self.block(s.body, fr)
            except FContinue:
                pass
            except FBreak:
                close()         # the state of the leaving iteration is the state after the loop
                return
            except (FReturn, PyRaise):
                close()
                raise
            self.frame_check(E.write_log, allowed, E.alloc_log, qual)
            if spec.step:
                spec.step(L)
            for nm, f in spec.inv(L):
                E.prove('%s.step.%s' % (qual, nm), f)
            if v0 is not None:
                E.prove('%s.variant' % qual, tm.And(tm.le(tm.add(spec.variant(L), 1), v0), tm.le(0, v0)))
            raise PathEnd('loop step')
        close()
        self.block(s.orelse, fr)

    # -- automatic summary of while loops that only step local variables by amounts the loop does not change:
    # after r iterations v = v0 + r * step.  The last two iterations are executed, at the symbolic count r.
    # Partial correctness: termination is not shown.
    def while_auto(self, s, fr):
        E = self.E
        names = sorted(assigned_names(s.body))
        entry = dict(fr.loc)
        num = lambda v: isinstance(v, (T, int, Fraction)) and not isinstance(v, bool)
        syms = {nm: (tm.var(E.fresh('wh.' + nm), 'Int' if isinstance(entry[nm], int) or
                            (isinstance(entry[nm], T) and entry[nm].sort == 'Int') else 'Real'))
                for nm in names if nm in entry and num(entry[nm])}

        def frame(vals):
            loc = dict(entry)
            for nm in names:
                loc.pop(nm, None)
                if nm in vals:
                    loc[nm] = vals[nm]
                elif nm in entry:
                    loc[nm] = CarriedPoison(nm)
            f2 = Frame(fr.fn, loc, fr.glob, fr.qual, fr.closure, fr.cls)
            f2.loops = fr.loops
            return f2

        def body(f2):
            """-> False if the loop was left"""
            self.frames.append(f2)
            try:
                self.block(s.body, f2)
            except FContinue:
                pass
            except FBreak:
                return False
            finally:
                self.frames.pop()
            return True

        def analyse():
            saved = (E.write_log, E.alloc_log)
            E.write_log, E.alloc_log = [], set()
            f2 = frame(syms)
            try:
                try:
                    if not body(f2):
                        return ('left',)
                except FReturn:
                    return ('left',)
                except PyRaise:
                    return ('left',)
                if any(o.heapid not in E.alloc_log for o, _ in E.write_log):
                    return ('no', 'writes')
                out = {}
                for nm, sy in syms.items():
                    v = f2.loc.get(nm)
                    if not num(v):
                        continue
                    d = tm.sub(v, sy)
                    if not any(set(tm.atoms_of(y)) & set(tm.atoms_of(d)) for y in syms.values()):
                        out[nm] = d
                return ('ok', out)
            finally:
                E.write_log, E.alloc_log = saved
        try:
            c = self.eval(s.test, fr)
            if not isinstance(c, F):
                if not self.truth(c):
                    self.block(s.orelse, fr)
                    return True
                if not (isinstance(s.test, ast.Constant) and syms):
                    return False
            res = E.sub(analyse)
        except (NeedReduce, Unsupported):
            return False
        oks = [r for _, r in res if r[0] == 'ok']
        if not oks or any(r[0] == 'no' for _, r in res):
            return False
        step = {nm: d for nm, d in oks[0][1].items() if all(nm in r[1] and r[1][nm] == d for r in oks[1:])}
        if not step:
            return False
        # zero iterations
        if not self.truth(c):
            self.block(s.orelse, fr)
            return True

        def finish(f2):
            fr.loc.clear()
            fr.loc.update(f2.loc)

        def last(f2):
            """one executed iteration; -> True if the loop ended with it"""
            try:
                if not body(f2):
                    finish(f2)
                    return True
            except FReturn:
                finish(f2)
                raise
            if not self.truth(self.eval(s.test, f2)):
                finish(f2)
                self.block(s.orelse, fr)
                return True
            return False
        f2 = frame({})
        f2.loc.update({nm: entry[nm] for nm in names if nm in entry})
        if last(f2):
            return True
        r = E.fresh_int('wh.count')
        E.assume(tm.le(2, r))
        f2 = frame({nm: tm.add(entry[nm], tm.mul(d, tm.sub(r, 2))) for nm, d in step.items()})
        try:
            if not body(f2):
                raise PathEnd('loop left earlier')
        except (FReturn, PyRaise):
            raise PathEnd('loop left earlier')
        if not self.truth(self.eval(s.test, f2)):
            raise PathEnd('loop ended earlier')
        if last(f2):
            return True
        raise PathEnd('loop not ended yet')

    # -- automatic summary of search loops: iterations that do not leave the loop have no effect ---------
    def for_search(self, s, fr, it, n):
        E = self.E
        assigned = assigned_names(s.body) | assigned_names([ast.Assign([s.target], ast.Constant(0))])
        what = '%s.loop%s' % (fr.qual, fr.loops.get(s) if fr.loops else '?')
        entry_loc = dict(fr.loc)
        entry_heap = E.heap.fork()
        targets = assigned_names([ast.Assign([s.target], ast.Constant(0))])

        def frame():
            loc = dict(entry_loc)
            for nm in assigned:
                if nm in entry_loc and nm not in targets:
                    loc[nm] = Poison('%s carried through %s' % (nm, what))
                else:
                    loc.pop(nm, None)
            f2 = Frame(fr.fn, loc, fr.glob, fr.qual, fr.closure, fr.cls)
            f2.loops = fr.loops
            return f2

        def one(i):
            """-> formula: iteration i runs through without leaving the loop"""
            def body():
                saved = (E.heap, E.write_log, E.read_log, E.alloc_log)
                E.heap = entry_heap.fork()
                E.write_log, E.alloc_log, E.read_log = [], set(), None
                f2 = frame()
                self.frames.append(f2)
                try:
                    self.assign(s.target, it.item(i), f2)
                    try:
                        self.block(s.body, f2)
                    except FContinue:
                        pass
                    bad = [o for o, info in E.write_log if o.heapid not in E.alloc_log]
                    if bad:
                        raise Unsupported('%s: an iteration that continues writes %r' % (what, bad[0]))
                    return True
                except (FBreak, FReturn, PyRaise):
                    return False
                finally:
                    self.frames.pop()
                    E.heap, E.write_log, E.read_log, E.alloc_log = saved
            return tm.Or(*[tm.And(*pc) for pc, r in E.sub(body) if r])
        probe, kept = E.fresh_int('srch'), list(E.obligations)
        try:
            E.sub(lambda: (E.assume([tm.le(0, probe), tm.lt(probe, n)]), one(probe)))
        except Unsupported:
            # not a search: what was asked under that reading says nothing
            E.obligations[:] = kept + [o for o in E.obligations[len(kept):] if o.status == 'proved']
            raise
        fa = list(E.ghost.get('foralls', []))
        if E.branch(tm.boolvar(E.fresh('leaves'))):
            k = E.fresh_int('at')
            E.assume([tm.le(0, k), tm.lt(k, n)])
            E.ghost['foralls'] = fa + [(tm.const(0), k, one)]
            f2 = frame()
            fr.loc.clear()
            fr.loc.update(f2.loc)
            self.assign(s.target, it.item(k), fr)
            try:
                self.block(s.body, fr)
            except FBreak:
                return
            except FContinue:
                pass
            raise PathEnd('this iteration does not leave the loop')
        E.ghost['foralls'] = fa + [(tm.const(0), tm.t(n), one)]
        for nm in assigned:
            fr.loc[nm] = Poison('%s after %s' % (nm, what))
        self.block(s.orelse, fr)

    # -- automatic summary of all other loops (loops.py)
    def for_auto(self, s, fr, it, n):
        from .loops import LoopSummary
        LoopSummary(self, s, fr, it, n).summarise()

    def sum_term(self, n, body, katom):
        """SUM_{0<=k<n} body(k), linear, with k-free factors pulled out"""
        body = tm.t(body)
        if not body.p:
            return tm.const(0, body.sort)
        if katom not in tm.atoms_of(body):
            return tm.mul(n, body)
        out = None
        for m, c in body.p:
            free, dep = [], []
            for a, e in m:
                (dep if katom in tm.atoms_of(tm.of_atom(a)) else free).append((a, e))
            depT = T('Int' if all(a.sort == 'Int' and e > 0 for a, e in dep) else 'Real', ((tuple(dep), Fraction(1)),))
            s = tm.t(n) if not dep else tm.bind('SUM', depT.sort, [tm.t(n)], katom, [depT])
            term = tm.mul(T(body.sort if not free else 'Real', ((tuple(free), c),)), s)
            out = term if out is None else tm.add(out, term)
        return out

    # ------------------------------------------------------------------ expressions
    def eval(self, e, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return m(e, fr)

    def e_Constant(self, e, fr):
        v = e.value
        if isinstance(v, float):
            return tm.frac(v)
        if isinstance(v, complex):
            return Cx(tm.frac(v.real), tm.frac(v.imag))
        return v

    def e_Name(self, e, fr):
        n = e.id
        if n in fr.loc:
            v = fr.loc[n]
            if isinstance(v, Deferred):
                v = fr.loc[n] = v.force()
            if isinstance(v, CarriedPoison):
                raise NeedReduce(('loc', v.why))
            if isinstance(v, Poison):
                raise Unsupported('use of %r' % v)
            return v
        if n in fr.closure:
            return fr.closure[n]
        g = self.E.ghost.get('globals')
        if g and (id(fr.glob), n) in g:
            return g[id(fr.glob), n]
        if n in fr.glob:
            return self.glob(fr.glob[n])
        if hasattr(builtins, n):
            return getattr(builtins, n)
        raise PyRaise(NameError, n)

    def glob(self, v):
        if isinstance(v, float):
            return tm.PI if v == tm.PI_FLOAT else tm.frac(v)
        return v

    def e_Attribute(self, e, fr):
        return self.getattr(self.eval(e.value, fr), e.attr)

    def e_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args and 'super' not in fr.loc:
            first = list(fr.loc)[0] if fr.loc else None
            node, _ = fn_ast(fr.fn)
            first = node.args.args[0].arg
            return SuperProxy(fr.cls, fr.loc[first])
        fn = self.eval(e.func, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                it = self.iterate(self.eval(a.value, fr))
                c = tm.as_const(it.length) if isinstance(it.length, T) else it.length
                if c is None:
                    if a is not e.args[-1] or isinstance(fn, Native):
                        raise Unsupported('star-args of symbolic length')
                    args.append(StarTail(it))
                    continue
                args.extend(it.item(i) for i in range(int(c)))
            else:
                args.append(self.eval(a, fr))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, fr)
                if isinstance(d, SMap):
                    kw['**'] = d
                elif isinstance(d, SDict):
                    for kk in d.keys():
                        kw[kk] = d.get(kk)
                elif isinstance(d, dict):
                    kw.update(d)
                else:
                    raise Unsupported('** of %r' % (d,))
            else:
                kw[k.arg] = self.eval(k.value, fr)
        return self.call(fn, tuple(args), kw)

    def e_BinOp(self, e, fr):
        return self.binop(type(e.op), self.eval(e.left, fr), self.eval(e.right, fr))

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        if isinstance(e.op, ast.Not):
            if isinstance(v, (F, bool)):
                return tm.Not(v)
            return not self.truth(v)
        if isinstance(e.op, ast.USub):
            if isinstance(v, (int, Fraction)) and not isinstance(v, bool):
                return -v
            return self.binop(ast.Mult, -1, v)
        if isinstance(e.op, ast.UAdd):
            return v
        from . import models
        return models.invert(self, v)

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, fr)
            if i == len(e.values) - 1:
                return v
            tv = self.truth(v)
            if isand and not tv:
                return False if isinstance(v, (F, bool)) else v
            if not isand and tv:
                return True if isinstance(v, (F, bool)) else v
        return v

    def e_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        if len(e.ops) == 1:
            return self.compare(type(e.ops[0]), left, self.eval(e.comparators[0], fr))
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(r, fr)
            v = self.compare(type(op), left, right)
            if i == len(e.ops) - 1:
                return v
            if not self.truth(v):
                return False
            left = right

    def e_IfExp(self, e, fr):
        if self.truth(self.eval(e.test, fr)):
            return self.eval(e.body, fr)
        return self.eval(e.orelse, fr)

    def e_Tuple(self, e, fr):
        return tuple(self.elts(e.elts, fr))

    def elts(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                it = self.iterate(self.eval(x.value, fr))
                out.extend(it.item(i) for i in range(int(tm.as_const(it.length))))
            else:
                out.append(self.eval(x, fr))
        return out

    def e_List(self, e, fr):
        return SList(self.E, items=self.elts(e.elts, fr))

    def e_Set(self, e, fr):
        return set(self.elts(e.elts, fr))

    def e_Dict(self, e, fr):
        d = SDict(self.E)
        st = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.eval(v, fr)
                for kk in o.keys():
                    st[kk] = o.get(kk) if isinstance(o, SDict) else o[kk]
            else:
                st[self.eval(k, fr)] = self.eval(v, fr)
        self.E.heap[d.heapid] = st
        return d

    def e_Yield(self, e, fr):
        if '$on_yield' in fr.loc:
            fr.loc['$on_yield'](None if e.value is None else self.eval(e.value, fr))
            return None
        y = fr.loc.get('$yield')
        if y is None:
            raise Unsupported('yield')
        y.append(None if e.value is None else self.eval(e.value, fr))
        return None

    def e_Lambda(self, e, fr):
        return Closure(e, fr)

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        fr.loc[e.target.id] = v
        return v

    def e_JoinedStr(self, e, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.eval(v.value, fr)
                spec = ''
                if v.format_spec is not None:
                    spec = self.eval(v.format_spec, fr)
                if v.conversion not in (-1, 115):
                    if self.symbolic(x):
                        return Opaque('fstring')
                    x = repr(x)
                p = piece(self, spec, x)
                parts.append(format(x, spec) if p is None else p)
        return text(parts)

    def e_Subscript(self, e, fr):
        return self.getitem(self.eval(e.value, fr), self.index(e.slice, fr))

    def index(self, s, fr):
        if isinstance(s, ast.Slice):
            return slice(*(self.eval(x, fr) if x is not None else None for x in (s.lower, s.upper, s.step)))
        if isinstance(s, ast.Tuple):
            return tuple(self.index(x, fr) for x in s.elts)
        return self.eval(s, fr)

    def e_Starred(self, e, fr):
        raise Unsupported('starred')

    def comp(self, gens, fr, leaf, i=0):
        g = gens[i]
        it = self.iterate(self.eval(g.iter, fr))
        n = it.length
        c = tm.as_const(n) if isinstance(n, T) else n
        if c is None:
            raise Unsupported('comprehension over symbolic length')
        for j in range(int(c)):
            self.assign(g.target, it.item(j), fr)
            if all(self.truth(self.eval(x, fr)) for x in g.ifs):
                if i + 1 < len(gens):
                    self.comp(gens, fr, leaf, i + 1)
                else:
                    leaf()

    def sub_frame(self, fr):
        f2 = Frame(fr.fn, dict(fr.loc), fr.glob, fr.qual, fr.closure, fr.cls)
        f2.loops = fr.loops
        return f2

    def e_ListComp(self, e, fr):
        f2 = self.sub_frame(fr)
        if len(e.generators) == 1:
            src = bag_comp(self, e, f2, list)
            if isinstance(src, Bag):
                return src
            it = self.iterate(self.eval(e.generators[0].iter, f2) if src is None else src)
            n = it.length
            if isinstance(n, T) and tm.as_const(n) is None:
                if e.generators[0].ifs:
                    h = getattr(self, 'filter_hook', None)
                    if h is not None:
                        return h(self, e, f2, it)
                    raise Unsupported('filtered comprehension over symbolic length')
                return self.lazy_comp(e.elt, e.generators[0].target, f2, it)
        out = []
        self.comp(e.generators, f2, lambda: out.append(self.eval(e.elt, f2)))
        return SList(self.E, items=out)

    def lazy_comp(self, elt, target, fr, it):
        E = self.E
        heap = E.heap.fork()
        loc = dict(fr.loc)

        def fn(i):
            saved, alloc = E.heap, E.alloc_log
            E.heap, E.alloc_log = heap.fork(), set()
            f2 = Frame(fr.fn, dict(loc), fr.glob, fr.qual, fr.closure, fr.cls)
            f2.loops = fr.loops
            try:
                self.assign(target, it.item(i), f2)
                return self.eval(elt, f2)
            finally:
                new = {h: E.heap[h] for h in E.alloc_log}
                if alloc is not None:
                    alloc |= E.alloc_log
                E.heap, E.alloc_log = saved, alloc
                E.heap.update(new)        # objects made by the item expression
        return SList(E, length=it.length, fn=fn)

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, fr):
        f2 = self.sub_frame(fr)
        src = bag_comp(self, e, f2, set)
        if isinstance(src, Bag):
            return src
        out = set()
        self.comp(e.generators, f2, lambda: out.add(self.eval(e.elt, f2)))
        return out

    def e_DictComp(self, e, fr):
        f2 = self.sub_frame(fr)
        st = {}

        def leaf():
            st[self.eval(e.key, f2)] = self.eval(e.value, f2)
        self.comp(e.generators, f2, leaf)
        d = SDict(self.E)
        self.E.heap[d.heapid] = st
        return d

    # ------------------------------------------------------------------ items
    def norm_index(self, i, n):
        """python index semantics; raises IndexError on out-of-range paths"""
        E = self.E
        if isinstance(i, bool) or (hasattr(i, 'item') and not isinstance(i, (T, Arr))):
            i = int(i)
        if isinstance(i, Fraction):
            raise PyRaise(IndexError, 'float index')
        if isinstance(i, T) and i.sort != 'Int':
            if not tm.is_integral(i):
                raise Unsupported('non-integer index %r' % i)
            i = T('Int', i.p)
        if E.branch(tm.le(0, i)):
            if not E.branch(tm.lt(i, n)):
                raise PyRaise(IndexError, 'index out of range')
            return tm.t(i)
        j = tm.add(i, n)
        if not E.branch(tm.le(0, j)):
            raise PyRaise(IndexError, 'index out of range')
        return j

    def norm_slice(self, sl, n):
        E = self.E
        if sl.step is not None and sl.step != 1:
            raise Unsupported('slice step')

        def clamp(x, default):
            if x is None:
                return tm.t(default)
            if isinstance(x, Fraction):
                raise PyRaise(TypeError, 'slice index')
            x = tm.t(x)
            if x.sort != 'Int':
                if not tm.is_integral(x):
                    raise PyRaise(TypeError, 'slice indices must be integers')
                x = T('Int', x.p)
            if E.branch(tm.lt(x, 0)):
                x = tm.add(x, n)
                if E.branch(tm.lt(x, 0)):
                    return tm.const(0)
                return x
            if E.branch(tm.lt(n, x)):
                return tm.t(n)
            return x
        lo, hi = clamp(sl.start, 0), clamp(sl.stop, n)
        if not E.branch(tm.le(lo, hi)):
            hi = lo
        return lo, hi

    def getitem(self, o, ix):
        from . import models
        E = self.E
        if isinstance(o, Poison):
            raise Unsupported('use of %r' % o)
        if isinstance(o, Arr):
            return models.arr_getitem(self, o, ix if isinstance(ix, tuple) else (ix,))
        if isinstance(o, Ext):
            return o.getitem(self, ix)
        if isinstance(o, SList):
            if isinstance(ix, slice):
                if ix.step is not None and tm.as_const(ix.step) == -1 and ix.start is None and ix.stop is None:
                    n = o.length()
                    r = o.slice(0, n)          # a copy, read back to front
                    if r.st[0] == 'c':
                        return SList(E, items=list(r.st[1])[::-1])
                    return SList(E, length=n, fn=lambda i: r.st[2](tm.sub(tm.sub(n, 1), i)))
                lo, hi = self.norm_slice(ix, o.length())
                return o.slice(lo, hi)
            return o.get(self.norm_index(ix, o.length()))
        if isinstance(o, SDict):
            if self.symbolic(ix) and not isinstance(ix, SObj):
                return as_map(self, o).getitem(self, ix)
            v = o.get(ix)
            if v is SDict.MISSING:
                raise PyRaise(KeyError, ix)
            return v
        if isinstance(o, SObj):
            m = self.static(o.cls, '__getitem__')
            if m is None:
                raise PyRaise(TypeError, 'not subscriptable')
            return self.call(m, (o, ix))
        if isinstance(o, (tuple, list, str)):
            if isinstance(ix, slice):
                return o[slice(*(None if x is None else int(tm.as_const(x)) for x in (ix.start, ix.stop, ix.step)))]
            c = tm.as_const(ix)
            if c is None:
                return SList(E, items=o).get(self.norm_index(ix, len(o)))
            try:
                return o[int(c)]
            except IndexError as e:
                raise PyRaise(IndexError, e)
        if isinstance(o, (dict, types.MappingProxyType)):
            try:
                return o[ix]
            except KeyError as e:
                raise PyRaise(KeyError, e)
        m = self.attr_models.get((type(o), '__getitem__'))
        if m is not None:
            return m(self, o, ix)
        raise Unsupported('subscript of %r' % (o,))

    def setitem(self, o, ix, v):
        from . import models
        if isinstance(o, Arr):
            models.arr_setitem(self, o, ix if isinstance(ix, tuple) else (ix,), v)
        elif isinstance(o, SDict):
            if self.symbolic(ix) and not isinstance(ix, SObj):
                return as_map(self, o).setitem(self, ix, v)
            o.set(ix, v)
        elif isinstance(o, Ext):
            o.setitem(self, ix, v)
        elif isinstance(o, SList):
            o.setitem(self.norm_index(ix, o.length()), v)
        elif isinstance(o, SObj):
            m = self.static(o.cls, '__setitem__')
            self.call(m, (o, ix, v))
        else:
            m = self.attr_models.get((type(o), '__setitem__'))
            if m is not None:
                return m(self, o, ix, v)
            raise Unsupported('item store on %r' % (o,))


class CarriedPoison(Poison):
    pass


class _ById:
    def __init__(self, heapid):
        self.heapid = heapid


class ExcVal:
    """exception instance created by interpreted code"""

    def __init__(self, cls, args, kwargs):
        self.cls, self.args, self.kwargs = cls, args, kwargs
