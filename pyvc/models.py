"""Meaning of the builtins and of the dependency functions (math, numpy, scipy, numexpr) that dedop calls.
Every entry is an assumed contract on a dependency; the ones used by a check are listed in its evidence."""
import ast
import builtins
import collections
import enum
import functools
import math
import numbers
import types
import warnings
from fractions import Fraction
import numpy as np
import numpy.linalg
import numpy.fft
from . import terms as tm
from .terms import T, F, Cx, Str
from .ext import Ext, Text, SMap, Bag, percent, text, piece, as_map, lookup_of, map_update
from .engine import (Arr, SList, SDict, SObj, Opaque, Unsupported, PyRaise, PathEnd, Poison, Node, node_get)


class SymEnum:
    """symbolic member of an Enum: `code` is the index into the member list"""

    def __init__(self, cls, code):
        self.cls, self.code = cls, code

    def eq(self, m):
        if isinstance(m, SymEnum):
            return tm.eq(self.code, m.code) if m.cls is self.cls else False
        if isinstance(m, self.cls):
            return tm.eq(self.code, list(self.cls).index(m))
        if isinstance(m, int) and issubclass(self.cls, int):
            c = [i for i, x in enumerate(self.cls) if x.value == m]
            return tm.Or(*[tm.eq(self.code, i) for i in c]) if c else False
        return False


class DType:
    def __init__(self, kind):
        self.kind = kind


def kind_of(dt):
    if dt is None:
        return 'real'
    if isinstance(dt, DType):
        return dt.kind
    if dt is object:
        return 'object'
    k = np.dtype(dt).kind
    if k not in 'fciubO':
        raise Unsupported('dtype %r' % (dt,))
    return {'f': 'real', 'c': 'complex', 'i': 'int', 'u': 'int', 'b': 'bool', 'O': 'object'}[k]


def kind_of_value(v):
    if isinstance(v, Arr):
        return v.dtype
    if isinstance(v, (bool, F)):
        return 'bool'
    if isinstance(v, int):
        return 'int'
    if isinstance(v, (Fraction, float)):
        return 'real'
    if isinstance(v, T):
        return 'int' if v.sort == 'Int' else 'real'
    if isinstance(v, (Cx, complex)):
        return 'complex'
    return 'object'


ORD = ['bool', 'int', 'real', 'complex', 'object']


def promote(*ks):
    return max(ks, key=ORD.index)


def norm(v):
    """numpy scalars and floats -> engine scalars"""
    if isinstance(v, np.generic):
        v = v.item()
    if isinstance(v, float):
        if v != v or v in (math.inf, -math.inf):
            return v
        return tm.PI if v == math.pi else tm.frac(v)
    if isinstance(v, complex):
        return Cx(norm(v.real), norm(v.imag))
    if isinstance(v, np.ndarray):
        return v
    return v


def num(v):
    """scalar for arithmetic: int, Fraction, T or Cx"""
    v = norm(v)
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, F):
        return tm.ite(v, 1, 0)
    if isinstance(v, (int, Fraction, T, Cx)):
        return v
    if isinstance(v, float):
        raise Unsupported('non-finite number')
    if v is None:
        raise PyRaise(TypeError, 'None in arithmetic')
    raise Unsupported('arithmetic on %r' % (v,))


def is_scalar(v):
    return isinstance(v, (int, float, Fraction, T, Cx, F, complex, np.generic))


def sbin(I, op, a, b):
    a, b = num(a), num(b)
    if isinstance(a, Cx) or isinstance(b, Cx):
        if op is ast.Add:
            return tm.c_add(a, b)
        if op is ast.Sub:
            return tm.c_sub(a, b)
        if op is ast.Mult:
            return tm.c_mul(a, b)
        if op is ast.Div:
            return tm.c_div(a, b)
        if op is ast.Pow and tm.as_const(b) is not None and tm.as_const(b).denominator == 1 and tm.as_const(b) >= 0:
            r = tm.cx(1)
            for _ in range(int(tm.as_const(b))):
                r = tm.c_mul(r, a)
            return r
        raise Unsupported('complex %s' % op.__name__)
    ca = not isinstance(a, T)
    cb = not isinstance(b, T)
    if ca and cb:
        ii = isinstance(a, int) and isinstance(b, int)
        try:
            if op is ast.Add:
                return a + b
            if op is ast.Sub:
                return a - b
            if op is ast.Mult:
                return a * b
            if op is ast.Div:
                return Fraction(a) / b
            if op is ast.FloorDiv:
                return a // b if ii else Fraction(a // b)
            if op is ast.Mod:
                return a % b
            if op is ast.Pow:
                if ii and b >= 0:
                    return a ** b
                if Fraction(b).denominator == 1:
                    return Fraction(a) ** int(b)
                r = tm.power(a if a == 10 else tm.const(a), b)
                c = tm.as_const(r)
                return c if c is not None else r
            if op is ast.RShift and ii:
                return a >> b
            if op is ast.LShift and ii:
                return a << b
            if op is ast.BitAnd and ii:
                return a & b
        except ZeroDivisionError as e:
            raise PyRaise(ZeroDivisionError, e)
        raise Unsupported('op %s' % op.__name__)
    if op is ast.Add:
        return tm.add(a, b)
    if op is ast.Sub:
        return tm.sub(a, b)
    if op is ast.Mult:
        return tm.mul(a, b)
    if op is ast.Div:
        if tm.as_const(b) == 0:
            if (isinstance(a, T) or isinstance(b, T)) and op is ast.Div:
                # a numpy scalar divided by zero gives inf/nan and a warning: any value
                return tm.var(I.E.fresh('nonfinite'), 'Real')
            raise PyRaise(ZeroDivisionError)
        return tm.div(a, b)
    if op is ast.FloorDiv:
        r = idiv(I, a, b)
        return r
    if op is ast.RShift and isinstance(b, int) and b >= 0 and tm.is_integral(a):
        return idiv(I, a, 2 ** b)
    if op is ast.Mod:
        return imod(I, a, b)
    if op is ast.Pow:
        try:
            return tm.power(a, b)
        except TypeError as e:
            raise Unsupported(str(e))
    raise Unsupported('op %s' % op.__name__)


def idiv(I, a, b):
    a, b = tm.t(a), tm.t(b)
    if tm.is_integral(a) and tm.is_integral(b):
        r = tm.idiv(T('Int', a.p), T('Int', b.p))
        return r
    return tm.floor(tm.div(a, b))


def imod(I, a, b):
    a, b = tm.t(a), tm.t(b)
    return tm.sub(a, tm.mul(b, idiv(I, a, b)))


# ------------------------------------------------------------------ arrays
def zero_of(kind):
    return {'bool': False, 'int': 0, 'real': Fraction(0), 'complex': Cx(0, 0), 'object': 0}[kind]


def dim(v):
    v = norm(v)
    if isinstance(v, Fraction):
        if v.denominator != 1:
            raise PyRaise(TypeError, 'float dimension')
        return int(v)
    if isinstance(v, T):
        c = tm.as_const(v)
        if c is not None:
            return int(c)
        if v.sort != 'Int':
            if not tm.is_integral(v):
                raise Unsupported('non-integer dimension %r' % v)
            return T('Int', v.p)
    if isinstance(v, int):
        return v
    if isinstance(v, T):
        return v
    raise Unsupported('dimension %r' % (v,))


def shape_of(I, s):
    if isinstance(s, (tuple, list)):
        return tuple(dim(x) for x in s)
    if isinstance(s, SList):
        return tuple(dim(x) for x in s.st[1])
    return (dim(s),)


def to_arr(I, v, matrix=False):
    """anything array-like -> Arr (no copy for Arr)"""
    if isinstance(v, Arr):
        return v
    if is_scalar(v) or isinstance(v, SObj):
        v = norm(v)
        return Arr(I.E, (), kind_of_value(v), lambda idx, v=v: v)
    if isinstance(v, np.ndarray):
        vals = v
        k = kind_of(v.dtype)

        def g(idx):
            cs = [tm.as_const(i) for i in idx]
            if all(c is not None for c in cs):
                return norm(vals[tuple(int(c) for c in cs)])
            raise Unsupported('symbolic index into concrete array')
        return Arr(I.E, v.shape, k, g)
    if isinstance(v, (tuple, list, SList)):
        if isinstance(v, SList):
            st = v.st
            if st[0] == 's':
                fn = st[2]
                probe = fn(tm.var('probe!', 'Int'))
                if not is_scalar(probe):
                    raise Unsupported('array of symbolic list')
                k = kind_of_value(probe)
                return Arr(I.E, (dim(st[1]),), k, lambda idx: fn(idx[0]))
            items = list(st[1])
        else:
            items = list(v)
        subs = [to_arr(I, x) if isinstance(x, (tuple, list, SList, Arr, np.ndarray)) else norm(x) for x in items]
        if any(isinstance(x, Arr) for x in subs):
            if not all(isinstance(x, Arr) for x in subs):
                raise Unsupported('ragged array')
            shp = subs[0].shape
            for x in subs[1:]:
                if x.shape != shp:
                    raise Unsupported('ragged array')
            fz = [x.freeze() for x in subs]
            k = promote(*[x.dtype for x in subs])
            return Arr(I.E, (len(subs),) + shp, k, lambda idx: pick(I, fz, idx[0])(idx[1:]))
        if not subs:
            return Arr(I.E, (0,), 'real', lambda idx: Fraction(0))
        k = promote(*[kind_of_value(x) for x in subs])
        return Arr(I.E, (len(subs),), k, lambda idx: pick(I, subs, idx[0]))
    raise Unsupported('array from %r' % (v,))


def pick(I, seq, i):
    c = tm.as_const(i)
    if c is not None:
        return seq[int(c)]
    for j in range(len(seq) - 1):
        if I.E.branch(tm.eq(i, j)):
            return seq[j]
    return seq[-1]


def same_dim(I, a, b):
    if a == b:
        return True
    ca, cb = tm.as_const(a), tm.as_const(b)
    if ca is not None and cb is not None:
        return ca == cb
    return I.E.branch(tm.eq(a, b))


def bshape(I, *shapes):
    n = max(len(s) for s in shapes)
    out = []
    for i in range(n):
        d = 1
        for s in shapes:
            j = i - (n - len(s))
            if j < 0:
                continue
            x = s[j]
            if tm.as_const(x) == 1:
                continue
            if tm.as_const(d) == 1:
                d = x
            elif not same_dim(I, d, x):
                if isinstance(d, T) and I.E.branch(tm.eq(d, 1)):
                    d = x
                elif isinstance(x, T) and I.E.branch(tm.eq(x, 1)):
                    pass
                else:
                    raise PyRaise(ValueError, 'operands could not be broadcast together')
        out.append(d)
    return tuple(out)


def bindex(arr_shape, out_shape, idx):
    off = len(out_shape) - len(arr_shape)
    out = []
    for j, d in enumerate(arr_shape):
        if tm.as_const(d) == 1 and tm.as_const(out_shape[off + j]) != 1:
            out.append(0)
        else:
            out.append(idx[off + j])
    return out


def elementwise(I, f, kind, *vals):
    arrs = [to_arr(I, v) for v in vals]
    if any(isinstance(a, MArr) for a in arrs):
        return MArr.elementwise(I, f, kind, arrs)
    shp = bshape(I, *[a.shape for a in arrs])
    fz = [a.freeze() for a in arrs]
    shapes = [a.shape for a in arrs]
    mat = any(a.matrix for a in arrs)

    def g(idx):
        return f(*[z(bindex(s, shp, idx)) for z, s in zip(fz, shapes)])
    if shp == () and not any(isinstance(v, Arr) and v.ndim == 0 for v in vals):
        return g([])
    if shp == ():
        return g([])
    return Arr(I.E, shp, kind, g, matrix=mat)


class MArr(Arr):
    """a[mask], kept as the uncompressed array with its mask; elementwise operations with scalars and with arrays
    picked by the same mask, and storing back through that mask, are all that is understood"""

    def __init__(self, E, shape, dtype, fn, mask):
        super().__init__(E, shape, dtype, fn)
        self.mask = mask

    @property
    def shape(self):
        raise Unsupported('elements picked by a mask')

    @shape.setter
    def shape(self, v):
        self.full = v

    @property
    def ndim(self):
        return len(self.full)

    def get(self, idx):
        raise Unsupported('elements picked by a mask')

    def write(self, fn):
        raise Unsupported('elements picked by a mask')

    def same(self, mask):
        idx = [tm.var('any.%d' % j, 'Int') for j in range(self.ndim)]
        return self.mask is mask or self.mask(idx) == mask(idx)

    @staticmethod
    def elementwise(I, f, kind, arrs):
        ms = [a for a in arrs if isinstance(a, MArr)]
        if any(a.ndim for a in arrs if not isinstance(a, MArr)) or any(not m.same(ms[0].mask) for m in ms[1:]) \
                or any(m.full != ms[0].full for m in ms):
            raise Unsupported('elements picked by a mask')
        fz = [a.freeze() for a in arrs]
        return MArr(I.E, ms[0].full, kind,
                    lambda idx: f(*[z(idx if isinstance(a, MArr) else []) for z, a in zip(fz, arrs)]), ms[0].mask)


def binop(I, op, a, b):
    if isinstance(a, np.ndarray) and not (isinstance(b, np.ndarray) or not I.symbolic(b)):
        a = to_arr(I, a)
    if isinstance(b, np.ndarray) and isinstance(a, (Arr, T, Cx)):
        b = to_arr(I, b)
    if isinstance(a, Arr) or isinstance(b, Arr):
        if op is ast.MatMult:
            return matmul(I, to_arr(I, a), to_arr(I, b))
        if op is ast.Mult and isinstance(a, Arr) and isinstance(b, Arr) and (a.matrix or b.matrix):
            r = matmul(I, a, b)
            if isinstance(r, Arr):
                r.matrix = True
            return r
        if isinstance(a, (tuple, list, SList)):
            a = to_arr(I, a)
        if isinstance(b, (tuple, list, SList)):
            b = to_arr(I, b)
        ka, kb = kind_of_value(a), kind_of_value(b)
        if op in (ast.BitAnd, ast.BitOr) and ka == 'bool' and kb == 'bool':
            return elementwise(I, tm.And if op is ast.BitAnd else tm.Or, 'bool', a, b)
        if op is ast.Mult and ka == 'bool' and kb == 'bool':
            return elementwise(I, tm.And, 'bool', a, b)
        k = promote(ka, kb)
        if k == 'bool':
            k = 'int'
        if op is ast.Div and k == 'int':
            k = 'real'
        if op is ast.Pow and k == 'int' and not isinstance(b, int):
            k = 'real'
        return elementwise(I, lambda x, y: sbin(I, op, x, y), k, a, b)
    if is_scalar(a) and is_scalar(b):
        return sbin(I, op, a, b)
    if op is ast.Add:
        if isinstance(a, SList) and isinstance(b, SList):
            sa, sb = a.st, b.st
            if sa[0] == 'c' and sb[0] == 'c':
                return SList(I.E, items=sa[1] + sb[1])
            raise Unsupported('list concatenation')
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
    if op is ast.Mult:
        if isinstance(a, SList) and isinstance(b, int):
            return SList(I.E, items=a.st[1] * b)
        if isinstance(a, SList) and isinstance(b, T) and a.st[0] == 'c' and len(a.st[1]) == 1:
            x = a.st[1][0]
            return SList(I.E, length=b, fn=lambda i: x)
        if isinstance(a, tuple) and isinstance(b, int):
            return a * b
    if isinstance(a, (str, Str)) or isinstance(b, (str, Str)):
        if op is ast.Mod and isinstance(a, str):
            return percent(I, a, b)
        if isinstance(a, str) and isinstance(b, str) and op is ast.Add:
            return a + b
        if isinstance(a, str) and isinstance(b, int) and op is ast.Mult:
            return a * b
        if op is ast.Add and isinstance(a, (str, Str, Text)) and isinstance(b, (str, Str, Text)):
            return text([a, b])
        return Opaque('string')
    if isinstance(a, Ext) and not (isinstance(a, Text) and isinstance(b, Opaque)):
        return a.binop(I, op, b, True)
    if isinstance(b, Ext) and not (isinstance(b, Text) and isinstance(a, Opaque)):
        return b.binop(I, op, a, False)
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return Opaque('op')
    if isinstance(a, SObj) or isinstance(b, SObj):
        nm = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'truediv'}.get(op)
        if isinstance(a, SObj) and a.cls is not None:
            m = I.static(a.cls, '__%s__' % nm)
            if m is not None:
                return I.call(m, (a, b))
        if isinstance(b, SObj) and b.cls is not None:
            m = I.static(b.cls, '__r%s__' % nm)
            if m is not None:
                return I.call(m, (b, a))
    if not I.symbolic(a) and not I.symbolic(b):
        import operator
        fn = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv,
              ast.BitAnd: operator.and_, ast.BitOr: operator.or_, ast.Mod: operator.mod,
              ast.FloorDiv: operator.floordiv, ast.Pow: operator.pow, ast.BitXor: operator.xor}.get(op)
        if fn is not None:
            return I.native(fn, (a, b), {})
    if a is None or b is None:
        raise PyRaise(TypeError, 'unsupported operand None')
    raise Unsupported('%s on %r, %r' % (op.__name__, a, b))


def invert(I, v):
    if isinstance(v, Arr) and v.dtype == 'bool':
        return elementwise(I, tm.Not, 'bool', v)
    if isinstance(v, int):
        return ~v
    raise Unsupported('invert %r' % (v,))


def identical(a, b):
    if a is b:
        return True
    if isinstance(a, SObj) and isinstance(b, SObj):
        if a.ident is not None and b.ident is not None:
            if a.ident[0] != b.ident[0]:
                return False
            return tm.eq(a.ident[1], b.ident[1])
        return False
    if isinstance(a, SymEnum):
        return a.eq(b)
    if isinstance(b, SymEnum):
        return b.eq(a)
    if isinstance(a, (bool, int, str)) and isinstance(b, (bool, int, str)) and type(a) is type(b):
        return a == b
    if isinstance(a, F) and isinstance(b, bool):
        return a if b else tm.Not(a)
    if isinstance(b, F) and isinstance(a, bool):
        return b if a else tm.Not(b)
    return False


def equal(I, a, b):
    a, b = norm(a), norm(b)
    if a is None or b is None:
        if isinstance(a, SObj) and a.cls is not None and isinstance(I.static(a.cls, '__eq__'), types.FunctionType):
            return I.call(I.static(a.cls, '__eq__'), (a, b))
        return a is b
    if isinstance(a, SymEnum):
        return a.eq(b)
    if isinstance(b, SymEnum):
        return b.eq(a)
    if isinstance(a, (bool, F)) and isinstance(b, (bool, F)):
        return tm.Iff(a, b)
    if isinstance(a, float) or isinstance(b, float):
        if isinstance(a, (int, float, Fraction)) and isinstance(b, (int, float, Fraction)):
            return float(a) == float(b)
        raise Unsupported('non-finite comparison')
    if is_scalar(a) and is_scalar(b):
        if isinstance(a, Cx) or isinstance(b, Cx):
            return tm.c_eq(a, b)
        return tm.eq(num(a), num(b))
    if isinstance(a, (str, Str)) and isinstance(b, (str, Str)):
        return tm.streq(a, b)
    if isinstance(a, Ext):
        return a.eq(I, b)
    if isinstance(b, Ext):
        return b.eq(I, a)
    if isinstance(a, (tuple, SList)) and isinstance(b, (tuple, SList)) and type(a) is type(b):
        la = a.length() if isinstance(a, SList) else len(a)
        lb = b.length() if isinstance(b, SList) else len(b)
        if isinstance(la, T) or isinstance(lb, T):
            raise Unsupported('comparison of symbolic lists')
        if la != lb:
            return False
        xa = a.st[1] if isinstance(a, SList) else a
        xb = b.st[1] if isinstance(b, SList) else b
        return tm.And(*[equal(I, x, y) for x, y in zip(xa, xb)])
    if isinstance(a, SObj):
        m = I.static(a.cls, '__eq__') if a.cls else None
        if isinstance(m, types.FunctionType):
            r = I.call(m, (a, b))
            return r
        return identical(a, b)
    if isinstance(b, SObj):
        return equal(I, b, a)
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        if a is b:
            return True
        return tm.boolvar('eq', tm.var('id%d' % id(a), 'Int'), tm.var('id%d' % id(b), 'Int'))
    if I.symbolic(a) != I.symbolic(b):
        return False
    if not I.symbolic(a):
        return bool(a == b)
    raise Unsupported('equality of %r and %r' % (a, b))


def scompare(I, op, a, b):
    if op is ast.Eq:
        return equal(I, a, b)
    if op is ast.NotEq:
        if isinstance(a, SObj) and a.cls and isinstance(I.static(a.cls, '__ne__'), types.FunctionType):
            return I.call(I.static(a.cls, '__ne__'), (a, b))
        return tm.Not(truthform(I, equal(I, a, b)))
    a, b = norm(a), norm(b)
    if isinstance(a, float) or isinstance(b, float):
        if isinstance(a, (int, float, Fraction)) and isinstance(b, (int, float, Fraction)):
            a, b = float(a), float(b)
            return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[op]
        inf = b if isinstance(b, float) else a
        if inf != inf:
            return False
        big_b = (b > 0) if isinstance(b, float) else (a < 0)
        return {ast.Lt: big_b, ast.LtE: big_b, ast.Gt: not big_b, ast.GtE: not big_b}[op]
    if is_scalar(a) and is_scalar(b):
        a, b = num(a), num(b)
        if isinstance(a, Cx) or isinstance(b, Cx):
            raise Unsupported('complex order')
        return {ast.Lt: tm.lt, ast.LtE: tm.le, ast.Gt: tm.gt, ast.GtE: tm.ge}[op](a, b)
    if isinstance(a, SObj) and a.cls is not None:
        nm = {ast.Lt: '__lt__', ast.LtE: '__le__', ast.Gt: '__gt__', ast.GtE: '__ge__'}[op]
        m = I.static(a.cls, nm)
        if isinstance(m, types.FunctionType):
            return I.call(m, (a, b))
    if a is None or b is None:
        raise PyRaise(TypeError, 'ordering None')
    if not I.symbolic(a) and not I.symbolic(b):
        import operator
        return I.native({ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}[op],
                        (a, b), {})
    raise Unsupported('%s on %r, %r' % (op.__name__, a, b))


def truthform(I, v):
    if isinstance(v, (bool, F)):
        return v
    return I.truth(v)


def compare(I, op, a, b):
    if op is ast.Is or op is ast.IsNot:
        r = identical(a, b)
        return r if op is ast.Is else tm.Not(r)
    if op in (ast.In, ast.NotIn):
        r = contains(I, b, a)
        return r if op is ast.In else tm.Not(truthform(I, r))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a = to_arr(I, a) if isinstance(a, np.ndarray) else a
        b = to_arr(I, b) if isinstance(b, np.ndarray) else b
    if isinstance(a, Arr) or isinstance(b, Arr):
        if a is None or b is None:
            return op is ast.NotEq
        return elementwise(I, lambda x, y: truthform(I, scompare(I, op, x, y)), 'bool', a, b)
    return scompare(I, op, a, b)


def contains(I, c, x):
    if isinstance(c, SDict):
        if isinstance(x, SObj):
            return c.has(x)
        if I.symbolic(x):
            return as_map(I, c).contains(I, x)
        return c.has(x)
    if isinstance(c, Ext):
        return c.contains(I, x)
    if isinstance(c, SList):
        st = c.st
        if st[0] == 'c' and isinstance(x, Str) and all(isinstance(v, (str, Str)) for v in st[1]):
            return tm.Or(*[tm.streq(x, v) for v in st[1]])
        if st[0] == 'c':
            for v in st[1]:
                if I.truth(equal(I, v, x)):
                    return True
            return False
        raise Unsupported('membership in symbolic list')
    if isinstance(c, (tuple, list, set, frozenset)) and (I.symbolic(x) or any(I.symbolic(v) for v in c)
                                                         or isinstance(x, SymEnum)):
        for v in c:
            if I.truth(equal(I, v, x)):
                return True
        return False
    if isinstance(c, SObj):
        m = I.static(c.cls, '__contains__')
        if m is not None:
            return I.call(m, (c, x))
    h = I.attr_models.get((type(c), '__contains__'))
    if h is not None:
        return h(I, c, x)
    if I.symbolic(x) or I.symbolic(c):
        raise Unsupported('membership of %r in %r' % (x, c))
    try:
        return x in c
    except TypeError as e:
        raise PyRaise(TypeError, e)


def cast(I, v, kind):
    """conversion of a value stored into an array of the given kind"""
    if kind == 'object':
        return v
    v = norm(v)
    if isinstance(v, Arr) and v.ndim == 0:
        v = v.get([])
    if kind == 'complex':
        return tm.cx(num(v))
    if isinstance(v, Cx):
        if tm.as_const(v.im) == 0:
            v = v.re
        else:
            raise Unsupported('complex stored into a real array')
    if kind == 'real':
        if isinstance(v, float):
            raise Unsupported('non-finite stored')
        return num(v)
    if kind == 'int':
        v = num(v)
        if isinstance(v, Fraction):
            return int(v)
        if isinstance(v, T):
            return tm.trunc(v)
        return v
    if kind == 'bool':
        if isinstance(v, (bool, F)):
            return v
        return tm.ne(num(v), 0)
    raise Unsupported('cast')


def as_view(arr):
    """(owner, vmap) of an array seen as a view"""
    if arr.root is not None:
        return arr.root, list(arr.vmap)
    return arr, [('off', i, 0, 1) for i in range(arr.ndim)]


def mk_view(I, arr, spec):
    """spec: per array dim ('pt', e) | ('rng', lo, n, step) and ('new',) entries"""
    owner, vmap = as_view(arr)
    newmap = {}
    shape = []
    d = 0
    for s in spec:
        if s[0] == 'new':
            shape.append(1)
            continue
        if s[0] == 'pt':
            newmap[d] = s
        else:
            newmap[d] = ('rng', len(shape), s[1], s[3])
            shape.append(s[2])
        d += 1
    out = []
    for m in vmap:
        if m[0] == 'pt':
            out.append(m)
            continue
        _, vd, off, step = m
        s = newmap[vd]
        if s[0] == 'pt':
            out.append(('pt', tm.add(off, s[1]) if step == 1 else tm.sub(off, s[1])))
        else:
            lo = s[2]
            o2 = tm.add(off, lo) if step == 1 else tm.sub(off, lo)
            out.append(('off', s[1], o2, step * s[3]))
    v = Arr(I.E, [dimc(x) for x in shape], arr.dtype, root=owner, vmap=out)
    return v


def dimc(x):
    c = tm.as_const(x)
    return int(c) if c is not None else x


def index_spec(I, arr, ix, check=True):
    """normalise an index tuple; returns spec or ('fancy', ...)"""
    ix = list(ix)
    nreal = sum(1 for x in ix if x is not None and x is not Ellipsis)
    if Ellipsis in [x for x in ix if x is Ellipsis]:
        p = [i for i, x in enumerate(ix) if x is Ellipsis][0]
        ix[p:p + 1] = [slice(None)] * (arr.ndim - nreal)
    else:
        ix += [slice(None)] * (arr.ndim - nreal)
    spec = []
    d = 0
    for x in ix:
        if x is None:
            spec.append(('new',))
            continue
        if d >= arr.ndim:
            raise PyRaise(IndexError, 'too many indices')
        n = arr.shape[d]
        if isinstance(x, slice):
            st = tm.as_const(x.step) if x.step is not None else 1
            if st == 1:
                if x.start is None and x.stop is None:
                    spec.append(('rng', 0, n, 1))
                else:
                    lo, hi = I.norm_slice(slice(x.start, x.stop), n)
                    spec.append(('rng', lo, tm.sub(hi, lo), 1))
            elif st == -1 and x.start is None and x.stop is None:
                spec.append(('rng', tm.sub(n, 1), n, -1))
            else:
                raise Unsupported('slice step')
        elif isinstance(x, (SList, list, np.ndarray)) or isinstance(x, Arr) and x.ndim > 0:
            spec.append(('fancy', to_arr(I, x)))
        else:
            x = norm(x)
            if isinstance(x, Arr):
                x = x.get([])
            if isinstance(x, bool) or isinstance(x, F):
                raise Unsupported('boolean index')
            if not isinstance(x, (int, T, Fraction)):
                raise PyRaise(IndexError, 'bad index %r' % (x,))
            spec.append(('pt', I.norm_index(x, n) if check else tm.t(x)))
        d += 1
    return spec


def arr_getitem(I, arr, ix, check=True):
    if len(ix) == 1 and isinstance(ix[0], Arr) and ix[0].dtype == 'bool' and ix[0].ndim == arr.ndim:
        return compress(I, arr, ix[0])
    spec = index_spec(I, arr, ix, check)
    fan = [s for s in spec if s[0] == 'fancy']
    if fan:
        return fancy_get(I, arr, spec)
    if all(s[0] == 'pt' for s in spec) and not (arr.matrix and len(ix) < arr.ndim):
        return arr.get([s[1] for s in spec])
    if arr.matrix and len(spec) == arr.ndim:
        spec = [('rng', s[1], 1, 1) if s[0] == 'pt' else s for s in spec]
        v = mk_view(I, arr, spec)
        v.matrix = True
        return v
    v = mk_view(I, arr, spec)
    return v


def compress(I, arr, mask):
    if tuple(mask.shape) != tuple(arr.shape):
        raise Unsupported('mask of another shape')
    return MArr(I.E, arr.shape, arr.dtype, arr.freeze(), mask.freeze())


def fancy_get(I, arr, spec):
    fans = [(i, s[1]) for i, s in enumerate(spec) if s[0] == 'fancy']
    if len(fans) > 1:
        raise Unsupported('several index arrays')
    p, ixa = fans[0]
    if ixa.dtype not in ('int', 'real'):
        raise Unsupported('index array of kind %s' % ixa.dtype)
    if ixa.dtype == 'real' and not (ixa.ndim == 1 and tm.as_const(ixa.shape[0]) == 0):
        raise PyRaise(IndexError, 'arrays used as indices must be of integer type')
    z = arr.freeze()
    zi = ixa.freeze()
    shape = []
    for s in spec:
        if s[0] == 'rng':
            shape.append(dimc(s[2]))
        elif s[0] == 'fancy':
            shape.extend(ixa.shape)
        elif s[0] == 'new':
            shape.append(1)

    def g(idx):
        out = []
        k = 0
        for s in spec:
            if s[0] == 'pt':
                out.append(s[1])
            elif s[0] == 'new':
                k += 1
            elif s[0] == 'rng':
                out.append(tm.add(s[1], idx[k]) if s[3] == 1 else tm.sub(s[1], idx[k]))
                k += 1
            else:
                v = zi(idx[k:k + ixa.ndim])
                k += ixa.ndim
                out.append(I.norm_index(v, arr.shape[len(out)]))
        return z(out)
    return Arr(I.E, shape, arr.dtype, g)


def arr_setitem(I, arr, ix, v):
    if len(ix) == 1 and isinstance(ix[0], Arr) and ix[0].dtype == 'bool' and ix[0].ndim == arr.ndim:
        mask = ix[0].freeze()
        if tuple(ix[0].shape) != tuple(arr.shape):
            raise Unsupported('mask of another shape')
        old = arr.freeze()
        if isinstance(v, Arr):
            if not isinstance(v, MArr) or not v.same(mask) or v.full != arr.shape:
                raise Unsupported('masked store of something else than elements picked by that mask')
            new = v.freeze()
        else:
            new = lambda idx: v
        kind = arr.dtype
        arr.write(lambda idx: cast(I, new(idx), kind) if I.truth(mask(idx)) else old(idx))
        return
    spec = index_spec(I, arr, ix)
    if any(s[0] == 'fancy' for s in spec):
        raise Unsupported('store through an index array')
    assign_array(I, mk_view(I, arr, spec), v)


def assign_array(I, arr, value):
    kind = arr.dtype
    if kind == 'object' and not isinstance(value, Arr):
        arr.write(lambda idx: value)
        return
    if value is None and kind != 'object':
        raise Unsupported('None stored into a numeric array')
    val = to_arr(I, value)
    if val.ndim > arr.ndim:
        extra = val.ndim - arr.ndim
        if all(tm.as_const(d) == 1 for d in val.shape[:extra]):
            z0 = val.freeze()
            sh = val.shape[extra:]
            val = Arr(I.E, sh, val.dtype, lambda idx: z0([0] * extra + list(idx)))
        else:
            raise PyRaise(ValueError, 'could not broadcast')
    off = arr.ndim - val.ndim
    for j, d in enumerate(val.shape):
        if tm.as_const(d) == 1:
            continue
        if not same_dim(I, d, arr.shape[off + j]):
            raise PyRaise(ValueError, 'could not broadcast input array')
    z = val.freeze()
    sh, out = val.shape, arr.shape
    arr.write(lambda idx: cast(I, z(bindex(sh, out, idx)), kind))


def matmul(I, a, b):
    if a.ndim == 1 and b.ndim == 1:
        return dot1(I, a.freeze(), b.freeze(), a.shape[0], b.shape[0])
    za, zb = a.freeze(), b.freeze()
    mat = a.matrix or b.matrix
    if a.ndim == 2 and b.ndim == 2:
        n = a.shape[1]
        if not same_dim(I, n, b.shape[0]):
            raise PyRaise(ValueError, 'shapes not aligned')
        return Arr(I.E, (a.shape[0], b.shape[1]), promote(a.dtype, b.dtype),
                   lambda idx: dot1(I, lambda k: za([idx[0], k[0]]), lambda k: zb([k[0], idx[1]]), n, n), matrix=mat)
    if a.ndim == 2 and b.ndim == 1:
        n = a.shape[1]
        if not same_dim(I, n, b.shape[0]):
            raise PyRaise(ValueError, 'shapes not aligned')
        r = Arr(I.E, (a.shape[0],), promote(a.dtype, b.dtype),
                lambda idx: dot1(I, lambda k: za([idx[0], k[0]]), zb, n, n))
        if mat:
            z = r.freeze()
            return Arr(I.E, (1, a.shape[0]), r.dtype, lambda idx: z([idx[1]]), matrix=True)
        return r
    if a.ndim == 1 and b.ndim == 2:
        n = a.shape[0]
        if not same_dim(I, n, b.shape[0]):
            raise PyRaise(ValueError, 'shapes not aligned')
        return Arr(I.E, (b.shape[1],), promote(a.dtype, b.dtype),
                   lambda idx: dot1(I, za, lambda k: zb([k[0], idx[0]]), n, n), matrix=False)
    raise Unsupported('matmul of %d-d and %d-d' % (a.ndim, b.ndim))


def dot1(I, za, zb, n, m):
    if not same_dim(I, n, m):
        raise PyRaise(ValueError, 'shapes not aligned')
    return sum_over(I, n, lambda k: sbin(I, ast.Mult, za([k]), zb([k])))


def sum_over(I, n, f):
    """sum_{0<=k<n} f(k); f may branch; short constant extents are unrolled"""
    E = I.E
    c = tm.as_const(n)
    if c is not None and c <= 6:
        r = 0
        for k in range(int(c)):
            r = sbin(I, ast.Add, r, f(k))
        return r
    k = E.fresh_int('s')
    ka = list(tm.atoms_of(k))[0]

    def one():
        E.assume([tm.le(0, k), tm.lt(k, n)])
        return num(f(k))
    v = E.merge(one) if E.branch(tm.lt(0, n)) else 0
    if isinstance(v, Cx):
        return Cx(I.sum_term(n, v.re, ka), I.sum_term(n, v.im, ka))
    return I.sum_term(n, tm.t(v), ka)


def flat_fn(I, a):
    """(size, fn(k)) of the row-major flattening"""
    z = a.freeze()
    if a.ndim == 0:
        return 1, lambda k: z([])
    if a.ndim == 1:
        return a.shape[0], lambda k: z([k])
    if a.ndim == 2:
        if tm.as_const(a.shape[0]) == 1:
            return a.shape[1], lambda k: z([0, k])
        if tm.as_const(a.shape[1]) == 1:
            return a.shape[0], lambda k: z([k, 0])
        n, m = a.shape
        cm = tm.as_const(m)
        if tm.as_const(n) is not None and cm is not None:
            return int(tm.as_const(n) * cm), lambda k: z([idiv(I, k, m), imod(I, k, m)]) \
                if tm.as_const(k) is None else z([int(tm.as_const(k)) // int(cm), int(tm.as_const(k)) % int(cm)])
        return tm.mul(n, m), lambda k: z([idiv(I, k, m), imod(I, k, m)])
    raise Unsupported('flatten of %d-d' % a.ndim)


def reduce_axis(I, a, axis, red, kind=None):
    """red(n, f) -> scalar"""
    a = to_arr(I, a)
    if axis is None:
        if a.ndim == 2 and not all(tm.as_const(d) is not None for d in a.shape) and \
                not any(tm.as_const(d) == 1 for d in a.shape):
            z = a.freeze()
            return red(a.shape[0], lambda i: red(a.shape[1], lambda j: z([i, j])))
        n, f = flat_fn(I, a)
        return red(n, f)
    axis = int(tm.as_const(axis))
    if axis < 0:
        axis += a.ndim
    z = a.freeze()
    n = a.shape[axis]
    shape = a.shape[:axis] + a.shape[axis + 1:]
    g = lambda idx: red(n, lambda k: z(list(idx[:axis]) + [k] + list(idx[axis:])))
    if not shape:
        return g([])
    return Arr(I.E, shape, kind or a.dtype, g)


# ------------------------------------------------------------------ scalar math
def smath(I, name, *args):
    if any(a is None or isinstance(a, (str, Str)) for a in args):
        raise PyRaise(TypeError, 'must be real number')
    args = [num(a) for a in args]
    if any(isinstance(a, Cx) for a in args):
        a = args[0]
        if name == 'exp':
            return tm.c_exp(a)
        if name == 'abs':
            return tm.sqrt(tm.c_abs2(a))
        if name == 'conj':
            return Cx(a.re, tm.neg(a.im))
        if name == 'isfinite':
            return True
        raise Unsupported('complex %s' % name)
    a = args[0]
    consts = all(not isinstance(x, T) for x in args)
    if name == 'sqrt':
        if consts and a < 0:
            raise PyRaise(ValueError, 'math domain error')
        return back(tm.sqrt(a))
    if name == 'cos':
        return back(tm.cos(a))
    if name == 'sin':
        return back(tm.sin(a))
    if name == 'tan':
        return tm.div(tm.sin(a), tm.cos(a))
    if name == 'exp':
        return back(tm.exp(a))
    if name == 'log10':
        return back(tm.log10(a))
    if name == 'abs':
        return abs(a) if consts else tm.absv(a)
    if name == 'radians':
        return tm.mul(a, tm.div(tm.PI, 180))
    if name == 'degrees':
        return tm.mul(a, tm.div(180, tm.PI))
    if name in ('acos', 'asin', 'atan', 'atan2', 'log'):
        return tm.generic(name, *args)
    if name == 'conj':
        return a
    if name == 'real':
        return a
    if name == 'imag':
        return 0
    if name == 'isfinite':
        return True
    if name == 'round':
        return round(a) if consts else tm.roundi(a)
    if name == 'floor':
        return tm.floor(a) if not consts else math.floor(a)
    if name == 'ceil':
        return tm.neg(tm.floor(tm.neg(a))) if not consts else math.ceil(a)
    if name == 'trunc':
        return tm.trunc(a) if not consts else math.trunc(a)
    if name == 'sign':
        if consts:
            return (a > 0) - (a < 0)
        return 1 if I.truth(tm.lt(0, a)) else (-1 if I.truth(tm.lt(a, 0)) else 0)
    if name == 'negative':
        return sbin(I, ast.Sub, 0, a)
    if name == 'reciprocal':
        return sbin(I, ast.Div, 1, a)
    if name == 'square':
        return sbin(I, ast.Mult, a, a)
    raise Unsupported(name)


def back(x):
    c = tm.as_const(x)
    return c if c is not None else x


def plain(name, kw, allow=()):
    """options that a model does not know must have their default value"""
    bad = [k for k, v in kw.items() if k not in allow and not (v is None or k == 'keepdims' and v is False or
                                                               k == 'order' and v in ('C', 'K', 'A') or k == 'subok')]
    if bad:
        raise Unsupported('%s with %s' % (name, ', '.join(bad)))


def ufunc(name, kind=None):
    def h(I, *args, **kw):
        kw = {k: v for k, v in kw.items() if not (k == 'dtype')}
        if kw:
            raise Unsupported('%s with %s' % (name, list(kw)))
        args = [x if not isinstance(x, (SList, tuple, list, np.ndarray)) else to_arr(I, x) for x in args]
        if any(isinstance(a, Arr) for a in args):
            k = kind or promote(*[kind_of_value(a) for a in args])
            if name == 'abs' and k == 'complex':
                k = 'real'
            elif k in ('int', 'bool') and name not in ('abs', 'conj', 'round', 'isfinite', 'square', 'real'):
                k = 'real'
            return elementwise(I, lambda *x: smath(I, name, *x), k, *args)
        return smath(I, name, *args)
    h.contract = name
    return h


def mathfn(name):
    def h(I, *args):
        args = [scalarize(I, a) for a in args]
        return smath(I, name, *args)
    h.contract = name
    return h


def scalarize(I, a):
    if isinstance(a, Arr):
        if all(tm.as_const(d) == 1 for d in a.shape):
            return a.get([0] * a.ndim)
        raise PyRaise(TypeError, 'only size-1 arrays can be converted')
    return a


# ------------------------------------------------------------------ fft
def fft_scalar(I, f, n, q):
    """DFT value at q of the length-n sequence f (f may branch)"""
    E = I.E
    k = E.fresh_int('f')
    ka = list(tm.atoms_of(k))[0]

    def one():
        E.assume([tm.le(0, k), tm.lt(k, n)])
        return tm.cx(num(f(k)))
    v = tm.cx(E.merge(one))
    if not v.re.p and not v.im.p:
        return Cx(0, 0)
    return Cx(tm.bind('FFTre', 'Real', [tm.t(q), tm.t(n)], ka, [v.re, v.im]),
              tm.bind('FFTim', 'Real', [tm.t(q), tm.t(n)], ka, [v.re, v.im]))


def m_fft(I, a, n=None, axis=-1, norm=None, inverse=False):
    a = to_arr(I, a)
    axis = int(tm.as_const(axis))
    if axis < 0:
        axis += a.ndim
    src = a.shape[axis]
    N = dim(n) if n is not None else src
    z = a.freeze()
    same = same_dim(I, N, src)
    if norm not in (None, 'backward', 'ortho', 'forward'):
        raise Unsupported('fft norm %r' % (norm,))

    def g(idx):
        idx = list(idx)

        def f(k):
            if not same and not I.E.branch(tm.lt(k, src)):
                return 0
            v = tm.cx(num(z(idx[:axis] + [k] + idx[axis + 1:])))
            return Cx(v.re, tm.neg(v.im)) if inverse else v
        r = fft_scalar(I, f, N, idx[axis])
        if inverse:
            r = Cx(r.re, tm.neg(r.im))
        if norm == 'ortho':
            r = tm.c_div(r, tm.sqrt(N))
        elif inverse and norm in (None, 'backward') or not inverse and norm == 'forward':
            r = tm.c_div(r, N)
        return r
    shape = a.shape[:axis] + (N,) + a.shape[axis + 1:]
    return Arr(I.E, shape, 'complex', g)


def m_ifft(I, a, n=None, axis=-1, norm=None):
    return m_fft(I, a, n, axis, norm, inverse=True)


def m_fftshift(I, a, axes=None, inverse=False):
    a = to_arr(I, a)
    if axes is None:
        ax = list(range(a.ndim))
    elif isinstance(axes, int):
        ax = [axes % a.ndim]
    else:
        ax = [int(x) % a.ndim for x in axes]
    z = a.freeze()

    def g(idx):
        idx = list(idx)
        for d in ax:
            n = a.shape[d]
            h = idiv(I, n, 2)
            if not inverse:
                if I.E.branch(tm.le(h, idx[d])):
                    idx[d] = tm.sub(idx[d], h)
                else:
                    idx[d] = tm.add(tm.sub(idx[d], h), n)
            else:
                if I.E.branch(tm.lt(tm.add(idx[d], h), n)):
                    idx[d] = tm.add(idx[d], h)
                else:
                    idx[d] = tm.sub(tm.add(idx[d], h), n)
        return z(idx)
    return Arr(I.E, a.shape, a.dtype, g)


def m_ifftshift(I, a, axes=None):
    return m_fftshift(I, a, axes, inverse=True)


# ------------------------------------------------------------------ numpy constructors
def m_full(val):
    def h(I, shape, dtype=None, order=None, **kw):
        plain('array constructor', kw)
        k = kind_of(dtype)
        v = val if k != 'complex' else Cx(val, 0)
        if k == 'bool':
            v = bool(val)
        return Arr(I.E, shape_of(I, shape), k, lambda idx: v if k != 'real' else Fraction(val))
    return h


def m_empty(I, shape, dtype=None, order=None):
    k = kind_of(dtype)
    nm = I.E.fresh('empty')

    def g(idx):
        args = [tm.t(i) for i in idx]
        if k == 'real':
            return tm.app(nm, 'Real', *args)
        if k == 'int':
            return tm.app(nm, 'Int', *args)
        if k == 'bool':
            return tm.boolvar(nm, *args)
        if k == 'complex':
            return Cx(tm.app(nm + 'r', 'Real', *args), tm.app(nm + 'i', 'Real', *args))
        return None
    return Arr(I.E, shape_of(I, shape), k, g)


def m_like(val):
    def h(I, a, dtype=None, **kw):
        plain('array constructor', kw)
        a = to_arr(I, a)
        dt = DType(a.dtype) if dtype is None else dtype
        return (m_empty if val is None else m_full(val))(I, a.shape, dt)
    return h


def m_array(I, v, dtype=None, copy=True, **kw):
    plain('array', kw)
    if copy is not True and isinstance(v, Arr):
        raise Unsupported('array(copy=False)')
    if isinstance(v, np.ndarray) and dtype is None:
        return np.array(v)
    a = to_arr(I, v)
    k = a.dtype if dtype is None else kind_of(dtype)
    z = a.freeze()
    return Arr(I.E, a.shape, k, (lambda idx: cast(I, z(idx), k)) if k != a.dtype else z)


def m_asarray(I, v, dtype=None, **kw):
    plain('asarray', kw)
    if isinstance(v, Arr) and (dtype is None or kind_of(dtype) == v.dtype):
        if v.matrix:
            r = mk_view(I, v, [('rng', 0, d, 1) for d in v.shape])
            return r
        return v
    if isinstance(v, np.ndarray) and dtype is None:
        return v
    return m_array(I, v, dtype)


def m_matrix(I, v, dtype=None, copy=True):
    a = m_array(I, v, dtype) if not isinstance(v, np.ndarray) else to_arr(I, v)
    if a.ndim == 1:
        z = a.freeze()
        a = Arr(I.E, (1, a.shape[0]), a.dtype, lambda idx: z([idx[1]]))
    elif a.ndim == 0:
        z = a.freeze()
        a = Arr(I.E, (1, 1), a.dtype, lambda idx: z([]))
    a.matrix = True
    return a


def m_asmatrix(I, v, dtype=None):
    if isinstance(v, Arr):
        if v.matrix:
            return v
        if v.ndim == 2:
            r = mk_view(I, v, [('rng', 0, d, 1) for d in v.shape])
        elif v.ndim == 1:
            r = mk_view(I, v, [('new',), ('rng', 0, v.shape[0], 1)])
        else:
            raise Unsupported('asmatrix')
        r.matrix = True
        return r
    return m_matrix(I, v, dtype)


def m_arange(I, *args, dtype=None):
    args = [norm(a) for a in args]
    lo, hi = (0, args[0]) if len(args) == 1 else args[:2]
    if len(args) > 2 and tm.as_const(args[2]) != 1:
        raise Unsupported('arange step')
    n = dim(tm.sub(hi, lo)) if isinstance(lo, T) or isinstance(hi, T) else max(0, int(hi) - int(lo))
    if isinstance(n, T) and not I.E.branch(tm.le(0, n)):
        n = 0
    k = 'int' if dtype is None else kind_of(dtype)
    return Arr(I.E, (n,), k, lambda idx: tm.add(lo, idx[0]))


def m_dot(I, a, b):
    a, b = to_arr(I, a), to_arr(I, b)
    if a.ndim == 0 or b.ndim == 0:
        return binop(I, ast.Mult, a, b)
    return matmul(I, a, b)


def m_cross(I, a, b, axis=-1, **kw):
    plain('cross', kw)
    if axis != -1:
        raise Unsupported('cross along an axis')
    a, b = to_arr(I, a), to_arr(I, b)
    na, fa = flat_fn(I, a)
    nb, fb = flat_fn(I, b)
    if tm.as_const(na) != 3 or tm.as_const(nb) != 3:
        raise Unsupported('cross')
    x = [num(fa(i)) for i in range(3)]
    y = [num(fb(i)) for i in range(3)]
    r = [tm.sub(tm.mul(x[1], y[2]), tm.mul(x[2], y[1])), tm.sub(tm.mul(x[2], y[0]), tm.mul(x[0], y[2])),
         tm.sub(tm.mul(x[0], y[1]), tm.mul(x[1], y[0]))]
    out = to_arr(I, r)
    if a.ndim == 2 or b.ndim == 2:
        z = out.freeze()
        if (a.ndim == 2 and tm.as_const(a.shape[0]) == 1) or (b.ndim == 2 and tm.as_const(b.shape[0]) == 1):
            return Arr(I.E, (1, 3), 'real', lambda idx: z([idx[1]]), matrix=a.matrix and b.matrix)
        raise Unsupported('cross of column vectors')
    return out


def m_norm(I, a, ord=None, axis=None):
    if ord is not None or axis is not None:
        raise Unsupported('norm options')
    a = to_arr(I, a)
    n, f = flat_fn(I, a)

    def sq(k):
        v = num(f(k))
        return tm.c_abs2(v) if isinstance(v, Cx) else tm.mul(v, v)
    return back(tm.sqrt(sum_over(I, n, sq)))


def m_sum(I, a, axis=None, dtype=None, **kw):
    plain('sum', kw)
    a = to_arr(I, a)
    k = a.dtype if a.dtype != 'bool' else 'int'
    return reduce_axis(I, a, axis, lambda n, f: sum_over(I, n, f), k)


def m_mean(I, a, axis=None, **kw):
    plain('mean', kw, ('dtype',))
    k = to_arr(I, a).dtype
    return reduce_axis(I, a, axis, lambda n, f: sbin(I, ast.Div, sum_over(I, n, f), n), 'complex' if k == 'complex' else 'real')


def m_std(I, a, axis=None, **kw):
    if kw.get('ddof') == 0:
        kw.pop('ddof')
    plain('std', kw, ('dtype',))
    def red(n, f):
        mu = sbin(I, ast.Div, sum_over(I, n, f), n)

        def sq(k):
            d = sbin(I, ast.Sub, f(k), mu)
            return sbin(I, ast.Mult, d, d)
        return tm.sqrt(tm.div(sum_over(I, n, sq), n))
    return reduce_axis(I, a, axis, red, 'real')


def extremum(which):
    """min/max of an array: a fresh value equal to some element; bound facts are available to contracts through
    E.ghost['extrema'] (arr function, length, result, witness)"""
    def h(I, a, axis=None, **kw):
        plain(which, kw)
        a = to_arr(I, a)

        def red(n, f):
            E = I.E
            c = tm.as_const(n)
            if c == 0 or c is None and E.branch(tm.eq(n, 0)):
                raise PyRaise(ValueError, 'zero-size array to reduction operation')
            w = E.fresh_int('w')
            E.assume([tm.le(0, w), tm.lt(w, n)])
            v = num(f(w))
            E.ghost['extrema'] = E.ghost.get('extrema', ()) + ((which, f, n, v, w),)
            forall_bound(E, which, v, f, n)
            o = a.owner()
            pm = getattr(o, 'perm', None)
            if pm is not None and a.ndim == 1 and E.heap[o.heapid] is pm[1]:
                # n distinct indices in [v, size) resp. [0, v]: pigeonhole
                E.assume(tm.le(tm.add(v, n), pm[0]) if which == 'min' else tm.le(tm.sub(n, 1), v))
            return v
        return reduce_axis(I, a, axis, red)
    return h


def m_argext(which):
    def h(I, a, axis=None):
        if axis is not None:
            raise Unsupported('axis')
        a = to_arr(I, a)
        n, f = flat_fn(I, a)
        E = I.E
        if E.branch(tm.eq(n, 0)):
            raise PyRaise(ValueError, 'argmin of empty')
        w = E.fresh_int('w')
        E.assume([tm.le(0, w), tm.lt(w, n)])
        v = num(f(w))
        E.ghost['extrema'] = E.ghost.get('extrema', ()) + ((which, f, n, v, w),)
        forall_bound(E, which, v, f, n)
        z = num(f(tm.const(0)))
        E.assume(tm.le(v, z) if which == 'min' else tm.le(z, v))
        # first occurrence
        E.ghost['foralls'] = list(E.ghost.get('foralls', [])) + [
            (tm.const(0), w, lambda k: tm.lt(v, num(f(k))) if which == 'min' else tm.lt(num(f(k)), v))]
        return w
    return h


def forall_bound(E, which, v, f, n):
    E.ghost['foralls'] = list(E.ghost.get('foralls', [])) + [
        (tm.const(0), tm.t(n), lambda k: tm.le(v, num(f(k))) if which == 'min' else tm.le(num(f(k)), v))]


def m_argsort(I, a, axis=-1, kind=None, **kw):
    """a permutation of the indices that sorts a; contracts read the record in E.ghost['argsorts']"""
    plain('argsort', kw)
    a = to_arr(I, a)
    if a.ndim != 1:
        raise Unsupported('argsort of %d-d' % a.ndim)
    E = I.E
    n = a.shape[0]
    nm = E.fresh('perm')
    key = a.freeze()

    def g(idx):
        v = tm.app(nm, 'Int', tm.t(idx[0]))
        E.assume([tm.le(0, v), tm.lt(v, n)])
        return v
    r = Arr(E, a.shape, 'int', g)
    r.perm = (n, E.heap[r.heapid])
    E.ghost['argsorts'] = E.ghost.get('argsorts', ()) + ((lambda k: num(key([k])), n, nm),)
    return r


def m_curve_fit(I, f, x, y, *a, **k):
    """assumed contract: returns one real per model parameter (and a covariance) or fails with RuntimeError"""
    E = I.E
    n = f.fn.__code__.co_argcount - 1 if hasattr(f, 'fn') else f.__code__.co_argcount - 1
    nm = E.fresh('fit')
    from scipy.optimize import OptimizeWarning
    if E.branch(tm.boolvar(nm + '.fails')):
        raise PyRaise(RuntimeError, 'optimal parameters not found')
    if E.branch(tm.boolvar(nm + '.few')):
        raise PyRaise(TypeError, 'fewer points than parameters')
    if E.branch(tm.boolvar(nm + '.none')):
        raise PyRaise(ValueError, 'ydata must not be empty')
    if E.ghost.get('warnings_as_errors') and E.branch(tm.boolvar(nm + '.warns')):
        raise PyRaise(OptimizeWarning, 'covariance could not be estimated')
    return Arr(E, (n,), 'real', lambda idx: tm.app(nm, 'Real', tm.t(idx[0]))), Opaque('covariance')


def m_clip(I, a, lo, hi, **kw):
    plain('clip', kw)
    if lo is not None:
        a = m_maximum('max')(I, a, lo)
    if hi is not None:
        a = m_maximum('min')(I, a, hi)
    return a


def m_roll(I, a, shift, axis=None):
    a = to_arr(I, a)
    if axis is None:
        if a.ndim != 1:
            raise Unsupported('roll of a flattened array')
        axis = 0
    ax = int(tm.as_const(axis)) % a.ndim
    n, z = a.shape[ax], a.freeze()
    sh = norm(shift)
    E = I.E
    if E.branch(tm.lt(sh, 0)):
        if not E.branch(tm.le(tm.sub(0, n), sh)):
            raise Unsupported('roll by more than the length')
        sh = tm.add(sh, n)
    elif not E.branch(tm.le(sh, n)):
        raise Unsupported('roll by more than the length')

    def g(idx):
        idx = list(idx)
        k = tm.sub(idx[ax], sh)
        idx[ax] = k if E.branch(tm.le(0, k)) else tm.add(k, n)
        return z(idx)
    return Arr(E, a.shape, a.dtype, g)


def m_npfull(I, shape, fill_value, dtype=None, **kw):
    plain('full', kw)
    k = kind_of(dtype) if dtype is not None else kind_of_value(fill_value)
    v = cast(I, norm(fill_value), k)
    sh = shape if isinstance(shape, (tuple, SList)) else (shape,)
    return Arr(I.E, shape_of(I, sh), k, lambda idx: v)


def m_fulllike(I, a, fill_value, dtype=None, **kw):
    plain('full_like', kw)
    a = to_arr(I, a)
    return m_npfull(I, a.shape, fill_value, DType(a.dtype) if dtype is None else dtype)


def m_copy(I, a, **kw):
    plain('copy', kw)
    return to_arr(I, a).copy()


def m_outer(I, a, b):
    a, b = to_arr(I, a), to_arr(I, b)
    if a.ndim != 1 or b.ndim != 1:
        raise Unsupported('outer')
    za, zb = a.freeze(), b.freeze()
    return Arr(I.E, (a.shape[0], b.shape[0]), promote(a.dtype, b.dtype),
               lambda idx: sbin(I, ast.Mult, za([idx[0]]), zb([idx[1]])))


def m_transpose(I, a, axes=None):
    a = to_arr(I, a)
    if axes is not None or a.ndim > 2:
        raise Unsupported('transpose axes')
    if a.ndim < 2:
        return a
    z = a.freeze()
    return Arr(I.E, (a.shape[1], a.shape[0]), a.dtype, lambda idx: z([idx[1], idx[0]]), matrix=a.matrix)


def m_hypot(I, a, b):
    return smath(I, 'sqrt', sbin(I, ast.Add, sbin(I, ast.Mult, a, a), sbin(I, ast.Mult, b, b)))


def m_anyall(which):
    def h(I, a, axis=None, **kw):
        plain(which, kw)
        a = to_arr(I, a)
        if axis is not None or any(tm.as_const(d) is None for d in a.shape):
            raise Unsupported('%s over symbolic length' % which)
        n, f = flat_fn(I, a)
        for k in range(int(tm.as_const(n))):
            if bool(I.truth(f(k))) == (which == 'any'):
                return which == 'any'
        return which != 'any'
    return h


def m_flipud(I, a):
    a = to_arr(I, a)
    return mk_view(I, a, [('rng', tm.sub(a.shape[0], 1), a.shape[0], -1)] +
                   [('rng', 0, d, 1) for d in a.shape[1:]])


def m_ravel(I, a, order='C'):
    plain('ravel', {'order': order})
    a = to_arr(I, a)
    if a.ndim == 1 and not a.matrix:
        return a
    n, f = flat_fn(I, a)
    return Arr(I.E, (dimc(n),), a.dtype, lambda idx: f(idx[0]))


def m_reshape(I, a, shape, **kw):
    plain('reshape', kw)
    a = to_arr(I, a)
    sh = shape_of(I, shape)
    n, f = flat_fn(I, a)
    if any(tm.as_const(d) == -1 for d in sh):
        if len(sh) == 1:
            sh = (dimc(n),)
        elif len(sh) == 2 and tm.as_const(sh[0]) == -1 and tm.as_const(sh[1]) == 1:
            sh = (dimc(n), 1)
        elif len(sh) == 2 and tm.as_const(sh[1]) == -1 and tm.as_const(sh[0]) == 1:
            sh = (1, dimc(n))
        else:
            raise Unsupported('reshape -1')
    tot = 1
    for d in sh:
        tot = tm.mul(tot, d)
    if not same_dim(I, dimc(tot), dimc(n)):
        raise PyRaise(ValueError, 'cannot reshape')

    def g(idx):
        k = 0
        for i, d in zip(idx, sh):
            k = tm.add(tm.mul(k, d), i)
        return f(k)
    return Arr(I.E, sh, a.dtype, g)


def true_indices(I, a):
    """the indices at which the 1-d array a is true, ascending; with the inverse (rank) and the extreme positions as
    universally quantified facts"""
    a = to_arr(I, a)
    if a.ndim != 1:
        raise Unsupported('indices of the true elements of a %d-d array' % a.ndim)
    E = I.E
    n, f = a.shape[0], a.freeze()
    nm = E.fresh('ix')
    cnt = tm.var(nm + '.count', 'Int')
    E.assume([tm.le(0, cnt), tm.le(cnt, n)])
    ix = lambda j: tm.app(nm, 'Int', tm.t(j))
    rank = lambda i: tm.app(nm + '.rank', 'Int', tm.t(i))
    true = lambda i: truthform(I, f([tm.t(i)]))

    def inverse(i):
        return tm.Or(tm.Not(true(i)), tm.And(tm.le(0, rank(i)), tm.lt(rank(i), cnt), tm.eq(ix(rank(i)), i),
                                           tm.le(ix(0), i), tm.le(i, ix(tm.sub(cnt, 1)))))

    def elem(j):
        return tm.And(tm.le(0, ix(j)), tm.lt(ix(j), n), true(ix(j)), tm.le(ix(0), ix(j)), tm.le(ix(j), ix(tm.sub(cnt, 1))),
                      tm.le(tm.t(j), ix(j)), tm.eq(rank(ix(j)), j))
    E.ghost['foralls'] = list(E.ghost.get('foralls', [])) + [(tm.const(0), tm.t(n), inverse), (tm.const(0), cnt, elem)]
    E.ghost['index_arrays'] = E.ghost.get('index_arrays', ()) + ((nm, rank, cnt),)

    def get(idx):
        j = tm.t(idx[0])
        if E.branch(tm.And(tm.le(0, j), tm.lt(j, cnt))):
            E.assume(elem(j))
        return ix(j)
    return Arr(E, (cnt,), 'int', get)


def m_argwhere(I, a):
    r = true_indices(I, a)
    return Arr(I.E, (r.shape[0], 1), 'int', lambda idx: r.get([idx[0]]))


def m_nonzero(I, a):
    return (true_indices(I, a),)


def m_where(I, c, *ab):
    if not ab:
        return m_nonzero(I, c)
    if len(ab) != 2:
        raise Unsupported('where with one argument')
    k = promote(kind_of_value(ab[0]) if not isinstance(ab[0], (SList, tuple)) else 'real',
                kind_of_value(ab[1]) if not isinstance(ab[1], (SList, tuple)) else 'real')

    def f(x, y, z):
        return cast(I, y, k) if I.truth(x) else cast(I, z, k)
    return elementwise(I, f, k, c, *ab)


def logical(opf):
    def h(I, a, b):
        def f(x, y):
            return opf(truthform(I, x), truthform(I, y))
        if isinstance(a, Arr) or isinstance(b, Arr):
            return elementwise(I, f, 'bool', a, b)
        return f(norm(a), norm(b))
    return h


def m_power(I, a, b):
    return binop(I, ast.Pow, a, b)


def m_binary(op):
    def h(I, a, b):
        return binop(I, op, to_arr(I, a) if isinstance(a, (SList, tuple)) else a, to_arr(I, b) if isinstance(b, (SList, tuple)) else b)
    return h


def m_maximum(which):
    def h(I, a, b):
        def f(x, y):
            x, y = num(x), num(y)
            c = tm.lt(x, y)
            if which == 'max':
                return y if I.truth(c) else x
            return x if I.truth(c) else y
        if isinstance(a, Arr) or isinstance(b, Arr):
            return elementwise(I, f, promote(kind_of_value(a), kind_of_value(b)), a, b)
        return f(a, b)
    return h


def m_part(which):
    def f(I, v):
        v = num(v)
        if isinstance(v, Cx):
            return v.re if which == 're' else v.im
        return v if which == 're' else 0

    def h(I, a):
        if isinstance(a, Arr):
            return elementwise(I, lambda x: f(I, x), 'real' if a.dtype == 'complex' else a.dtype, a)
        return f(I, a)
    return h


# ------------------------------------------------------------------ numexpr
def m_evaluate(I, expr, local_dict=None, **kw):
    import ast as A
    fr = I.frames[-1]
    names = dict(fr.loc)
    if local_dict is not None:
        names = {k: local_dict.get(k) for k in local_dict.keys()}
    tree = A.parse(expr.strip(), mode='eval').body
    fns = {'exp': ufunc('exp'), 'cos': ufunc('cos'), 'sin': ufunc('sin'), 'sqrt': ufunc('sqrt'), 'abs': ufunc('abs')}

    def ev(e):
        if isinstance(e, A.Name):
            if e.id in names:
                v = names[e.id]
            elif e.id in fr.glob:
                v = I.glob(fr.glob[e.id])
            else:
                raise PyRaise(KeyError, e.id)
            return v
        if isinstance(e, A.Constant):
            return norm(e.value)
        if isinstance(e, A.BinOp):
            a, b = ev(e.left), ev(e.right)
            return binop(I, type(e.op), a, b)
        if isinstance(e, A.UnaryOp) and isinstance(e.op, A.USub):
            return binop(I, A.Mult, -1, ev(e.operand))
        if isinstance(e, A.Call) and e.func.id in fns:
            return fns[e.func.id](I, *[ev(x) for x in e.args])
        raise Unsupported('numexpr %s' % type(e).__name__)
    return ev(tree)


# ------------------------------------------------------------------ builtins
def m_len(I, v):
    if isinstance(v, SList):
        return v.length()
    if isinstance(v, Arr):
        if v.ndim == 0:
            raise PyRaise(TypeError, 'len() of unsized object')
        return v.shape[0]
    if isinstance(v, SDict):
        return len(v.keys())
    if isinstance(v, Ext):
        return v.length(I)
    if isinstance(v, SObj):
        m = I.static(v.cls, '__len__')
        if m is None:
            raise PyRaise(TypeError, 'no len')
        return I.call(m, (v,))
    h = I.attr_models.get((type(v), '__len__'))
    if h is not None:
        return h(I, v)
    if hasattr(v, 'length') and type(v).__name__ == 'SIter':
        return v.length
    if isinstance(v, (Str, Opaque)):
        raise Unsupported('len of symbolic string')
    try:
        return len(v)
    except TypeError as e:
        raise PyRaise(TypeError, e)


def m_range(I, *args):
    from .interp import SIter
    args = [norm(a) for a in args]
    args = [a.get([]) if isinstance(a, Arr) and a.ndim == 0 else a for a in args]
    for a in args:
        if isinstance(a, Fraction) or isinstance(a, T) and not tm.is_integral(a):
            raise PyRaise(TypeError, 'float range')
    if all(isinstance(a, int) for a in args):
        return range(*args)
    step = 1
    if len(args) == 3:
        step = args[2]
        if step not in (1, -1):
            raise Unsupported('range step')
    lo, hi = (0, args[0]) if len(args) == 1 else args[:2]
    n = tm.sub(hi, lo) if step == 1 else tm.sub(lo, hi)
    n = T('Int', n.p)
    if not I.E.branch(tm.le(0, n)):
        return range(0)
    c = tm.as_const(n)
    r = SIter(n if c is None else int(c),
              (lambda i: tm.add(lo, i)) if step == 1 else (lambda i: tm.sub(lo, i)), True)
    r.positions = step == 1 and tm.eq(lo, 0) is True
    return r


def m_enumerate(I, v, start=0):
    from .interp import SIter
    it = I.iterate(v)
    r = SIter(it.length, lambda i: (tm.add(start, i) if isinstance(i, T) else start + i, it.item(i)),
              it.symbolic_items)
    r.spec = it.spec      # the contract of a loop over a sequence speaks of positions, not of the loop variable
    return r


def m_zip(I, *vs):
    from .interp import SIter
    its = [I.iterate(v) for v in vs]
    if not its:
        return ()
    n = its[0].length
    for it in its[1:]:
        m = it.length
        if n == m:
            continue
        cn, cm = tm.as_const(n), tm.as_const(m)
        if cn is not None and cm is not None:
            n = int(min(cn, cm))
        elif I.E.branch(tm.lt(m, n)):
            n = m
    return SIter(n, lambda i: tuple(it.item(i) for it in its), all(it.symbolic_items for it in its))


def m_minmax(which):
    def h(I, *args, key=None, default=SDict.MISSING):
        if key is not None:
            raise Unsupported('min/max key')
        if len(args) == 1:
            v = args[0]
            if isinstance(v, Arr):
                return extremum(which)(I, v)
            it = I.iterate(v)
            c = tm.as_const(it.length)
            if c is None:
                E = I.E
                if E.branch(tm.eq(it.length, 0)):
                    if default is not SDict.MISSING:
                        return default
                    raise PyRaise(ValueError, 'empty')
                w = E.fresh_int('w')
                E.assume([tm.le(0, w), tm.lt(w, it.length)])
                r = num(it.item(w))
                E.ghost['extrema'] = E.ghost.get('extrema', ()) + ((which, it.item, it.length, r, w),)
                return r
            if c == 0:
                if default is not SDict.MISSING:
                    return default
                raise PyRaise(ValueError, 'empty')
            args = [it.item(i) for i in range(int(c))]
        r = args[0]
        for x in args[1:]:
            c = scompare(I, ast.Lt if which == 'min' else ast.Gt, x, r)
            if I.truth(c):
                r = x
        return r
    return h


def m_abs(I, v):
    return ufunc('abs')(I, v)


def m_int(I, v=0, *a):
    v = norm(v)
    if isinstance(v, str):
        return I.native(int, (v,) + a, {})
    v = scalarize(I, v)
    if v is None:
        raise PyRaise(TypeError, 'int(None)')
    if isinstance(v, Str):
        if I.E.choice('numeric.%s' % v.name):
            return tm.app('int.of', 'Int', v.code)
        raise PyRaise(ValueError, 'invalid literal')
    if isinstance(v, (Str, Opaque)):
        raise Unsupported('int() of symbolic string')
    if isinstance(v, SymEnum):
        raise Unsupported('int() of enum')
    if isinstance(v, enum.Enum):
        return int(v)
    if isinstance(v, float):
        raise PyRaise(ValueError, 'cannot convert float to integer')
    v = num(v)
    if isinstance(v, Fraction):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, Cx):
        raise PyRaise(TypeError)
    return tm.trunc(v)


def m_float(I, v=0):
    v = norm(v)
    if isinstance(v, str):
        r = I.native(float, (v,), {})
        return norm(r)
    v = scalarize(I, v)
    if v is None:
        raise PyRaise(TypeError, 'float(None)')
    if isinstance(v, Str):
        if I.E.choice('numeric.%s' % v.name):
            return tm.app('float.of', 'Real', v.code)
        raise PyRaise(ValueError, 'could not convert string to float')
    if isinstance(v, (Str, Opaque)):
        raise Unsupported('float() of symbolic')
    if isinstance(v, float):
        return v
    v = num(v)
    if isinstance(v, int):
        return Fraction(v)
    if isinstance(v, Cx):
        raise PyRaise(TypeError)
    if isinstance(v, T):
        return T('Real', v.p)
    return v


def m_bool(I, v=False):
    if isinstance(v, F):
        return v
    if isinstance(v, T):
        return tm.ne(v, 0)
    return I.truth(v)


def m_complex(I, a=0, b=0):
    return tm.c_add(num(a), tm.c_mul(Cx(0, 1), num(b)))


def m_sumb(I, v, start=0):
    it = I.iterate(v)
    c = tm.as_const(it.length)
    if c is not None and c <= 400:
        r = start
        for i in range(int(c)):
            r = binop(I, ast.Add, r, it.item(i))
        return r
    return sbin(I, ast.Add, start, sum_over(I, it.length, it.item))


def m_round(I, v, n=None):
    v = norm(v)
    if n is not None:
        raise Unsupported('round to digits')
    return smath(I, 'round', scalarize(I, v))


def m_divmod(I, a, b):
    return binop(I, ast.FloorDiv, a, b), binop(I, ast.Mod, a, b)


def m_npround(I, v, decimals=0):
    if tm.as_const(decimals) != 0:
        raise Unsupported('round decimals')
    if isinstance(v, Arr):
        if v.dtype == 'int':
            return v
        return elementwise(I, lambda x: toreal(smath(I, 'round', x)), 'real', v)
    return toreal(smath(I, 'round', v))


def toreal(x):
    if isinstance(x, T):
        return T('Real', x.p)
    return Fraction(x)


def types_of(v):
    if isinstance(v, (bool, F)):
        return (bool, int, numbers.Number, object)
    if isinstance(v, int):
        return (int, numbers.Number, object)
    if isinstance(v, (Fraction, float)):
        return (float, numbers.Number, object)
    if isinstance(v, T):
        return ((int,) if v.sort == 'Int' else (float,)) + (numbers.Number, object)
    if isinstance(v, Ext):
        return tuple(v.types) + (object,)
    if isinstance(v, (Cx, complex)):
        return (complex, numbers.Number, object)
    if isinstance(v, (str, Str)):
        return (str, object)
    if isinstance(v, SList):
        return (list, object)
    if isinstance(v, SDict):
        return (dict, object)
    if isinstance(v, Arr):
        return (np.ndarray, np.matrix, object) if v.matrix else (np.ndarray, object)
    if isinstance(v, SymEnum):
        return v.cls.__mro__
    if isinstance(v, SObj):
        return v.cls.__mro__ if v.cls else (object,)
    from .interp import ExcVal
    if isinstance(v, ExcVal):
        return v.cls.__mro__
    if isinstance(v, Opaque):
        raise Unsupported('type of opaque value')
    return type(v).__mro__


def m_isinstance(I, v, ty):
    tys = ty if isinstance(ty, tuple) else (ty,)
    flat = []
    for x in tys:
        flat.extend(x if isinstance(x, tuple) else (x,))
    mro = types_of(v)
    import collections.abc
    for x in flat:
        if x in mro:
            return True
        if x is collections.OrderedDict and isinstance(v, SDict):
            return True
        if x in (collections.abc.Sequence, collections.abc.Iterable) and isinstance(v, (SList, tuple, str)):
            return True
        if x in (collections.abc.Mapping,) and isinstance(v, SDict):
            return True
    return False


def m_type(I, v):
    if isinstance(v, SObj):
        return v.cls
    if isinstance(v, SYMS):
        return types_of(v)[0]
    if isinstance(v, Fraction):
        return float
    return type(v)


SYMS = (T, Cx, F, Str, Arr, SList, SDict)


def m_hasattr(I, o, name):
    try:
        I.getattr(o, name)
        return True
    except PyRaise as e:
        if issubclass(e.etype, AttributeError):
            return False
        raise


def m_getattr(I, o, name, *d):
    if not isinstance(name, str):
        raise Unsupported('getattr with symbolic name')
    try:
        return I.getattr(o, name)
    except PyRaise as e:
        if d and issubclass(e.etype, AttributeError):
            return d[0]
        raise


def m_setattr(I, o, name, v):
    if not isinstance(name, str):
        raise Unsupported('setattr with symbolic name')
    I.setattr(o, name, v)


def m_list(I, v=()):
    if isinstance(v, Bag):
        return v.derive(v.st[0], list, v.st[1] and v.kind is list)
    if isinstance(v, SList):
        st = v.st
        return SList(I.E, items=st[1]) if st[0] == 'c' else SList(I.E, length=st[1], fn=st[2])
    it = I.iterate(v)
    c = tm.as_const(it.length)
    if c is None:
        return SList(I.E, length=it.length, fn=it.item)
    return SList(I.E, items=[it.item(i) for i in range(int(c))])


def m_tuple(I, v=()):
    it = I.iterate(v)
    c = tm.as_const(it.length)
    if c is None:
        raise Unsupported('tuple of symbolic length')
    return tuple(it.item(i) for i in range(int(c)))


def m_dict(I, v=None, **kw):
    d = SDict(I.E)
    st = {}
    if v is not None:
        if isinstance(v, SDict):
            if v.lazy is not None:
                raise Unsupported('copy of lazily known dict')
            st.update({k: v.get(k) for k in v.keys()})
        elif isinstance(v, dict):
            st.update(v)
        else:
            it = I.iterate(v)
            for i in range(int(tm.as_const(it.length))):
                k, x = I.unpack(it.item(i), 2)
                st[k] = x
    st.update(kw)
    I.E.heap[d.heapid] = st
    return d


def m_set(I, v=()):
    if isinstance(v, Bag):
        f, E = v.st[0], I.E
        return v.derive(lambda x: 1 if E.branch(tm.lt(0, f(x))) else 0, set)
    it = I.iterate(v)
    c = tm.as_const(it.length)
    if c is None:
        raise Unsupported('set of symbolic length')
    return set(it.item(i) for i in range(int(c)))


def m_sorted(I, v, key=None, reverse=False):
    if isinstance(v, Bag):
        return v.derive(v.st[0], list, key is None and reverse is False)
    it = I.iterate(v)
    c = tm.as_const(it.length)
    if c is None:
        raise Unsupported('sorted of symbolic length')
    items = [it.item(i) for i in range(int(c))]
    if any(I.symbolic(x) for x in items) or key is not None and not callable(key):
        if len(items) <= 1:
            return SList(I.E, items=items)
        raise Unsupported('sorted of symbolic items')
    try:
        return SList(I.E, items=sorted(items, key=key, reverse=reverse))
    except TypeError as e:
        raise PyRaise(TypeError, e)


def quantified(I, it, want):
    """is there an item whose truth value is `want`?  (the negative answer is kept as a quantified fact)"""
    E = I.E
    n = tm.t(it.length)

    def none(i):
        def body():
            saved = E.heap
            E.heap = E.heap.fork()
            try:
                return I.truth(it.item(i)) != want
            finally:
                E.heap = saved
        return tm.Or(*[tm.And(*pc) for pc, r in E.sub(body) if r])
    fa = list(E.ghost.get('foralls', []))
    if E.branch(tm.boolvar(E.fresh('some'))):
        k = E.fresh_int('at')
        E.assume([tm.le(0, k), tm.lt(k, n)])
        if bool(I.truth(it.item(k))) != want:
            raise PathEnd('not this item')
        return True
    E.ghost['foralls'] = fa + [(tm.const(0), n, none)]
    return False


def m_any(I, v):
    it = I.iterate(v)
    c = tm.as_const(it.length)
    if c is None:
        return quantified(I, it, True)
    for i in range(int(c)):
        if I.truth(it.item(i)):
            return True
    return False


def m_all(I, v):
    it = I.iterate(v)
    c = tm.as_const(it.length)
    if c is None:
        return not quantified(I, it, False)
    for i in range(int(c)):
        if not I.truth(it.item(i)):
            return False
    return True


def m_reversed(I, v):
    from .interp import SIter
    it = I.iterate(v)
    return SIter(it.length, lambda i: it.item(tm.sub(tm.sub(it.length, 1), i) if isinstance(it.length, T) or
                                              isinstance(i, T) else it.length - 1 - i))


def m_print(I, *a, **k):
    return None


def m_str(I, v=''):
    if isinstance(v, (str, Str)):
        return v
    if I.symbolic(v):
        return Opaque('str')
    return str(float(v) if isinstance(v, Fraction) else v)


def m_pow(I, a, b):
    return binop(I, ast.Pow, a, b)


def m_map(I, f, *vs):
    from .interp import SIter
    its = [I.iterate(v) for v in vs]
    return SIter(its[0].length, lambda i: I.call(f, tuple(it.item(i) for it in its)))


def m_isclose(I, a, b, rel_tol=1e-9, abs_tol=0.0):
    a, b = num(scalarize(I, a)), num(scalarize(I, b))
    rel, ab = tm.frac(rel_tol), tm.frac(abs_tol)
    d = tm.absv(tm.sub(a, b))
    mx = m_maximum('max')(I, tm.absv(a), tm.absv(b))
    return tm.Or(tm.le(d, tm.mul(rel, mx)), tm.le(d, ab)) if ab else tm.le(d, tm.mul(rel, mx))


def ctx(I, *a, **k):
    from .interp import CtxMgr
    return CtxMgr()


# ------------------------------------------------------------------ methods of containers
def nat(f, name):
    from .interp import Native
    return Native(f, name)


def container_attr(I, o, name):
    E = I.E
    h = I.attr_models.get((type(o), name))
    if h is not None:
        return h(I, o)
    if isinstance(o, Arr):
        if name == 'shape':
            return tuple(o.shape)
        if name == 'size':
            r = 1
            for d in o.shape:
                r = tm.mul(r, d) if isinstance(d, T) or isinstance(r, T) else r * d
            return r
        if name == 'ndim':
            return o.ndim
        if name == 'dtype':
            return DType(o.dtype)
        if name == 'T':
            if o.ndim < 2:
                return o
            owner, vmap = as_view(o)
            n = o.ndim
            r = Arr(E, tuple(reversed(o.shape)), o.dtype, root=owner,
                    vmap=[m if m[0] == 'pt' else ('off', n - 1 - m[1], m[2], m[3]) for m in vmap], matrix=o.matrix)
            return r
        if name in ('flat', 'A1'):
            n, f = flat_fn(I, o)
            return Arr(E, (dimc(n),), o.dtype, lambda idx: f(idx[0]))
        if name == 'A':
            return m_asarray(I, o)
        if name == 'real':
            return m_part('re')(I, o)
        if name == 'imag':
            return m_part('im')(I, o)
        table = {'copy': lambda order='C': o.copy(), 'sum': lambda axis=None, **k: m_sum(I, o, axis, **k),
                 'mean': lambda axis=None, **k: m_mean(I, o, axis, **k), 'std': lambda axis=None, **k: m_std(I, o, axis, **k),
                 'min': lambda axis=None: extremum('min')(I, o, axis), 'max': lambda axis=None: extremum('max')(I, o, axis),
                 'argmin': lambda: m_argext('min')(I, o), 'argmax': lambda: m_argext('max')(I, o),
                 'conj': lambda: ufunc('conj')(I, o), 'conjugate': lambda: ufunc('conj')(I, o),
                 'astype': lambda dt, **k: m_array(I, o, dt, **k), 'ravel': lambda order='C': m_ravel(I, o, order),
                 'flatten': lambda order='C': m_ravel(I, o, order).copy(), 'dot': lambda b: m_dot(I, o, b),
                 'fill': lambda v: assign_array(I, o, v),
                 'reshape': lambda *s: m_reshape(I, o, s[0] if len(s) == 1 else s),
                 'transpose': lambda: container_attr(I, o, 'T'), 'item': lambda: scalarize(I, o),
                 'tolist': lambda: m_list(I, o)}
        if name in table:
            return nat(table[name], name)
        raise Unsupported('ndarray.%s' % name)
    if isinstance(o, SList):
        def insert(i, v):
            st = E.heap[o.heapid]
            if st[0] != 'c' or tm.as_const(i) is None:
                raise Unsupported('insert into symbolic list')
            l = list(st[1])
            l.insert(int(i), v)
            E.hset(o, ('c', tuple(l)), ('insert', i))

        def pop(i=-1):
            c = tm.as_const(i)
            if not I.truth(o):
                raise PyRaise(IndexError, 'pop from empty list')
            if c == 0:
                return o.pop0()
            if c == -1:
                st = E.heap[o.heapid]
                n = o.length()
                v = o.get(tm.sub(n, 1))
                if st[0] == 'c':
                    E.hset(o, ('c', st[1][:-1]), ('pop', -1))
                else:
                    E.hset(o, ('s', tm.sub(n, 1), st[2]), ('pop', -1))
                return v
            raise Unsupported('list.pop(i)')

        def clear():
            E.hset(o, ('c', ()), ('clear', None))

        def remove(v):
            st = E.heap[o.heapid]
            if st[0] != 'c':
                raise Unsupported('remove from symbolic list')
            for j, x in enumerate(st[1]):
                if I.truth(equal(I, x, v)):
                    E.hset(o, ('c', st[1][:j] + st[1][j + 1:]), ('remove', j))
                    return
            raise PyRaise(ValueError, 'not in list')

        def sort(key=None, reverse=False):
            r = m_sorted(I, o, key, reverse)
            E.hset(o, E.heap[r.heapid], ('sort', None))

        def index(v):
            st = E.heap[o.heapid]
            if st[0] != 'c':
                raise Unsupported('index in symbolic list')
            for j, x in enumerate(st[1]):
                if I.truth(equal(I, x, v)):
                    return j
            raise PyRaise(ValueError, 'not in list')
        table = {'append': o.append, 'pop': pop, 'popleft': lambda: pop(0), 'clear': clear, 'insert': insert,
                 'extend': lambda v: I.extend(o, v), 'remove': remove, 'sort': sort, 'index': index,
                 'copy': lambda: m_list(I, o)}
        if name in table:
            return nat(table[name], name)
        raise Unsupported('list.%s' % name)
    if isinstance(o, SDict):
        def get(k, d=None):
            if I.symbolic(k):
                raise Unsupported('symbolic key')
            v = o.get(k)
            return d if v is SDict.MISSING else v

        def pop(k, *d):
            v = o.get(k)
            if v is SDict.MISSING:
                if d:
                    return d[0]
                raise PyRaise(KeyError, k)
            o.delete(k)
            return v

        def update(other=None, **kw):
            if other is not None:
                for k in (other.keys()):
                    o.set(k, other.get(k) if isinstance(other, SDict) else other[k])
            for k, v in kw.items():
                o.set(k, v)

        def setdefault(k, d=None):
            v = o.get(k)
            if v is SDict.MISSING:
                o.set(k, d)
                return d
            return v
        table = {'get': get, 'pop': pop, 'update': update, 'setdefault': setdefault,
                 'keys': lambda: tuple(o.keys()), 'values': lambda: tuple(o.get(k) for k in o.keys()),
                 'items': lambda: tuple((k, o.get(k)) for k in o.keys()), 'copy': lambda: m_dict(I, o),
                 'clear': lambda: E.hset(o, {}, ('all', None))}
        if name in table:
            def through(*a, **k):
                if isinstance(E.heap[o.heapid], tuple) or any(isinstance(x, (Str, Text, SMap)) for x in a) or \
                        any(isinstance(x, SDict) and isinstance(E.heap[x.heapid], tuple) for x in a):
                    return I.call(as_map(I, o).attr(I, name), a, k)
                return table[name](*a, **k)
            return nat(through, name)
        raise Unsupported('dict.%s' % name)
    if isinstance(o, Cx):
        if name == 'real':
            return o.re
        if name == 'imag':
            return o.im
        if name in ('conjugate', 'conj'):
            return nat(lambda: Cx(o.re, tm.neg(o.im)), name)
    if isinstance(o, (T, Fraction, int)):
        if name in ('real',):
            return o
        if name == 'imag':
            return 0
        if name in ('item', 'conjugate', 'conj', 'copy'):
            return nat(lambda: o, name)
        if name == 'shape':
            return ()
        if name == 'dtype':
            return DType(kind_of_value(o))
        if name == 'astype':
            return nat(lambda dt: cast(I, o, kind_of(dt)), name)
        if name == 'is_integer' and isinstance(o, T):
            raise Unsupported('is_integer')
    if isinstance(o, str):
        if name == 'format':
            def fmt(*a, **k):
                if I.symbolic(a) or I.symbolic(tuple(k.values())):
                    return Opaque('formatted')
                a = [float(x) if isinstance(x, Fraction) else x for x in a]
                return o.format(*a, **k)
            return nat(fmt, 'format')
        if name == 'join':
            def join(v):
                it = I.iterate(v)
                c = tm.as_const(it.length)
                if c is None:
                    return Opaque('joined')
                xs = [it.item(i) for i in range(int(c))]
                if any(not isinstance(x, str) for x in xs):
                    return Opaque('joined')
                return o.join(xs)
            return nat(join, 'join')
        if hasattr(o, name):
            m = getattr(o, name)
            if not callable(m):
                return m

            def call(*a, **k):
                if I.symbolic(a):
                    raise Unsupported('str.%s' % name)
                r = I.native(m, a, k)
                return SList(E, items=r) if isinstance(r, list) else r
            return nat(call, name)
        raise PyRaise(AttributeError, name)
    if isinstance(o, tuple) or isinstance(o, (int,)):
        if hasattr(o, name):
            m = getattr(o, name)
            if callable(m):
                return nat(lambda *a, **k: I.native(m, a, k), name)
            return m
        raise PyRaise(AttributeError, name)
    h = getattr(I, 'str_attr', None)
    if isinstance(o, Str) and h is not None:
        return h(I, o, name)
    raise Unsupported('attribute %s of %r' % (name, o))


def m_dictfrom(I, *a, **k):
    return m_dict(I, *a, **k)


def m_super(I, *a):
    from .interp import SuperProxy
    if len(a) == 2:
        return SuperProxy(a[0], a[1])
    raise Unsupported('super()')


class NumpyProxy:
    """record-only array reference used by the harness"""


def register(I):
    M = I.models

    def reg(fn, h, name=None):
        nm = name or getattr(fn, '__name__', str(fn))

        def wrap(I_, *a, **k):
            I_.E.assumed.add(wrap.cname)
            try:
                return h(I_, *a, **k)
            except ValueError as e:
                if 'non-finite' in str(e):
                    raise Unsupported(str(e))
                raise
        mod = getattr(fn, '__module__', None) or 'numpy'
        wrap.cname = '%s.%s' % (mod, nm)
        M[fn] = wrap

    def regb(fn, h):
        M[fn] = h
    for n, h in {'len': m_len, 'range': m_range, 'enumerate': m_enumerate, 'zip': m_zip, 'min': m_minmax('min'),
                 'max': m_minmax('max'), 'abs': m_abs, 'int': m_int, 'float': m_float, 'bool': m_bool,
                 'complex': m_complex, 'sum': m_sumb, 'round': m_round, 'isinstance': m_isinstance, 'type': m_type,
                 'hasattr': m_hasattr, 'getattr': m_getattr, 'setattr': m_setattr, 'list': m_list, 'tuple': m_tuple,
                 'dict': m_dict, 'set': m_set, 'sorted': m_sorted, 'any': m_any, 'all': m_all, 'reversed': m_reversed,
                 'print': m_print, 'str': m_str, 'repr': m_str, 'pow': m_pow, 'divmod': m_divmod, 'map': m_map, 'super': m_super}.items():
        regb(getattr(builtins, n), h)
    regb(collections.OrderedDict, m_dict)
    regb(collections.deque, m_list)
    import math as m
    for n in ('sqrt', 'cos', 'sin', 'tan', 'exp', 'log10', 'radians', 'degrees', 'acos', 'asin', 'atan', 'atan2', 'floor',
              'log', 'ceil', 'trunc'):
        reg(getattr(m, n), mathfn(n), n)
    reg(m.fabs, mathfn('abs'))
    reg(m.isclose, m_isclose)
    reg(m.isfinite, mathfn('isfinite'))
    reg(m.pow, m_pow)
    reg(m.hypot, m_hypot)
    U = {'sqrt': 'sqrt', 'cos': 'cos', 'sin': 'sin', 'tan': 'tan', 'exp': 'exp', 'log10': 'log10', 'arccos': 'acos',
         'arcsin': 'asin', 'arctan': 'atan', 'arctan2': 'atan2', 'abs': 'abs', 'absolute': 'abs', 'fabs': 'abs',
         'radians': 'radians', 'deg2rad': 'radians', 'degrees': 'degrees', 'rad2deg': 'degrees', 'conj': 'conj',
         'floor': 'floor', 'square': 'square', 'log': 'log', 'ceil': 'ceil', 'trunc': 'trunc', 'sign': 'sign',
         'negative': 'negative', 'conjugate': 'conj', 'reciprocal': 'reciprocal'}
    for n, k in U.items():
        reg(getattr(np, n), ufunc(k), n)
    reg(np.isfinite, ufunc('isfinite', 'bool'))
    try:
        import scipy
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            for n in ('sqrt', 'cos', 'sin', 'arctan', 'arctan2', 'radians', 'arccos', 'arcsin', 'log10', 'exp',
                      'rad2deg', 'deg2rad', 'absolute', 'mod'):
                f = getattr(scipy, n, None)
                if f is not None and f not in M and n in U:
                    reg(f, ufunc(U[n]), n)
    except ImportError:
        pass
    for n, h in {'zeros': m_full(0), 'ones': m_full(1), 'empty': m_empty, 'zeros_like': m_like(0),
                 'ones_like': m_like(1), 'empty_like': m_like(None), 'array': m_array, 'asarray': m_asarray,
                 'matrix': m_matrix, 'asmatrix': m_asmatrix, 'arange': m_arange, 'dot': m_dot, 'cross': m_cross,
                 'sum': m_sum, 'mean': m_mean, 'std': m_std, 'min': extremum('min'), 'amin': extremum('min'),
                 'max': extremum('max'), 'amax': extremum('max'), 'argmin': m_argext('min'),
                 'argmax': m_argext('max'), 'flipud': m_flipud, 'ravel': m_ravel, 'reshape': m_reshape,
                 'argwhere': m_argwhere, 'flatnonzero': true_indices, 'nonzero': m_nonzero,
                 'where': m_where, 'logical_and': logical(tm.And), 'logical_or': logical(tm.Or), 'power': m_power,
                 'multiply': m_binary(ast.Mult), 'add': m_binary(ast.Add), 'subtract': m_binary(ast.Sub),
                 'divide': m_binary(ast.Div), 'mod': m_binary(ast.Mod), 'matmul': m_binary(ast.MatMult),
                 'maximum': m_maximum('max'), 'minimum': m_maximum('min'), 'real': m_part('re'), 'imag': m_part('im'),
                 'round': m_npround, 'rint': m_npround, 'errstate': ctx, 'argsort': m_argsort, 'clip': m_clip, 'roll': m_roll,
                 'full': m_npfull, 'full_like': m_fulllike, 'copy': m_copy, 'outer': m_outer,
                 'transpose': m_transpose, 'any': m_anyall('any'), 'all': m_anyall('all')}.items():
        reg(getattr(np, n), h, n)
    reg(np.linalg.norm, m_norm, 'linalg.norm')
    reg(np.fft.fft, m_fft, 'fft.fft')
    reg(np.fft.ifft, m_ifft, 'fft.ifft')
    reg(np.fft.fftshift, m_fftshift, 'fft.fftshift')
    reg(np.fft.ifftshift, m_ifftshift, 'fft.ifftshift')
    reg(warnings.catch_warnings, ctx, 'catch_warnings')
    M[warnings.simplefilter] = lambda I_, action='', *a, **k: I_.E.ghost.__setitem__('warnings_as_errors', True) \
        if action == 'error' else None
    M[warnings.warn] = lambda I_, *a, **k: I_.E.ghost.__setitem__('warnings', I_.E.ghost.get('warnings', ()) + (a,))
    for ty in (np.float64, np.float32):
        M[ty] = m_float
    for ty in (np.int32, np.int64, np.int16, np.int8, np.uint8, np.uint16, np.uint32):
        M[ty] = m_int
    try:
        from scipy.optimize import curve_fit
        reg(curve_fit, m_curve_fit, 'curve_fit')
    except ImportError:
        pass
    try:
        import numexpr
        reg(numexpr.evaluate, m_evaluate, 'evaluate')
    except ImportError:
        pass
