"""Term language of the VC generator.

Numeric terms (class T) are kept in a canonical form: a sum of monomials over interned atoms with
rational coefficients (exponents may be negative or, for positive atoms, fractional).  Two terms that
are equal by field arithmetic are therefore the same object up to ==.  Formulas (class F) are built
over canonical terms.  Conversion to z3 happens only in solver.py.

Mathematical reading (assumptions listed in every evidence file): floats are reals, ints are
unbounded, x/y is the field quotient (y != 0), sqrt/log arguments are in their domain.
"""
from fractions import Fraction
import math

_atoms = {}
_alist = []


class At:
    __slots__ = ('kind', 'name', 'sort', 'args', 'id', 'key')

    def __repr__(self):
        if self.kind == 'var':
            return self.name
        return '%s(%s)' % (self.name, ', '.join(map(repr, self.args)))


def atom(kind, name, sort, args=()):
    key = (kind, name, sort, args)
    a = _atoms.get(key)
    if a is None:
        a = At()
        a.kind, a.name, a.sort, a.args, a.key = kind, name, sort, args, key
        a.id = len(_alist)
        _alist.append(a)
        _atoms[key] = a
    return a


class T:
    __slots__ = ('sort', 'p', '_h')

    def __init__(self, sort, p):
        self.sort = sort      # 'Int' or 'Real'
        self.p = p            # tuple of (monomial, coef), sorted
        self._h = hash(p)

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, T) and self._h == o._h and self.p == o.p

    def __ne__(self, o):
        return not self.__eq__(o)

    def __add__(self, o):
        return add(self, o)
    __radd__ = __add__

    def __sub__(self, o):
        return sub(self, o)

    def __rsub__(self, o):
        return sub(o, self)

    def __mul__(self, o):
        return mul(self, o)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return div(self, o)

    def __rtruediv__(self, o):
        return div(o, self)

    def __neg__(self):
        return mul(-1, self)

    def __pow__(self, n):
        return power(self, n)

    def __lt__(self, o):
        return lt(self, o)

    def __le__(self, o):
        return le(self, o)

    def __gt__(self, o):
        return lt(o, self)

    def __ge__(self, o):
        return le(o, self)

    def __bool__(self):
        raise TypeError('truth value of symbolic term')

    def __repr__(self):
        if not self.p:
            return '0'
        out = []
        for m, c in self.p:
            s = '*'.join(('%r' % a) if e == 1 else '%r^%s' % (a, e) for a, e in m)
            if not m:
                out.append(str(c))
            elif c == 1:
                out.append(s)
            else:
                out.append('%s*%s' % (c, s))
        return '(' + ' + '.join(out) + ')'


PI_FLOAT = math.pi


def is_num(v):
    return isinstance(v, (int, float, Fraction)) and not isinstance(v, bool)


def frac(v):
    if isinstance(v, Fraction):
        return v
    if isinstance(v, int):
        return Fraction(v)
    return Fraction(repr(v))


def const(v, sort=None):
    """python number -> T"""
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, float):
        if v == PI_FLOAT:
            return PI
        if v != v or v in (float('inf'), float('-inf')):
            raise ValueError('non-finite constant')
        v = frac(v)
        sort = sort or 'Real'
    if isinstance(v, int):
        s = sort or 'Int'
        return T(s, (((), Fraction(v)),) if v else ())
    s = sort or 'Real'
    return T(s, (((), v),) if v else ())


def t(v):
    if isinstance(v, T):
        return v
    if isinstance(v, (int, float, Fraction)):
        return const(v)
    # numpy scalars
    if hasattr(v, 'item') and not hasattr(v, 'heapid'):
        try:
            return const(v.item())
        except Exception:
            pass
    raise TypeError('not a numeric term: %r' % (v,))


def of_atom(a):
    return T(a.sort, ((((a, 1),), Fraction(1)),))


def var(name, sort):
    return of_atom(atom('var', name, sort))


def app(name, sort, *args):
    if not args:
        return var(name, sort)
    return of_atom(atom('app', name, sort, tuple(args)))


def as_const(x):
    """Fraction if x is a constant, else None"""
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, (int, float, Fraction)):
        if isinstance(x, float) and x == PI_FLOAT:
            return None
        return frac(x)
    if not x.p:
        return Fraction(0)
    if len(x.p) == 1 and x.p[0][0] == ():
        return x.p[0][1]
    return None


def _mk(sort, d):
    items = [(m, c) for m, c in d.items() if c != 0]
    items.sort(key=lambda mc: tuple((a.id, e) for a, e in mc[0]))
    return T(sort, tuple(items))


def _sort2(a, b):
    return 'Int' if a.sort == 'Int' and b.sort == 'Int' else 'Real'


def add(a, b):
    a, b = t(a), t(b)
    d = dict(a.p)
    for m, c in b.p:
        d[m] = d.get(m, 0) + c
    return _mk(_sort2(a, b), d)


def neg(a):
    return mul(-1, a)


def sub(a, b):
    a, b = t(a), t(b)
    d = dict(a.p)
    for m, c in b.p:
        d[m] = d.get(m, 0) - c
    return _mk(_sort2(a, b), d)


def _mulmono(m1, m2):
    """multiply monomials -> T-like dict (special reductions may yield sums)"""
    d = {}
    for a, e in m1:
        d[a] = d.get(a, 0) + e
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return d


def mul(a, b):
    a, b = t(a), t(b)
    sort = _sort2(a, b)
    res = {}
    extra = None
    for m1, c1 in a.p:
        for m2, c2 in b.p:
            if not m1:
                res[m2] = res.get(m2, 0) + c1 * c2
                continue
            if not m2:
                res[m1] = res.get(m1, 0) + c1 * c2
                continue
            d = _mulmono(m1, m2)
            special = None
            for at, e in d.items():
                if e == 0:
                    continue
                if at.kind == 'fn' and at.name == 'sqrt' and (e >= 2 or e <= -2):
                    special = ('sqrt', at, e)
                    break
                if at.kind == 'fn' and at.name == 'sin' and e >= 2:
                    special = ('sin', at, e)
                    break
                if at.kind == 'fn' and at.name == 'abs' and e >= 2:
                    special = ('abs', at, e)
                    break
            if special is None:
                m = tuple(sorted(((at, e) for at, e in d.items() if e != 0), key=lambda ae: ae[0].id))
                res[m] = res.get(m, 0) + c1 * c2
            else:
                kind, at, e = special
                del d[at]
                m = tuple(sorted(((x, ex) for x, ex in d.items() if ex != 0), key=lambda ae: ae[0].id))
                more = [(x, ex) for x, ex in m if x.kind == 'fn' and (
                    (x.name == 'sqrt' and abs(ex) >= 2) or (x.name in ('sin', 'abs') and ex >= 2))]
                m = tuple(ae for ae in m if ae not in more)
                rest = T('Real', ((m, c1 * c2),))
                for x, ex in more:
                    one = T('Real', ((((x, 1 if ex > 0 else -1),), Fraction(1)),))
                    for _ in range(abs(int(ex))):
                        rest = mul(rest, one)
                if kind == 'sqrt':
                    if e > 0:
                        k = int(e // 2)
                        r = e - 2 * k
                        term = power(at.args[0], k)
                    else:
                        k = int((-e) // 2)
                        r = e + 2 * k
                        term = div(1, power(at.args[0], k))
                    if r:
                        term = mul(term, T('Real', ((((at, r),), Fraction(1)),)))
                elif kind == 'sin':
                    c = cos(at.args[0])
                    term = sub(1, mul(c, c))
                    if e > 2:
                        term = mul(term, T('Real', ((((at, e - 2),), Fraction(1)),)))
                else:
                    term = power(at.args[0], 2)
                    if e > 2:
                        term = mul(term, T('Real', ((((at, e - 2),), Fraction(1)),)))
                tt = mul(rest, term)
                extra = tt if extra is None else add(extra, tt)
    out = _mk(sort, res)
    if extra is not None:
        out = add(out, extra)
        out = T(sort, out.p)
    return out


def _content(a):
    """split a = c * mono * a' with a' primitive & leading coef 1 (mono over common atoms)"""
    common = None
    for m, c in a.p:
        d = dict(m)
        if common is None:
            common = dict(d)
        else:
            for k in list(common):
                if k in d and (d[k] > 0) == (common[k] > 0):
                    common[k] = min(common[k], d[k]) if d[k] > 0 else max(common[k], d[k])
                else:
                    del common[k]
    lead = a.p[0][1]
    mono = tuple(sorted(common.items(), key=lambda ae: ae[0].id))
    return lead, mono


def inverse(a):
    a = t(a)
    c = as_const(a)
    if c is not None:
        if c == 0:
            raise ZeroDivisionError
        return const(1 / c)
    if len(a.p) == 1:
        m, c = a.p[0]
        r = T('Real', ((tuple((at, -e) for at, e in m), 1 / c),))
        return mul(r, const(Fraction(1)))   # triggers sqrt reductions
    lead, mono = _content(a)
    inv_mono = T('Real', ((tuple((at, -e) for at, e in mono), 1 / lead),))
    prim = mul(T('Real', a.p), inv_mono)
    return mul(inv_mono, of_atom(atom('inv', 'inv', 'Real', (prim,))))


def div(a, b):
    a, b = t(a), t(b)
    if len(b.p) > 1 and a.p:
        # exact quotient by a scalar multiple
        q = None
        if len(a.p) == len(b.p):
            r = a.p[0][1] / b.p[0][1]
            if all(x[0] == y[0] and x[1] == r * y[1] for x, y in zip(a.p, b.p)):
                q = r
        if q is not None:
            return const(Fraction(q))
    r = mul(a, inverse(b))
    return T('Real', r.p)


def power(a, n):
    if isinstance(n, T):
        c = as_const(n)
        if c is None:
            ca = as_const(a)
            if ca == 10:
                return pow10(n)
            raise TypeError('symbolic exponent')
        n = c
    if isinstance(n, float):
        n = frac(n)
    if is_num(a) and a == 10 and Fraction(n).denominator != 1:
        return pow10(const(Fraction(n)))
    if Fraction(n).denominator == 2:
        k = Fraction(n) - Fraction(1, 2)
        return mul(sqrt(a), power(a, k))
    if Fraction(n).denominator != 1:
        raise TypeError('fractional exponent %s' % n)
    n = int(n)
    a = t(a)
    if n == 0:
        return const(1, a.sort)
    if n < 0:
        return inverse(power(a, -n))
    r = a
    for _ in range(n - 1):
        r = mul(r, a)
    return r


# ------------------------------------------------------------------ math functions
def _fn(name, *args):
    return of_atom(atom('fn', name, 'Real', tuple(T('Real', x.p) for x in args)))


def _neglead(a):
    return bool(a.p) and a.p[0][1] < 0


def _isqrt(fr):
    if fr < 0:
        return None
    n, d = math.isqrt(fr.numerator), math.isqrt(fr.denominator)
    if n * n == fr.numerator and d * d == fr.denominator:
        return Fraction(n, d)
    return None


def _positive_atom(a):
    return a.kind == 'fn' and a.name in ('pow10', 'exp')


def sqrt(a):
    a = t(a)
    c = as_const(a)
    if c is not None:
        r = _isqrt(c)
        if r is not None:
            return const(r)
        return _fn('sqrt', a)
    if len(a.p) == 1:
        m, c = a.p[0]
        pos = [(x, Fraction(e) / 2) for x, e in m if _positive_atom(x)]
        rest = tuple((x, e) for x, e in m if not _positive_atom(x))
        if pos:
            pos = tuple((x, int(e) if Fraction(e).denominator == 1 else e) for x, e in pos)
            return mul(T('Real', ((pos, Fraction(1)),)), sqrt(T('Real', ((rest, c),))))
    # pull out the leading coefficient when it is a perfect square
    lead = abs(a.p[0][1])
    r = _isqrt(lead)
    if r is not None and r != 1:
        return mul(const(r), sqrt(mul(a, const(1 / lead))))
    return _fn('sqrt', a)


def cos(a):
    a = t(a)
    if not a.p:
        return const(Fraction(1))
    if _neglead(a):
        a = neg(a)
    return _fn('cos', a)


def sin(a):
    a = t(a)
    if not a.p:
        return const(Fraction(0))
    if _neglead(a):
        return neg(_fn('sin', neg(a)))
    return _fn('sin', a)


def _expo(name, a):
    a = t(a)
    m = {}
    for mono, c in a.p:
        if mono == () and name == 'pow10' and c.denominator == 1:
            continue
        base = atom('fn', name, 'Real', (T('Real', ((mono, Fraction(1)),)),))
        m[base] = m.get(base, 0) + (int(c) if c.denominator == 1 else c)
    mono = tuple(sorted(m.items(), key=lambda ae: ae[0].id))
    coef = Fraction(1)
    for mm, c in a.p:
        if mm == () and name == 'pow10' and c.denominator == 1:
            coef = Fraction(10) ** int(c)
    return T('Real', ((mono, coef),))


def exp(a):
    return _expo('exp', a)


def pow10(a):
    return _expo('pow10', a)


def log10(a):
    a = t(a)
    c = as_const(a)
    if c is not None:
        return _logc(c)
    if len(a.p) == 1:
        m, c = a.p[0]
        if c <= 0:
            return _fn('log10', a)
        r = _logc(c)
        for at, e in m:
            if at.kind == 'fn' and at.name == 'pow10':
                r = add(r, mul(const(Fraction(e)), at.args[0]))
            elif at.kind == 'fn' and at.name == 'sqrt':
                r = add(r, mul(const(Fraction(e) / 2), log10(at.args[0])))
            elif at.kind == 'inv':
                r = sub(r, mul(const(Fraction(e)), log10(at.args[0])))
            else:
                r = add(r, mul(const(Fraction(e)), _fn('log10', of_atom(at))))
        return r
    lead, mono = _content(a)
    if lead > 0 and (lead != 1 or mono):
        f = T('Real', ((mono, lead),))
        prim = div(a, f)
        return add(log10(f), _fn('log10', prim))
    return _fn('log10', a)


def _logc(c):
    r = const(Fraction(0))
    for n, s in ((c.numerator, 1), (c.denominator, -1)):
        if n <= 0:
            return _fn('log10', const(c))
        k = 0
        while n % 10 == 0:
            n //= 10
            k += 1
        r = add(r, const(Fraction(s * k)))
        p = 2
        while n > 1 and p < 1000:
            while n % p == 0:
                n //= p
                r = add(r, mul(const(Fraction(s)), _fn('log10', const(Fraction(p)))))
            p += 1
        if n > 1:
            r = add(r, mul(const(Fraction(s)), _fn('log10', const(Fraction(n)))))
    return r


def absv(a):
    a = t(a)
    c = as_const(a)
    if c is not None:
        return const(abs(c), a.sort)
    if _neglead(a):
        a = neg(a)
    return of_atom(atom('fn', 'abs', a.sort, (a,)))


def generic(name, *args):
    return _fn(name, *[t(x) for x in args])


def igeneric(name, *args):
    return of_atom(atom('fn', name, 'Int', tuple(t(x) for x in args)))


def roundi(a):
    """round half to even -> Int-valued real"""
    a = t(a)
    c = as_const(a)
    if c is not None:
        return const(round(c))
    if a.sort == 'Int':
        return a
    # integral constant part can be pulled out only when even (half-even); keep simple
    return igeneric('round', a)


def trunc(a):
    a = t(a)
    if a.sort == 'Int':
        return a
    c = as_const(a)
    if c is not None:
        return const(int(c))
    if is_integral(a):
        return T('Int', a.p)
    return igeneric('trunc', a)


def is_integral(a):
    a = t(a)
    if a.sort == 'Int':
        return True
    for m, c in a.p:
        if c.denominator != 1:
            return False
        for at, e in m:
            if at.sort != 'Int' or e < 0 or Fraction(e).denominator != 1:
                return False
    return True


def floor(a):
    a = t(a)
    if is_integral(a):
        return T('Int', a.p)
    c = as_const(a)
    if c is not None:
        return const(math.floor(c))
    return igeneric('floor', a)


def idiv(a, b):
    a, b = t(a), t(b)
    ca, cb = as_const(a), as_const(b)
    if ca is not None and cb is not None:
        return const(int(ca // cb))
    if cb == 1:
        return a
    return of_atom(atom('fn', 'idiv', 'Int', (a, b)))


def imod(a, b):
    a, b = t(a), t(b)
    ca, cb = as_const(a), as_const(b)
    if ca is not None and cb is not None:
        return const(ca - cb * (ca // cb), 'Int') if a.sort == 'Int' and b.sort == 'Int' else const(ca - cb * (ca // cb))
    if a.sort == 'Int' and b.sort == 'Int':
        return sub(a, mul(b, idiv(a, b)))
    return sub(a, mul(b, floor(div(a, b))))


PI = None
PI = of_atom(atom('var', 'PI', 'Real'))


# ------------------------------------------------------------------ formulas
class F:
    __slots__ = ('k', 'a', '_h')

    def __init__(self, k, *a):
        self.k = k
        self.a = a
        self._h = hash((k, a))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, F) and self._h == o._h and self.k == o.k and self.a == o.a

    def __bool__(self):
        raise TypeError('truth value of symbolic formula %r' % self)

    def __repr__(self):
        if self.k == 'le0':
            return '%r<=0' % (self.a[0],)
        if self.k == 'lt0':
            return '%r<0' % (self.a[0],)
        if self.k == 'eq0':
            return '%r==0' % (self.a[0],)
        if self.k == 'b':
            return '%s%s' % (self.a[0], '(%s)' % ','.join(map(repr, self.a[1])) if self.a[1] else '')
        if self.k == 'not':
            return '!%r' % (self.a[0],)
        return '(' + (' & ' if self.k == 'and' else ' | ').join(map(repr, self.a)) + ')' \
            if self.k in ('and', 'or') else '%s%r' % (self.k, self.a)


def boolvar(name, *args):
    return F('b', name, tuple(args))


def le(a, b):
    d = sub(a, b)
    c = as_const(d)
    if c is not None:
        return c <= 0
    if d.sort == 'Int':
        d = _scale(d)
    return F('le0', d)


def lt(a, b):
    d = sub(a, b)
    c = as_const(d)
    if c is not None:
        return c < 0
    if d.sort == 'Int':
        return F('le0', _scale(add(d, 1)))
    return F('lt0', d)


def _scale(d):
    return d


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def eq(a, b):
    if isinstance(a, Str) or isinstance(b, Str):
        return streq(a, b)
    d = sub(a, b)
    c = as_const(d)
    if c is not None:
        return c == 0
    if _neglead(d):
        d = neg(d)
    return F('eq0', d)


def ne(a, b):
    return Not(eq(a, b))


def Not(f):
    if isinstance(f, bool):
        return not f
    if f.k == 'not':
        return f.a[0]
    if f.k == 'le0':
        d = f.a[0]
        return lt(0, d)
    if f.k == 'lt0':
        return le(0, f.a[0])
    return F('not', f)


def And(*fs):
    out = []
    for f in fs:
        if isinstance(f, (list, tuple)):
            f = And(*f)
        if f is True:
            continue
        if f is False:
            return False
        if f.k == 'and':
            out.extend(x for x in f.a if x not in out)
        elif f not in out:
            out.append(f)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return F('and', *out)


def Or(*fs):
    out = []
    for f in fs:
        if f is False:
            continue
        if f is True:
            return True
        if f.k == 'or':
            out.extend(f.a)
        elif f not in out:
            out.append(f)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return F('or', *out)


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    return And(Implies(a, b), Implies(b, a))


def between(lo, x, hi):
    """lo <= x < hi"""
    return And(le(lo, x), lt(x, hi))


def ite(c, a, b):
    if c is True:
        return t(a)
    if c is False:
        return t(b)
    a, b = t(a), t(b)
    if a == b:
        return a
    return of_atom(atom('ite', 'ite', _sort2(a, b), (c, a, b)))


# ------------------------------------------------------------------ binders (sum, transforms)
def bvar(depth=0, sort='Int'):
    return of_atom(atom('bv', 'bv%d' % depth, sort))


def _fnl_depth(x, seen):
    """largest binder depth of the functionals occurring in x, -1 if none"""
    d = -1
    for a in atoms_of(x):
        if a.kind == 'fnl':
            d = max(d, a.args[2])
    return d


def bind(name, sort, params, katom, bodies):
    """functional whose bodies are given over the variable atom katom"""
    bodies = [t(b) for b in bodies]
    d = max([-1] + [_fnl_depth(b, None) for b in bodies]) + 1
    bv = bvar(d)
    return of_atom(atom('fnl', name, sort, (tuple(params), tuple(subst(b, {katom: bv}) for b in bodies), d)))


_openc = [0]


def open_fnl(a, k):
    """bodies of functional a at index k"""
    bva = atom('bv', 'bv%d' % a.args[2], 'Int')
    return [subst(b, {bva: k}) for b in a.args[1]]


def subst(x, mp, memo=None):
    """substitute atoms (dict At->T) in T or F"""
    if memo is None:
        memo = {}
    return _subst(x, mp, memo)


def _subst(x, mp, memo):
    if isinstance(x, (bool, int, float, str, Fraction)) or x is None:
        return x
    r = memo.get(x)
    if r is not None:
        return r
    if isinstance(x, T):
        res = const(0, x.sort) if x.sort == 'Int' else const(Fraction(0))
        for m, c in x.p:
            term = const(c, 'Int') if (c.denominator == 1 and x.sort == 'Int') else const(c)
            for a, e in m:
                base = _subst_atom(a, mp, memo)
                if e == 1:
                    term = mul(term, base)
                elif Fraction(e).denominator == 1:
                    term = mul(term, power(base, e))
                else:
                    # fractional exponent of a positive atom
                    if len(base.p) == 1 and all(_positive_atom(y) for y, _ in base.p[0][0]):
                        mm = tuple((y, z * e) for y, z in base.p[0][0])
                        term = mul(term, T('Real', ((mm, base.p[0][1]),)))
                    else:
                        raise TypeError('fractional power of %r' % base)
            res = add(res, term)
        r = T(x.sort, res.p)
    elif isinstance(x, F):
        if x.k == 'le0':
            r = le(_subst(x.a[0], mp, memo), 0)
        elif x.k == 'lt0':
            r = lt(_subst(x.a[0], mp, memo), 0)
        elif x.k == 'eq0':
            r = eq(_subst(x.a[0], mp, memo), 0)
        elif x.k == 'not':
            r = Not(_subst(x.a[0], mp, memo))
        elif x.k == 'and':
            r = And(*[_subst(y, mp, memo) for y in x.a])
        elif x.k == 'or':
            r = Or(*[_subst(y, mp, memo) for y in x.a])
        elif x.k == 'b':
            r = F('b', x.a[0], tuple(_subst(y, mp, memo) for y in x.a[1]))
        else:
            r = x
    else:
        r = x
    memo[x] = r
    return r


def _subst_atom(a, mp, memo):
    if a in mp:
        return t(mp[a])
    if a.kind in ('var', 'bv'):
        return of_atom(a)
    if a.kind == 'app':
        return app(a.name, a.sort, *[_subst(y, mp, memo) for y in a.args])
    if a.kind == 'inv':
        return inverse(_subst(a.args[0], mp, memo))
    if a.kind == 'ite':
        return ite(_subst(a.args[0], mp, memo), _subst(a.args[1], mp, memo), _subst(a.args[2], mp, memo))
    if a.kind == 'fnl':
        ks = set(mp)
        inner = set()
        for y in a.args[0] + a.args[1]:
            inner |= atoms_of(y)
        if not (ks & inner):
            return of_atom(a)
        _openc[0] += 1
        fresh = atom('var', 'open!%d' % _openc[0], 'Int')
        bodies = [subst(subst(b, {atom('bv', 'bv%d' % a.args[2], 'Int'): of_atom(fresh)}), mp) for b in a.args[1]]
        r = bind(a.name, a.sort, [_subst(y, mp, memo) for y in a.args[0]], fresh, bodies)
        return r
    if a.kind == 'fn':
        args = [_subst(y, mp, memo) for y in a.args]
        return FN.get(a.name, lambda *z: generic(a.name, *z))(*args) if a.sort == 'Real' else \
            IFN.get(a.name, lambda *z: igeneric(a.name, *z))(*args)
    raise TypeError(a.kind)


FN = {'sqrt': sqrt, 'cos': cos, 'sin': sin, 'exp': exp, 'pow10': pow10, 'log10': log10, 'abs': absv}
IFN = {'round': roundi, 'trunc': trunc, 'floor': floor, 'idiv': idiv, 'abs': absv}


def atoms_of(x, acc=None):
    if acc is None:
        acc = set()
    if isinstance(x, T):
        for m, _ in x.p:
            for a, _e in m:
                if a not in acc:
                    acc.add(a)
                    for y in a.args:
                        if isinstance(y, tuple):
                            for z in y:
                                atoms_of(z, acc)
                        else:
                            atoms_of(y, acc)
    elif isinstance(x, F):
        for y in x.a:
            if isinstance(y, tuple):
                for z in y:
                    atoms_of(z, acc)
            else:
                atoms_of(y, acc)
    elif isinstance(x, Str):
        pass
    return acc


# ------------------------------------------------------------------ symbolic strings: integer codes
_codes = {}


def strcode(lit):
    """code of a literal: distinct literals have distinct codes"""
    return _codes.setdefault(lit, len(_codes))


class Str:
    __slots__ = ('name', 'code')

    def __init__(self, name, code=None):
        self.name = name
        self.code = code if code is not None else var('str.' + name, 'Int')

    def __hash__(self):
        return hash(self.code)

    def __eq__(self, o):
        return isinstance(o, Str) and o.code == self.code

    def __repr__(self):
        return '$' + self.name


def streq(a, b):
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    return eq(const(strcode(a)) if isinstance(a, str) else a.code, const(strcode(b)) if isinstance(b, str) else b.code)


# ------------------------------------------------------------------ complex
class Cx:
    __slots__ = ('re', 'im')

    def __init__(self, re, im):
        self.re, self.im = t(re), t(im)

    def __repr__(self):
        return 'Cx(%r, %r)' % (self.re, self.im)


def cx(v):
    if isinstance(v, Cx):
        return v
    if isinstance(v, complex):
        return Cx(frac(v.real), frac(v.imag))
    return Cx(t(v), 0)


def c_add(a, b):
    a, b = cx(a), cx(b)
    return Cx(add(a.re, b.re), add(a.im, b.im))


def c_sub(a, b):
    a, b = cx(a), cx(b)
    return Cx(sub(a.re, b.re), sub(a.im, b.im))


def c_mul(a, b):
    a, b = cx(a), cx(b)
    return Cx(sub(mul(a.re, b.re), mul(a.im, b.im)), add(mul(a.re, b.im), mul(a.im, b.re)))


def c_div(a, b):
    a, b = cx(a), cx(b)
    if not b.im.p:
        return Cx(div(a.re, b.re), div(a.im, b.re))
    n = add(mul(b.re, b.re), mul(b.im, b.im))
    num = c_mul(a, Cx(b.re, neg(b.im)))
    return Cx(div(num.re, n), div(num.im, n))


def c_exp(a):
    a = cx(a)
    e = exp(a.re)
    return Cx(mul(e, cos(a.im)), mul(e, sin(a.im)))


def c_abs2(a):
    a = cx(a)
    return add(mul(a.re, a.re), mul(a.im, a.im))


def c_eq(a, b):
    a, b = cx(a), cx(b)
    return And(eq(a.re, b.re), eq(a.im, b.im))
