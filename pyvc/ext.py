"""Further symbolic values: text, maps with symbolic keys, context managers, records of calls.

Strings.  A symbolic string is an integer code (terms.Str); literals have fixed codes, so equality of strings
is equality of integers.  Formatted text is a sequence of literal and formatted parts (Text)."""
import re
from fractions import Fraction
from . import terms as tm
from .terms import T, F, Str
from .engine import Unsupported, PyRaise, SDict, SList, Opaque


class Ext:
    types = ()

    def attr(self, I, name):
        raise Unsupported('attribute %s of %r' % (name, self))

    def getitem(self, I, ix):
        raise Unsupported('subscript of %r' % self)

    def setitem(self, I, ix, v):
        raise Unsupported('item store on %r' % self)

    def delitem(self, I, ix):
        raise Unsupported('item deletion on %r' % self)

    def contains(self, I, x):
        raise Unsupported('membership in %r' % self)

    def iterate(self, I):
        raise Unsupported('iteration over %r' % self)

    def length(self, I):
        raise Unsupported('len of %r' % self)

    def truth(self, I):
        return True

    def eq(self, I, o):
        return self is o

    def setattr(self, I, name, v):
        raise Unsupported('attribute store on %r' % self)

    def binop(self, I, op, other, left):
        raise Unsupported('operator on %r' % self)


# ------------------------------------------------------------------------------------------------ text
class Text(Ext):
    """parts: literal str, symbolic Str, or (spec, value) with spec like 's', 'd', '3d'"""
    types = (str,)

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, Text):
                ps = p.parts
            else:
                ps = [p]
            for q in ps:
                if isinstance(q, str):
                    if not q:
                        continue
                    if out and isinstance(out[-1], str):
                        out[-1] += q
                        continue
                out.append(q)
        self.parts = tuple(out)

    def __repr__(self):
        return 'Text%r' % (self.parts,)

    def truth(self, I):
        if any(isinstance(p, str) or (isinstance(p, tuple) and p[0] != 's') for p in self.parts):
            return True
        raise Unsupported('truth of text')

    def eq(self, I, o):
        c = keycode(o)
        if c is None:
            if isinstance(o, Opaque):
                return tm.boolvar('eq', self.code(), tm.var('id%d' % id(o), 'Int'))
            return False
        return tm.eq(self.code(), c)

    def length(self, I):
        return I.E.fresh_nat('textlen')

    def binop(self, I, op, other, left):
        import ast
        if op is ast.Add:
            if not is_text(other):
                raise PyRaise(TypeError, 'str + other')
            return text([self, other] if left else [other, self])
        raise Unsupported('operator on text')

    def attr(self, I, name):
        from .interp import Native
        h = I.__dict__.get('text_attr')
        if h is not None:
            return h(I, self, name)
        if name in ('strip', 'lower', 'upper', 'rstrip', 'lstrip', 'replace', 'format', 'ljust', 'rjust'):
            return Native(lambda *a, **k: Opaque('text.' + name), name)
        raise Unsupported('text.%s' % name)

    def code(self):
        return tm.app('text!' + '|'.join(p if isinstance(p, str) else '%s' if isinstance(p, Str) else '%' + p[0]
                                         for p in self.parts), 'Int',
                      *[p.code if isinstance(p, Str) else (keycode(p[1]) if isinstance(p[1], (Str, Text)) else tm.t(p[1])) if not isinstance(p[1], Opaque) else tm.var('id%d' % id(p[1]), 'Int') for p in self.parts if not isinstance(p, str)])


def is_text(v):
    return isinstance(v, (str, Str, Text, Opaque))


def text(parts):
    t = Text(parts)
    if not t.parts:
        return ''
    if len(t.parts) == 1 and isinstance(t.parts[0], (str, Str)):
        return t.parts[0]
    return t


def piece(I, spec, v):
    if isinstance(v, Fraction):
        v = float(v)
    if isinstance(v, (Text, Str)) and spec in ('s', ''):
        return v
    if isinstance(v, (T, Str, Text)):
        return (spec or 's', v)
    if I.symbolic(v):
        return (spec or 's', Opaque('%r' % (v,)))
    return None


_PCT = re.compile(r'%(?:\((\w+)\))?([-+ #0]*)(\*|\d+)?(?:\.(\d+))?([diouxXeEfFgGcrsa%])')


def percent(I, fmt, args):
    if not isinstance(fmt, str):
        return Opaque('formatted')
    args = args if isinstance(args, tuple) else (args,)
    if not any(I.symbolic(x) for x in args):
        return fmt % tuple(float(x) if isinstance(x, Fraction) else x for x in args)
    out, pos, i = [], 0, 0
    for m in _PCT.finditer(fmt):
        out.append(fmt[pos:m.start()])
        pos = m.end()
        if m.group(5) == '%':
            out.append('%')
            continue
        if m.group(1) or m.group(3) == '*':
            raise Unsupported('format %s' % fmt)
        if i >= len(args):
            raise PyRaise(TypeError, 'not enough arguments for format string')
        spec = m.group(2) + (m.group(3) or '') + ('.' + m.group(4) if m.group(4) else '') + m.group(5)
        if m.group(5) in 'diouxX' and isinstance(args[i], (str, Str, Text, type(None))):
            raise PyRaise(TypeError, '%d of a string')
        p = piece(I, spec, args[i])
        if p is None:
            a = args[i]
            p = ('%' + spec) % (float(a) if isinstance(a, Fraction) else a)
        out.append(p)
        i += 1
    if i != len(args):
        raise PyRaise(TypeError, 'not all arguments converted')
    out.append(fmt[pos:])
    return text(out)


# ------------------------------------------------------------------------------------------------ maps
def keycode(k):
    if isinstance(k, Str):
        return k.code
    if isinstance(k, str):
        return tm.const(tm.strcode(k))
    if isinstance(k, Text):
        return k.code()
    return None


class SMap(Ext):
    """dictionary with string keys and arbitrary contents: state is a lookup function key code -> value or
    SDict.MISSING (it may branch).  `enum` = (n, key(k)) lists the keys in order while the map is unmodified."""
    types = (dict,)

    def __init__(self, E, lookup, enum=None, name=None):
        self.E, self.name = E, name
        E.alloc(self, (lookup, enum))

    def __repr__(self):
        return 'SMap(%s)' % self.name

    @property
    def st(self):
        return self.E.heap[self.heapid]

    def look(self, k):
        c = k if isinstance(k, T) else keycode(k)
        if c is None:
            raise Unsupported('map key %r' % (k,))
        if self.E.read_log is not None:
            self.E.read_log.append((self, None))
        return self.st[0](c)

    def put(self, k, v):
        E, f = self.E, self.st[0]
        c = k if isinstance(k, T) else keycode(k)
        if c is None:
            raise Unsupported('map key %r' % (k,))
        E.hset(self, (lambda x: v if E.branch(tm.eq(x, c)) else f(x), None), ('map', c))

    def snapshot(self):
        return self.st[0]

    def restore(self, f, enum=None):
        self.E.hset(self, (f, enum), ('map', None))

    def getitem(self, I, ix):
        v = self.look(ix)
        if v is SDict.MISSING:
            raise PyRaise(KeyError, ix)
        return v

    def setitem(self, I, ix, v):
        self.put(ix, v)

    def delitem(self, I, ix):
        self.getitem(I, ix)
        self.put(ix, SDict.MISSING)

    def contains(self, I, x):
        return self.look(x) is not SDict.MISSING

    def truth(self, I):
        e = self.st[1]
        if e is None:
            raise Unsupported('truth of map')
        return self.E.branch(tm.ne(e[0], 0))

    def length(self, I):
        e = self.st[1]
        if e is None:
            raise Unsupported('length of modified map')
        return e[0]

    def items(self, what):
        from .interp import SIter
        e = self.st[1]
        if e is None:
            raise Unsupported('iteration over modified map')
        f = self.st[0]

        def item(k):
            key = e[1](tm.t(k))
            if what == 'keys':
                return key
            v = f(keycode(key))
            return v if what == 'values' else (key, v)
        return SIter(e[0], item, True)

    def iterate(self, I):
        return self.items('keys')

    def attr(self, I, name):
        from .interp import Native
        nat = lambda f: Native(f, name)
        if name in ('items', 'keys', 'values'):
            return nat(lambda: self.items(name))
        if name == 'get':
            def get(k, d=None):
                v = self.look(k)
                return d if v is SDict.MISSING else v
            return nat(get)
        if name == 'pop':
            def pop(k, *d):
                v = self.look(k)
                if v is SDict.MISSING:
                    if d:
                        return d[0]
                    raise PyRaise(KeyError, k)
                self.put(k, SDict.MISSING)
                return v
            return nat(pop)
        if name == 'setdefault':
            def setdefault(k, d=None):
                v = self.look(k)
                if v is SDict.MISSING:
                    self.put(k, d)
                    return d
                return v
            return nat(setdefault)
        if name == 'copy':
            return nat(lambda: SMap(self.E, *self.st))
        if name == 'update':
            return nat(lambda *a, **k: map_update(I, self, a, k))
        if name == 'clear':
            return nat(lambda: self.restore(lambda x: SDict.MISSING))
        raise Unsupported('map.%s' % name)


def lookup_of(I, o):
    """lookup function (key code -> value or MISSING) of a mapping value"""
    E = I.E
    if isinstance(o, SMap):
        return o.snapshot()
    if isinstance(o, SDict):
        if o.lazy is not None:
            raise Unsupported('lazy dict as map')
        if isinstance(E.heap[o.heapid], tuple):
            return E.heap[o.heapid][0]
        d = {k: v for k, v in E.heap[o.heapid].items() if v is not SDict.MISSING}
    elif isinstance(o, dict):
        d = dict(o)
    else:
        raise Unsupported('mapping %r' % (o,))

    def f(x):
        for k, v in d.items():
            c = keycode(k)
            if c is None:
                continue
            if E.branch(tm.eq(x, c)):
                return v
        return SDict.MISSING
    return f


def map_update(I, m, a, k):
    E = I.E
    for o in list(a) + ([k] if k else []):
        g, f = lookup_of(I, o), m.st[0]

        def h(x, g=g, f=f):
            v = g(x)
            return f(x) if v is SDict.MISSING else v
        m.restore(h)


def as_map(I, o):
    """view of a dictionary as a map with symbolic keys (an SDict keeps its identity and heap cell)"""
    if isinstance(o, SMap):
        return o
    E = I.E
    if not isinstance(E.heap[o.heapid], tuple):
        d = E.heap[o.heapid]
        if any(not isinstance(k, str) for k in d):
            raise Unsupported('symbolic string key in dict with other keys')
        E.heap[o.heapid] = (lookup_of(I, o), None)
    m = SMap.__new__(SMap)
    m.E, m.name, m.heapid = E, o.name, o.heapid
    return m


# ------------------------------------------------------------------------------------------------ bags
class Bag(Ext):
    """list or set of strings of which only the multiplicity of each key is known (state: key code -> count);
    properties are proved at one arbitrary key X.  Iteration lists the keys in some order; X, if present, occurs
    once, at position `pos`.  spec(bag): loop contract for loops over this bag."""

    def __init__(self, E, X, count, name='bag', kind=list, is_sorted=False, spec=None, facts=None):
        self.E, self.X, self.name, self.kind, self.spec, self.facts = E, X, name, kind, spec, facts
        self.types = (kind,)
        self.uid = E.fresh(name)
        E.alloc(self, (count, is_sorted))

    def __repr__(self):
        return 'Bag(%s)' % self.name

    @property
    def st(self):
        if self.E.read_log is not None:
            self.E.read_log.append((self, None))
        return self.E.heap[self.heapid]

    def count(self, k):
        c = k if isinstance(k, T) else keycode(k)
        if c is None:
            raise Unsupported('bag of %r' % (k,))
        return self.st[0](c)

    def add(self, k, d):
        E, f = self.E, self.st[0]
        c = keycode(k)
        if c is None:
            raise Unsupported('bag of %r' % (k,))
        E.hset(self, (lambda x: tm.add(f(x), d) if E.branch(tm.eq(x, c)) else f(x), False), ('bag', c))

    def has(self, k):
        return self.E.branch(tm.lt(0, self.count(k)))

    def contains(self, I, x):
        return self.has(x)

    def truth(self, I):
        n = self.enum()[0]
        return self.E.branch(tm.ne(n, 0))

    def length(self, I):
        return self.enum()[0]

    def present(self):
        n = self.count(self.X)
        if not self.E.branch(tm.le(n, 1)):
            raise Unsupported('repeated item')
        return self.E.branch(tm.lt(0, n))

    def pos(self):
        return tm.var('%s.pos' % self.uid, 'Int')

    def enum(self):
        E = self.E
        n = tm.var('%s.n' % self.uid, 'Int')
        key = lambda k: tm.app('%s.key' % self.uid, 'Int', tm.t(k))
        E.assume(tm.le(0, n))
        if self.present():
            E.assume([tm.le(0, self.pos()), tm.lt(self.pos(), n), tm.eq(key(self.pos()), self.X.code)])
        return n, key

    def iterate(self, I):
        from .interp import SIter
        E = self.E
        n, key = self.enum()
        here = self.present()
        f = self.st[0]

        def item(k):
            c = key(k)
            if E.branch(tm.eq(c, self.X.code)):
                E.assume(here)
                E.assume(tm.eq(tm.t(k), self.pos()))
                return self.X
            if here:
                E.assume(tm.ne(tm.t(k), self.pos()))
            E.assume(tm.lt(0, f(c)))
            if self.facts:
                self.facts(c)
            return Str('%s.item' % self.name, c)
        it = SIter(n, item, True)
        it.bag = self
        if self.spec:
            it.spec = self.spec(self)
        return it

    def derive(self, count, kind=None, is_sorted=False):
        return Bag(self.E, self.X, count, self.name, kind or self.kind, is_sorted, self.spec, self.facts)

    def attr(self, I, name):
        from .interp import Native
        E = self.E
        nat = lambda f: Native(f, name)
        if name in ('append', 'add'):
            def put(k):
                if self.kind is set and self.has(k):
                    return None
                self.add(k, 1)
            if (name == 'append') == (self.kind is list):
                return nat(put)
        if name in ('remove', 'discard'):
            def remove(k):
                if not self.has(k):
                    if name == 'remove':
                        raise PyRaise(ValueError if self.kind is list else KeyError, k)
                    return None
                self.add(k, -1)
            if name == 'remove' or self.kind is set:
                return nat(remove)
        if name == 'count' and self.kind is list:
            return nat(self.count)
        if name == 'copy':
            return nat(lambda: self.derive(*self.st[:1], is_sorted=self.st[1]))
        if name == 'sort' and self.kind is list:
            def sort(key=None, reverse=False):
                if key is not None or reverse is not False:
                    E.hset(self, (self.st[0], False), ('bag', None))
                else:
                    E.hset(self, (self.st[0], True), ('bag', None))
            return nat(sort)
        raise Unsupported('bag.%s' % name)


def count_in(I, c, X):
    """multiplicity of the key X in a list or set"""
    if isinstance(c, Bag):
        return c.count(X)
    if isinstance(c, SList) and c.st[0] == 'c':
        c = c.st[1]
    if isinstance(c, (tuple, list, set, frozenset)):
        return sum(1 for v in c if I.E.branch(tm.streq(v, X)))
    raise Unsupported('multiplicity in %r' % (c,))


def bag_comp(I, e, fr, kind):
    """[k for k in bag if ...]: None if the comprehension is not of this form"""
    import ast
    if len(e.generators) != 1:
        return None
    g = e.generators[0]
    if not (isinstance(g.target, ast.Name) and isinstance(e.elt, ast.Name) and e.elt.id == g.target.id):
        return None
    v = I.eval(g.iter, fr)
    if not isinstance(v, Bag):
        return v
    f = v.st[0]
    E = I.E
    heap = E.heap.fork()

    def count(x):
        n = f(x)
        if not E.branch(tm.lt(0, n)):
            return 0
        saved = E.heap
        E.heap = heap.fork()
        try:
            f2 = I.sub_frame(fr)
            f2.loc[g.target.id] = v.X if E.branch(tm.eq(x, v.X.code)) else Str('item', x)
            ok = all(I.truth(I.eval(c, f2)) for c in g.ifs)
        finally:
            E.heap = saved
        return 0 if not ok else 1 if kind is set else n
    out = v.derive(count, kind, v.st[1] and kind is list)
    return out


# ------------------------------------------------------------------------------------------------ recorders
class Recorder(Ext):
    """external object whose method calls are appended to a ghost log; `results` maps method names to functions"""

    def __init__(self, E, name, results=None, fields=None):
        self.E, self.name = E, name
        self.results = results or {}
        self.fields = fields or {}

    def __repr__(self):
        return '<external %s>' % self.name

    def attr(self, I, name):
        from .interp import Native
        if name in self.fields:
            return self.fields[name]

        def f(*a, **k):
            log(self.E, (self.name, name, a, k))
            r = self.results.get(name)
            return r(*a, **k) if r else None
        return Native(f, name)


def log(E, entry):
    E.ghost['log'] = E.ghost.get('log', ()) + (entry,)


def logged(E):
    return E.ghost.get('log', ())
