"""Path exploration, heap, symbolic data (arrays, lists, dicts, objects)."""
import time
from fractions import Fraction
from . import terms as tm
from .terms import T, F, Cx, Str
from .solver import Solver


class Unsupported(Exception):
    """the code leaves the subset the generator understands: the obligation is undecided"""


class PathEnd(Exception):
    """this path is finished (end of a loop-body obligation, or an assumed-false branch)"""


class PyRaise(Exception):
    """an exception raised by the interpreted program"""

    def __init__(self, etype, value=None):
        super().__init__('%s(%r)' % (getattr(etype, '__name__', etype), value))
        self.etype = etype
        self.value = value


class Enough(BaseException):
    """so many obligations failed that the verdict is clear"""


class Budget(Exception):
    pass


class Poison:
    """value of a variable whose contents after a summarised loop are not tracked"""

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return 'Poison(%s)' % self.why


class Deferred:
    """value of a variable after a summarised loop, worked out when it is read"""

    def force(self):
        raise NotImplementedError


class Obligation:
    __slots__ = ('name', 'status', 'backend', 'detail', 'model', 'path', 'abstract')

    def __init__(self, name, status, backend, detail=None, model=None, path=None):
        self.name, self.status, self.backend = name, status, backend
        self.detail, self.model, self.path = detail, model, path


class Heap(dict):
    """object states; lazily created inputs keep their initial state in `base` so that they survive the
    roll-back of a nested exploration"""
    base = None

    def __missing__(self, k):
        return self.base[k]

    def fork(self):
        h = Heap(self)
        h.base = self.base
        return h


class Engine:
    def __init__(self, max_paths=4000, time_limit=240):
        self.solver = Solver()
        self.obligations = []
        self.max_paths = max_paths
        self.deadline = time.time() + time_limit
        self.contracts = {}        # real function -> handler(E, args, kwargs)
        self.loops = {}            # (qualname, ordinal) -> loop contract
        self.failures = 0
        self.moved = {}            # loop found in a helper -> key of its contract
        self.functions = {}        # qualname -> times interpreted
        self.assumed = set()       # names of dependency contracts used
        self.npaths = 0
        self.cur = None            # name of the contract being verified
        self.reset()

    # ---------------------------------------------------------------- path state
    def reset(self):
        self.heap = Heap()
        self.heap.base = {}
        self.lazy_alloc = 0
        self.pc = []
        self.pcset = set()
        self.counter = 0
        self.prefix = []
        self.pos = 0
        self.trail = []
        self.write_log = None
        self.read_log = None
        self.alloc_log = None
        self.ghost = {}
        self.loop_depth = 0
        self.objcache = {}

    def fresh(self, name):
        self.counter += 1
        return '%s#%d' % (name, self.counter)

    def int(self, name):
        return tm.var(name, 'Int')

    def real(self, name):
        return tm.var(name, 'Real')

    def fresh_int(self, name='k'):
        return tm.var(self.fresh(name), 'Int')

    def fresh_nat(self, name='n'):
        v = self.fresh_int(name)
        self.assume(tm.le(0, v))
        return v

    def fresh_real(self, name='r'):
        return tm.var(self.fresh(name), 'Real')

    def assume(self, f):
        if f is True:
            return
        if f is False:
            raise PathEnd('assumed false')
        if isinstance(f, (list, tuple)):
            for x in f:
                self.assume(x)
            return
        if f.k == 'and':
            for x in f.a:
                self.assume(x)
            return
        if f not in self.pcset:
            self.pc.append(f)
            self.pcset.add(f)

    def branch(self, f):
        """decide a condition, exploring both outcomes"""
        if isinstance(f, bool):
            return f
        if f in self.pcset:
            return True
        nf = tm.Not(f)
        if nf in self.pcset:
            return False
        if time.time() > self.deadline:
            raise Budget('time limit')
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.trail.append(d)
            forced = d[1]
            if not forced:
                self.assume(f if d[0] else nf)
            return d[0]
        a = self.solver.feasible(self.pc, f)
        b = self.solver.feasible(self.pc, nf) if a else True
        self.pos += 1
        if a and b:
            self.trail.append((True, False))
            self.pending.append(self.trail[:-1] + [(False, False)])
            self.assume(f)
            return True
        val = a
        self.trail.append((val, True))
        return val

    abs_loop = None     # function (frame, while statement) -> abstract loop contract or None

    def abs_reached(self, key):
        if key not in self.abs_seen:
            self.abs_seen[key] = len(self.abs_seen)
            self.abs_todo.append(key)

    def choice(self, name):
        """nondeterministic boolean"""
        return self.branch(tm.boolvar(name))

    def explore(self, fn, on_path=None):
        """run fn on every path (re-execution with decision prefixes)"""
        self.pending = [[]]
        n = 0
        # abstract loop states still to be explored (loops whose invariant is the set of states reached)
        self.abs_start, self.abs_todo, self.abs_seen = None, [], {}
        while self.pending or self.abs_todo:
            if not self.pending:
                self.abs_start = self.abs_todo.pop(0)
                self.pending = [[]]
            prefix = self.pending.pop()
            self.reset()
            self.prefix = prefix
            n += 1
            self.npaths += 1
            if n > self.max_paths:
                raise Budget('more than %d paths' % self.max_paths)
            try:
                fn(self)
            except PathEnd:
                pass
            if on_path:
                on_path(self)
        return n

    def sub(self, fn):
        """nested exploration from the current state; returns [(added pc, result)]; the state (heap, pc)
        is restored after each path"""
        saved = (self.heap, list(self.pc), set(self.pcset), self.prefix, self.pos, self.trail, self.pending,
                 dict(self.ghost))
        out = []
        pend = [[]]
        n = 0
        npc = len(saved[1])
        try:
            while pend:
                prefix = pend.pop()
                n += 1
                if n > 600:
                    raise Unsupported('nested path explosion')
                self.heap = saved[0].fork()
                self.pc = list(saved[1])
                self.pcset = set(saved[2])
                self.prefix, self.pos, self.trail = prefix, 0, []
                self.pending = pend
                self.ghost = dict(saved[7])
                try:
                    r = fn()
                    out.append((tuple(self.pc[npc:]), r))
                except PathEnd:
                    pass
                except PyRaise:
                    # the quick feasibility test is incomplete: only a really reachable exception counts
                    if self.solver.prove(self.pc, False)[0] != 'proved':
                        raise
        finally:
            (self.heap, self.pc, self.pcset, self.prefix, self.pos, self.trail, self.pending, self.ghost) = saved
        return out

    def merge(self, fn):
        """nested exploration of a scalar-valued computation, merged into one (ite) term"""
        rs = self.sub(fn)
        if not rs:
            raise PathEnd('no feasible path')
        if len(rs) == 1:
            return rs[0][1]
        if any(isinstance(v, Cx) for _, v in rs):
            vs = [(c, tm.cx(v)) for c, v in rs]
            return Cx(self._merge([(c, v.re) for c, v in vs]), self._merge([(c, v.im) for c, v in vs]))
        if any(isinstance(v, (bool, F)) for _, v in rs):
            return tm.Or(*[tm.And(*(list(c) + [v])) for c, v in rs])
        return self._merge(rs)

    @staticmethod
    def _merge(rs):
        r = tm.t(rs[-1][1])
        for c, v in reversed(rs[:-1]):
            r = tm.ite(tm.And(*c), v, r)
        return r

    # ---------------------------------------------------------------- obligations
    def prove(self, name, goal, detail=None):
        if isinstance(goal, (list, tuple)):
            for i, g in enumerate(goal):
                self.prove('%s.%d' % (name, i), g, detail)
            return
        if isinstance(goal, F) and goal.k == 'and':
            ok = True
            for g in goal.a:
                self._prove1(name, g, detail)
            return
        self._prove1(name, goal, detail)

    def _prove1(self, name, goal, detail):
        if time.time() > self.deadline:
            raise Budget('time limit')
        full = '%s/%s' % (self.cur, name)
        pc = list(self.pc)
        extra = self.extensionality(pc, goal)
        st, be, model = self.solver.prove(pc + extra, goal)
        o = Obligation(full, st, be, detail=None if st == 'proved' else repr(goal)[:2000], model=None,
                       path=None if st == 'proved' else [repr(f)[:300] for f in pc][-40:])
        if st == 'refuted':
            o.model = self.read_model(model)
            o.abstract = None
        self.obligations.append(o)
        if st != 'proved':
            self.failures += 1
            if self.failures >= 40:
                raise Enough('%d obligations failed' % self.failures)
            self.assume(goal)

    def lemma(self, name, goal):
        """prove a fact and keep it for the rest of the path"""
        self.prove('lemma.' + name, goal)
        self.assume(goal)

    def read_model(self, model):
        out = {}
        try:
            for d in model.decls():
                if d.arity() == 0:
                    out[d.name()] = str(model[d])
        except Exception:
            pass
        return out

    _ext_depth = 0

    def extensionality(self, pc, goal):
        """functional atoms (sums, transforms) with provably equal bodies are equal"""
        if goal is True or goal is False or self._ext_depth > 1:
            return []
        ats = [a for a in tm.atoms_of(goal) if a.kind == 'fnl']
        if len(ats) < 2:
            return []
        self._ext_depth += 1
        out = []
        try:
            for i in range(len(ats)):
                for j in range(i + 1, len(ats)):
                    a, b = ats[i], ats[j]
                    if a.name != b.name or len(a.args[0]) != len(b.args[0]) or len(a.args[1]) != len(b.args[1]):
                        continue
                    ok = True
                    for x, y in zip(a.args[0], b.args[0]):
                        if self.solver.prove(pc, tm.eq(x, y))[0] != 'proved':
                            ok = False
                            break
                    if not ok:
                        continue
                    k = tm.var('ext!k%d' % self._ext_depth, 'Int')
                    rng = [tm.le(0, k)]
                    if a.args[0]:
                        rng.append(tm.lt(k, a.args[0][-1]))   # last parameter is the extent
                    for x, y in zip(tm.open_fnl(a, k), tm.open_fnl(b, k)):
                        g = tm.eq(x, y)
                        e2 = self.extensionality(pc + rng, g)
                        if self.solver.prove(pc + rng + e2, g)[0] != 'proved':
                            ok = False
                            break
                    if ok:
                        out.append(tm.eq(tm.of_atom(a), tm.of_atom(b)))
        finally:
            self._ext_depth -= 1
        return out

    def instantiate(self, *idx):
        """use the universally quantified facts left by search loops at the given indices"""
        for lo, hi, fn in self.ghost.get('foralls', []):
            for i in idx:
                if self.branch(tm.And(tm.le(lo, i), tm.lt(i, hi))):
                    self.assume(fn(i))

    def feasible(self):
        return self.solver.feasible(self.pc, True)

    # ---------------------------------------------------------------- heap
    def hget(self, obj):
        return self.heap[obj.heapid]

    def hset(self, obj, state, info=None):
        if self.write_log is not None:
            self.write_log.append((obj, info))
        self.heap[obj.heapid] = state

    def alloc(self, obj, state):
        obj.heapid = self.fresh('h')
        if self.lazy_alloc:
            self.heap.base[obj.heapid] = state
        else:
            self.heap[obj.heapid] = state
        if self.alloc_log is not None:
            self.alloc_log.add(obj.heapid)
        return obj

    def lazily(self, obj, k):
        c = obj.lcache
        if k in c:
            return c[k]
        self.lazy_alloc += 1
        try:
            v = obj.lazy(k)
        finally:
            self.lazy_alloc -= 1
        c[k] = v
        return v


# -------------------------------------------------------------------- arrays
class Node:
    """persistent contents of an array: either initial function or a write on top of an older node"""
    __slots__ = ('prev', 'region', 'fn')

    def __init__(self, prev, region, fn):
        self.prev, self.region, self.fn = prev, region, fn


def node_get(E, node, idx):
    while True:
        if node.prev is None:
            return node.fn(idx)
        conds = []
        for r, i in zip(node.region, idx):
            if r[0] == 'pt':
                conds.append(tm.eq(i, r[1]))
            elif r[0] == 'rng':
                conds.append(tm.le(r[1], i))
                conds.append(tm.lt(i, r[2]))
        if E.branch(tm.And(*conds)):
            return node.fn(idx)
        node = node.prev


class Arr:
    """symbolic ndarray.  root is None for an owner; views refer to their owner by an index map:
    per owner dimension ('pt', e) or ('off', view_dim, offset, step)"""

    def __init__(self, E, shape, dtype, init=None, root=None, vmap=None, matrix=False):
        self.E = E
        self.shape = tuple(shape)
        self.dtype = dtype
        self.root = root
        self.vmap = vmap
        self.matrix = matrix
        if root is None:
            E.alloc(self, Node(None, None, init))

    @property
    def ndim(self):
        return len(self.shape)

    def owner(self):
        return self.root if self.root is not None else self

    def omap(self, idx):
        if self.root is None:
            return list(idx)
        out = []
        for m in self.vmap:
            if m[0] == 'pt':
                out.append(m[1])
            else:
                i = idx[m[1]]
                out.append(tm.add(m[2], i) if m[3] == 1 else tm.sub(m[2], i))
        return out

    def freeze(self):
        """pure function idx -> value for the current contents"""
        E = self.E
        o = self.owner()
        node = E.heap[o.heapid]
        if E.read_log is not None:
            if self.root is None:
                E.read_log.append((o, ('arr', [None] * self.ndim)))
            else:
                E.read_log.append((o, ('arr', [m[1] if m[0] == 'pt' else None for m in self.vmap])))
        return lambda idx: node_get(E, node, self.omap(idx))

    def get(self, idx):
        E = self.E
        o = self.owner()
        oi = self.omap(list(idx))
        if E.read_log is not None:
            E.read_log.append((o, ('arr', oi)))
        return node_get(E, E.heap[o.heapid], oi)

    def write(self, fn):
        """overwrite the whole (view of the) array with fn(view idx)"""
        E = self.E
        o = self.owner()
        if self.root is None:
            region = [('rng', 0, d) for d in self.shape]
            inv = None
        else:
            region = []
            for m in self.vmap:
                if m[0] == 'pt':
                    region.append(('pt', m[1]))
                elif m[3] == 1:
                    region.append(('rng', m[2], tm.add(m[2], self.shape[m[1]])))
                else:
                    region.append(('rng', tm.add(tm.sub(m[2], self.shape[m[1]]), 1), tm.add(m[2], 1)))

        def g(oidx, self=self, fn=fn):
            if self.root is None:
                return fn(oidx)
            v = [0] * len(self.shape)
            for m, i in zip(self.vmap, oidx):
                if m[0] == 'off':
                    v[m[1]] = tm.sub(i, m[2]) if m[3] == 1 else tm.sub(m[2], i)
            return fn(v)
        E.hset(o, Node(E.heap[o.heapid], region, g), ('arr', region))

    def copy(self):
        return Arr(self.E, self.shape, self.dtype, self.freeze(), matrix=self.matrix)

    def __repr__(self):
        return 'Arr%r:%s' % (self.shape, self.dtype)


class SList:
    """list: state is ('c', tuple) or ('s', length, fn)"""

    def __init__(self, E, items=None, length=None, fn=None, name=None):
        self.E = E
        self.name = name
        if items is not None:
            E.alloc(self, ('c', tuple(items)))
        else:
            E.alloc(self, ('s', length, fn))

    @property
    def st(self):
        if self.E.read_log is not None:
            self.E.read_log.append((self, None))
        return self.E.heap[self.heapid]

    def length(self):
        s = self.st
        return len(s[1]) if s[0] == 'c' else s[1]

    def get(self, i):
        """i already normalised to 0 <= i < len"""
        s = self.st
        if s[0] == 's':
            return s[2](i)
        c = tm.as_const(i)
        if c is not None:
            return s[1][int(c)]
        for k, v in enumerate(s[1][:-1]):
            if self.E.branch(tm.eq(i, k)):
                return v
        return s[1][-1]

    def append(self, v):
        s = self.E.heap[self.heapid]
        if s[0] == 'c':
            self.E.hset(self, ('c', s[1] + (v,)), ('append', v))
        else:
            n, fn, E = s[1], s[2], self.E

            def g(i):
                if E.branch(tm.eq(i, n)):
                    return v
                return fn(i)
            E.hset(self, ('s', tm.add(n, 1), g), ('append', v))

    def pop0(self):
        s = self.E.heap[self.heapid]
        v = self.get(0)
        if s[0] == 'c':
            self.E.hset(self, ('c', s[1][1:]), ('pop', 0))
        else:
            n, fn = s[1], s[2]
            self.E.hset(self, ('s', tm.sub(n, 1), lambda i: fn(tm.add(i, 1))), ('pop', 0))
        return v

    def setitem(self, i, v):
        s = self.E.heap[self.heapid]
        E = self.E
        if s[0] == 'c':
            c = tm.as_const(i)
            if c is None:
                raise Unsupported('list store at symbolic index')
            l = list(s[1])
            l[int(c)] = v
            E.hset(self, ('c', tuple(l)), ('set', i))
        else:
            fn = s[2]

            def g(j):
                if E.branch(tm.eq(j, i)):
                    return v
                return fn(j)
            E.hset(self, ('s', s[1], g), ('set', i))

    def slice(self, lo, hi):
        s = self.st
        E = self.E
        if s[0] == 'c' and tm.as_const(lo) is not None and tm.as_const(hi) is not None:
            return SList(E, items=s[1][int(tm.as_const(lo)):int(tm.as_const(hi))])
        src = s
        if s[0] == 'c':
            items = s[1]

            def fn(i):
                for k, v in enumerate(items[:-1]):
                    if E.branch(tm.eq(i, k)):
                        return v
                return items[-1]
        else:
            fn = s[2]
        return SList(E, length=tm.sub(hi, lo), fn=lambda i: fn(tm.add(i, lo)))

    def __repr__(self):
        return 'SList(%s)' % self.name


class SDict:
    """dict with concrete keys; `lazy(key)` supplies values of keys that are present in the initial state
    without having been written (None result: absent)"""

    def __init__(self, E, items=None, lazy=None, name=None):
        self.E = E
        self.lazy = lazy
        self.lcache = {}
        self.name = name
        E.alloc(self, dict(items or {}))

    MISSING = object()

    def get(self, k):
        d = self.E.heap[self.heapid]
        if self.E.read_log is not None:
            self.E.read_log.append((self, k))
        if isinstance(d, tuple):
            return d[0](tm.const(tm.strcode(k)))
        if k in d:
            v = d[k]
            if isinstance(v, Deferred):
                v = v.force()
                d = dict(self.E.heap[self.heapid])
                d[k] = v
                self.E.heap[self.heapid] = d
            return v
        if self.lazy is not None:
            return self.E.lazily(self, k)
        return SDict.MISSING

    def set(self, k, v):
        st = self.E.heap[self.heapid]
        if isinstance(st, tuple):
            c, f, E = tm.const(tm.strcode(k)), st[0], self.E
            E.hset(self, (lambda x: v if E.branch(tm.eq(x, c)) else f(x), None), ('map', c))
            return
        d = dict(self.E.heap[self.heapid])
        d[k] = v
        self.E.hset(self, d, ('key', k))

    def delete(self, k):
        if isinstance(self.E.heap[self.heapid], tuple):
            return self.set(k, SDict.MISSING)
        d = dict(self.E.heap[self.heapid])
        d[k] = SDict.MISSING
        if self.lazy is None:
            del d[k]
        self.E.hset(self, d, ('key', k))

    def has(self, k):
        return self.get(k) is not SDict.MISSING

    def keys(self):
        if self.lazy is not None or isinstance(self.E.heap[self.heapid], tuple):
            raise Unsupported('iteration over lazily known dict')
        return [k for k, v in self.E.heap[self.heapid].items() if v is not SDict.MISSING]


class SObj:
    """instance of a real class with symbolic contents"""

    def __init__(self, E, cls, name=None, fields=None, lazy=None, ident=None):
        self.E = E
        self.cls = cls
        self.name = name
        self.lcache = {}
        self.lazy = lazy          # lazy(attr) -> value or SDict.MISSING
        self.ident = ident        # (family, index): objects of one family are equal iff indices are
        E.alloc(self, dict(fields or {}))

    def get(self, k):
        d = self.E.heap[self.heapid]
        if self.E.read_log is not None:
            self.E.read_log.append((self, k))
        if k in d:
            v = d[k]
            if isinstance(v, Deferred):
                v = v.force()
                d = dict(self.E.heap[self.heapid])
                d[k] = v
                self.E.heap[self.heapid] = d
            return v
        if self.lazy is not None:
            return self.E.lazily(self, k)
        return SDict.MISSING

    def set(self, k, v):
        d = dict(self.E.heap[self.heapid])
        d[k] = v
        self.E.hset(self, d, ('attr', k))

    def __repr__(self):
        return '<%s %s>' % (self.cls.__name__ if self.cls else 'obj', self.name)


class Opaque:
    """a value only compared by identity / passed around"""

    def __init__(self, name, sort=None):
        self.name = name

    def __repr__(self):
        return 'Opaque(%s)' % self.name
