"""Automatic summaries of for-loops of symbolic length.

Everything a loop writes has to fall in one of these classes, otherwise the loop is Unsupported:
 * array cells at an index that moves with the iteration (each iteration owns its cells)
 * list appends (exactly one per iteration)
 * additive reductions of scalars, attributes and arrays (result: entry value + SUM of the increments)
 * conditional updates: a group of variables that an iteration either leaves alone or overwrites with values
   that do not depend on the group ("last-update rule": the final value is the entry value, or that of the
   last updating iteration; with an automatic induction that turns `if better: best = this` into a universal
   fact about all iterations)
The loop body is re-executed (symbolically) for the iteration a later read asks for."""
import ast
from fractions import Fraction
from . import terms as tm
from .terms import T, F, Cx, Str
from .engine import (Engine, Arr, SList, SDict, SObj, Opaque, Unsupported, PyRaise, PathEnd, Poison, Node,
                     node_get, Deferred)


class NotAdditive(Exception):
    def __init__(self, key):
        self.key = key


class Restart(Exception):
    pass


def same(a, b):
    if a is b:
        return True
    if isinstance(a, (T, int, Fraction)) and isinstance(b, (T, int, Fraction)) and \
            not isinstance(a, bool) and not isinstance(b, bool):
        return tm.t(a) == tm.t(b)
    if isinstance(a, (F, bool)) and isinstance(b, (F, bool)):
        return a == b
    if isinstance(a, Cx) and isinstance(b, Cx):
        return a.re == b.re and a.im == b.im
    try:
        return type(a) is type(b) and not isinstance(a, (SObj, SList, SDict, Arr)) and bool(a == b)
    except Exception:
        return False


class Noise(Deferred):
    """state of a conditionally updated variable at an arbitrary iteration: the entry value or some update"""

    def __init__(self, L, key):
        self.L, self.key = L, key
        self.val = self

    def force(self):
        if self.val is self:
            L, E = self.L, self.L.E
            L.noise_read.add(self.key)
            c0 = L.c0(self.key)
            kind = L.kinds.get(self.key, c0)
            if same(kind, c0) and (c0 is None or isinstance(c0, (bool, str))):
                self.val = c0
            elif E.branch(tm.boolvar(E.fresh('carried.first'))):
                self.val = c0
            else:
                self.val = L.fresh_like(kind, self.key)
        return self.val


class GroupRef(Deferred):
    def __init__(self, L, group, key):
        self.L, self.group, self.key = L, group, key

    def force(self):
        return self.L.force_group(self.group)[self.key]


class LoopSummary:
    def __init__(self, I, s, fr, it, n):
        from .interp import assigned_names
        self.I, self.E, self.s, self.fr, self.it, self.n = I, I.E, s, fr, it, n
        self.targets = assigned_names([ast.Assign([s.target], ast.Constant(0))])
        self.assigned = assigned_names(s.body) | self.targets
        self.entry_loc = dict(fr.loc)
        self.entry_heap = self.E.heap.fork()
        self.rloc, self.rattr, self.rarr = set(), set(), set()
        self.uloc, self.uattr = set(), set()
        self.xarr = {}          # arrays read across iterations: oid -> (array, dimension, offset)
        self.depth = 0
        self.cur_u = {}
        self.kinds = {}
        self.noise_read = set()
        self.what = '%s.loop%s' % (fr.qual, fr.loops.get(s) if fr.loops else '?')
        self.k = self.E.fresh_int('it')
        self.katom = list(tm.atoms_of(self.k))[0]
        self.acc = {}
        self.noise_atoms = set()
        self.gid = self.E.fresh('loop')

    # ---- helpers
    def c0(self, key):
        if key[0] == 'loc':
            return self.entry_loc.get(key[1])
        return self.entry_heap[key[1]][key[2]]

    def fresh_like(self, kind, key):
        E = self.E
        if isinstance(kind, (F, bool)):
            v = tm.boolvar(E.fresh('upd'))
        elif isinstance(kind, T) and kind.sort == 'Int' or isinstance(kind, int):
            v = tm.var(E.fresh('upd'), 'Int')
        elif isinstance(kind, (T, Fraction)):
            v = tm.var(E.fresh('upd'), 'Real')
        elif kind is None:
            return None
        else:
            raise Unsupported('%s: carried value %r' % (self.what, key))
        self.noise_atoms |= set(tm.atoms_of(v))
        return v

    def accsym(self, key, v):
        E = self.E
        if key not in self.acc:
            if isinstance(v, T) and v.sort == 'Int' or isinstance(v, int) and not isinstance(v, bool):
                self.acc[key] = tm.var(E.fresh('acc'), 'Int')
            elif isinstance(v, (T, Fraction)):
                self.acc[key] = tm.var(E.fresh('acc'), 'Real')
            else:
                raise NotAdditive(key)
        return self.acc[key]

    PURE = {'abs', 'min', 'max', 'len', 'float', 'int', 'norm', 'sqrt', 'cos', 'sin', 'fabs', 'isclose', 'sum', 'round'}

    def targets_of(self, st):
        """variables a side-effect-free conditional update may write; None if it may do anything else"""
        out = set()
        for nd in ast.walk(st):
            if isinstance(nd, (ast.Assign, ast.AugAssign)):
                for t in (nd.targets if isinstance(nd, ast.Assign) else [nd.target]):
                    for e in (t.elts if isinstance(t, ast.Tuple) else [t]):
                        if isinstance(e, ast.Name):
                            out.add(('loc', e.id))
                        elif isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
                            out.add(('attr', e.attr))
                        else:
                            return None
            elif isinstance(nd, ast.Call):
                f = nd.func
                if not (isinstance(f, ast.Name) and f.id in self.PURE or
                        isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in ('np', 'math')):
                    return None
            elif isinstance(nd, ast.stmt) and not isinstance(nd, (ast.If, ast.Pass)):
                return None
            elif isinstance(nd, (ast.NamedExpr, ast.Await, ast.Yield, ast.YieldFrom, ast.Lambda)):
                return None
        return out

    def sliced(self, want):
        """the loop body without conditional updates of variables other than `want` that nothing else reads"""
        ukeys = set(('loc', n) for n in self.uloc) | set(('attr', a) for _, a in self.uattr)
        want = set(('loc', x[1]) if x[0] == 'loc' else ('attr', x[2]) for x in want)
        body = list(self.s.body)
        skip = {}
        for i, st in enumerate(body):
            if isinstance(st, ast.If):
                t = self.targets_of(st)
                if t is not None and t and t <= ukeys and not (t & want):
                    skip[i] = t
        while True:
            reads = set()
            for i, st in enumerate(body):
                if i in skip:
                    continue
                for nd in ast.walk(st):
                    if isinstance(nd, ast.Name) and isinstance(nd.ctx, ast.Load):
                        reads.add(('loc', nd.id))
                    elif isinstance(nd, ast.Attribute):
                        reads.add(('attr', nd.attr))
                    elif isinstance(nd, ast.Call) and not isinstance(nd.func, ast.Name) and \
                            any(x[0] == 'attr' for t in skip.values() for x in t) and \
                            isinstance(nd.func, ast.Attribute) and isinstance(nd.func.value, ast.Name) and \
                            nd.func.value.id == 'self':
                        return body       # a method might read the attribute
            drop = [i for i, t in skip.items() if t & reads]
            if not drop:
                break
            for i in drop:
                del skip[i]
        return [st for i, st in enumerate(body) if i not in skip]

    def run(self, j, loc, want=None):
        from .interp import Frame, FContinue, FBreak, FReturn
        fr, I = self.fr, self.I
        f2 = Frame(fr.fn, loc, fr.glob, fr.qual, fr.closure, fr.cls)
        f2.loops = fr.loops
        I.assign(self.s.target, self.it.item(j), f2)
        I.frames.append(f2)
        try:
            I.block(self.s.body if want is None else self.sliced(want), f2)
        except FContinue:
            pass
        except (FBreak, FReturn):
            raise Unsupported('%s: break/return in summarised loop' % self.what)
        finally:
            I.frames.pop()
        return f2.loc

    def prep(self, use_acc, ustate=None, j=None):
        """locals (and heap attributes) at the start of an arbitrary iteration, in E.heap"""
        from .interp import CarriedPoison
        E = self.E
        ustate = ustate or {}
        self.cur_u = {}
        loc = dict(self.entry_loc)

        def uval(key):
            v = ustate[key] if key in ustate else Noise(self, key)
            self.cur_u[key] = v
            return v
        for nm in self.assigned:
            if nm in self.rloc:
                loc[nm] = self.accsym(('loc', nm), self.entry_loc.get(nm)) if use_acc else self.entry_loc.get(nm)
            elif nm in self.uloc:
                loc[nm] = uval(('loc', nm))
            elif nm in self.entry_loc and nm not in self.targets:
                loc[nm] = CarriedPoison(nm)
            else:
                loc.pop(nm, None)
        for (oid, at) in self.rattr:
            if use_acc:
                d = dict(E.heap[oid])
                d[at] = self.accsym(('attr', oid, at), d[at])
                E.heap[oid] = d
        for (oid, at) in self.uattr:
            d = dict(E.heap[oid])
            d[at] = uval(('attr', oid, at))
            E.heap[oid] = d
        if use_acc:
            for oid in self.rarr:
                nm = 'accarr%s' % oid
                E.heap[oid] = Node(None, None, lambda idx, nm=nm: tm.app(nm, 'Real', *[tm.t(i) for i in idx]))
        j = self.k if j is None else j
        for oid, (obj, d, c) in self.xarr.items():
            E.heap[oid] = Node(None, None, lambda idx, oid=oid, obj=obj, d=d, c=c: self.earlier(j, oid, obj, d, c, idx))
        return loc

    def earlier(self, j, oid, obj, d, c, idx):
        """element of an array as iteration j finds it: written by an earlier iteration, or as before the loop"""
        E = self.E
        m = tm.sub(idx[d], c)
        if not E.branch(tm.And(tm.le(0, m), tm.lt(m, j))):
            return node_get(E, self.entry_heap[oid], idx)
        if self.depth >= 2:
            nm = '%s.earlier%s' % (self.gid, oid)
            a = [tm.t(j)] + [tm.t(i) for i in idx]
            if obj.dtype == 'complex':
                return Cx(tm.app(nm + '.re', 'Real', *a), tm.app(nm + '.im', 'Real', *a))
            if obj.dtype in ('real', 'int'):
                return tm.app(nm, 'Real' if obj.dtype == 'real' else 'Int', *a)
            raise Unsupported('%s: iteration reads other iterations of %r' % (self.what, obj))
        self.depth += 1
        try:
            h, _ = self.instance(m)
            return node_get(E, h[oid], idx)
        finally:
            self.depth -= 1

    def instance(self, j):
        """heap after iteration j run on its own from the state before the loop"""
        E = self.E
        cache_key = ('inst', self.gid, self.depth)
        cache = dict(E.ghost.get(cache_key, {}))
        if j in cache:
            return cache[j]
        saved = (E.heap, E.write_log, E.read_log, E.alloc_log, self.cur_u)
        E.heap = self.entry_heap.fork()
        E.write_log = E.read_log = E.alloc_log = None
        try:
            loc = self.prep(False, None, j)
            E.assume([tm.le(0, j), tm.lt(j, self.n)])
            wl = E.write_log = []
            self.run(j, loc, ())
            h = E.heap
        finally:
            E.heap, E.write_log, E.read_log, E.alloc_log, self.cur_u = saved
        cache[j] = (h, wl)
        E.ghost[cache_key] = cache
        return h, wl

    def finals(self, loc):
        """after running the body: key -> (updated?, value) for the conditionally updated variables"""
        E = self.E
        out = {}
        for nm in self.uloc:
            out[('loc', nm)] = loc.get(nm)
        for oid, at in self.uattr:
            out[('attr', oid, at)] = E.heap[oid].get(at, SDict.MISSING)
        res = {}
        for key, v in out.items():
            c = self.cur_u[key]
            unch = v is c or (isinstance(c, Noise) and same(v, c.val)) or (not isinstance(c, Noise) and same(v, c))
            if isinstance(v, Deferred) and v is not c:
                v = v.force()
            res[key] = (not unch, v)
        return res

    # ---- main
    def summarise(self):
        from .interp import NeedReduce
        for attempt in range(30):
            try:
                self.acc = {}
                self.noise_read = set()
                return self.attempt()
            except NeedReduce as e:
                kind, key = e.key
                if kind == 'loc':
                    if key in self.rloc or key in self.uloc:
                        raise Unsupported('%s: loop-carried %s' % (self.what, key))
                    self.rloc.add(key)
                elif kind == 'attr':
                    if key in self.rattr or key in self.uattr:
                        raise Unsupported('%s: loop-carried %s' % (self.what, key))
                    self.rattr.add(key)
                else:
                    if key in self.rarr:
                        raise Unsupported('%s: loop-carried array' % self.what)
                    self.rarr.add(key)
            except NotAdditive as e:
                key = e.key
                if key[0] == 'loc' and key[1] in self.rloc:
                    self.rloc.discard(key[1])
                    self.uloc.add(key[1])
                elif key[0] == 'attr' and (key[1], key[2]) in self.rattr:
                    self.rattr.discard((key[1], key[2]))
                    self.uattr.add((key[1], key[2]))
                else:
                    raise Unsupported('%s: loop-carried %r' % (self.what, key))
            except Restart:
                pass
        raise Unsupported(self.what)

    def attempt(self):
        from .interp import NeedReduce
        E, n, k, katom, what = self.E, self.n, self.k, self.katom, self.what

        def analyse():
            E.assume([tm.le(0, k), tm.lt(k, n)])
            saved = (E.write_log, E.read_log, E.alloc_log)
            E.write_log, E.read_log, E.alloc_log = [], [], set()
            try:
                loc = self.prep(True)
                try:
                    loc = self.run(k, loc)
                except PyRaise as e:
                    return ('raise', e)
                res = {}
                for nm in self.rloc:
                    res[('loc', nm)] = loc[nm]
                for oid, at in self.rattr:
                    res[('attr', oid, at)] = E.heap[oid][at]
                fin = self.finals(loc)
                return ('ok', E.write_log, E.read_log, E.alloc_log, res, fin)
            finally:
                E.write_log, E.read_log, E.alloc_log = saved

        results = E.sub(analyse)
        oks = [(pc, r) for pc, r in results if r[0] == 'ok']
        # kinds of the values the conditional updates write
        changed = False
        for pc, r in oks:
            for key, (upd, v) in r[5].items():
                if upd:
                    old = self.kinds.get(key)
                    new = v
                    if isinstance(new, bool):
                        new = True
                    if old is None:
                        self.kinds[key] = new
                        changed = True
                    elif isinstance(new, T) and new.sort == 'Real' and not (isinstance(old, T) and old.sort == 'Real') \
                            and not isinstance(old, Fraction):
                        self.kinds[key] = new
                        changed = True
        if changed and self.noise_read:
            raise Restart()
        for pc, r in results:
            if r[0] == 'raise':
                if E.branch(tm.boolvar(E.fresh('raises'))):
                    E.assume([tm.le(0, k), tm.lt(k, n)])
                    E.assume(list(pc))
                    raise r[1]
        # classify writes
        arrs, attrs, lists = {}, set(), {}
        for pc, r in oks:
            _, wl, rl, al, res, _f = r
            appended = {}
            for obj, info in wl:
                if obj.heapid in al:
                    continue
                if isinstance(obj, Arr):
                    if obj.heapid in self.rarr:
                        continue
                    cand = None
                    for d, rg in enumerate(info[1]):
                        if rg[0] == 'pt':
                            c = tm.sub(rg[1], k)
                            if katom not in tm.atoms_of(c):
                                cand = (d, c)
                                break
                        elif rg[0] == 'rng':
                            c = tm.sub(rg[1], k)
                            if katom not in tm.atoms_of(c) and tm.sub(rg[2], rg[1]) == tm.const(1):
                                cand = (d, c)
                                break
                    if cand is None:
                        raise NeedReduce(('arr', obj.heapid))
                    if obj.heapid in arrs and arrs[obj.heapid][1:] != cand:
                        raise NeedReduce(('arr', obj.heapid))
                    arrs[obj.heapid] = (obj,) + cand
                elif isinstance(obj, (SObj, SDict)):
                    key = (obj.heapid, info[1])
                    if key not in self.rattr and key not in self.uattr:
                        attrs.add(key)
                elif isinstance(obj, SList):
                    if info[0] != 'append':
                        raise Unsupported('%s: list %s in summarised loop' % (what, info[0]))
                    appended[obj.heapid] = appended.get(obj.heapid, 0) + 1
                    lists[obj.heapid] = obj
                else:
                    raise Unsupported('%s: write to %r' % (what, obj))
            r_app = appended
            if any(c != 1 for c in r_app.values()):
                raise Unsupported('%s: irregular appends' % what)
        for pc, r in oks:
            app = set(o.heapid for o, info in r[1] if isinstance(o, SList) and o.heapid not in r[3])
            if app != set(lists):
                raise Unsupported('%s: irregular appends' % what)
        for pc, r in oks:
            _, wl, rl, al, res, _f = r
            for obj, info in rl:
                if obj.heapid in arrs:
                    _o, d, c = arrs[obj.heapid]
                    i = info[1][d]
                    if i is None or tm.sub(i, k) != tm.t(c):
                        if obj.heapid in self.xarr:
                            continue
                        self.xarr[obj.heapid] = arrs[obj.heapid]
                        raise Restart()
                elif isinstance(obj, SList) and obj.heapid in lists:
                    raise Unsupported('%s: loop reads the list it appends to' % what)
        for oid, at in attrs:
            for pc, r in oks:
                if any(o.heapid == oid and key == at for o, key in r[2]):
                    raise NeedReduce(('attr', (oid, at)))
        # reductions
        accatoms = set()
        for v in self.acc.values():
            accatoms |= set(tm.atoms_of(v))

        def nm_acc(a):
            return a in accatoms or (a.kind == 'app' and a.name.startswith('accarr'))

        def noisy(f):
            return any(a in self.noise_atoms or (a.kind == 'app' and a.name.startswith(('carried.first', 'upd#')))
                       for a in tm.atoms_of(f)) or 'carried.first' in repr(f)[:4000]
        self.nm_acc, self.noisy = nm_acc, noisy
        deltas = {}
        for key, sym in self.acc.items():
            parts = []
            for pc, r in oks:
                v = r[4][key]
                if not isinstance(v, (T, int, Fraction)) or isinstance(v, bool):
                    raise NotAdditive(key)
                dlt = tm.sub(v, sym)
                if any(nm_acc(a) for a in tm.atoms_of(dlt)) or any(nm_acc(a) for f in pc for a in tm.atoms_of(f)):
                    raise NotAdditive(key)
                parts.append((pc, dlt))
            deltas[key] = self.merge_parts(parts) if parts else tm.const(0)
        self.oks = oks
        # ---- commit
        new_u = [('loc', nm) for nm in self.assigned
                 if nm in self.entry_loc and nm not in self.targets and nm not in self.rloc and nm not in self.uloc] + \
                [('attr', oid, at) for oid, at in attrs]
        if new_u:
            for key in new_u:
                if key[0] == 'loc':
                    self.uloc.add(key[1])
                else:
                    d = self.entry_heap[key[1]]
                    if isinstance(d, dict) and key[2] in d:
                        self.uattr.add((key[1], key[2]))
            if any(key[0] == 'loc' or (key[1], key[2]) in self.uattr for key in new_u):
                raise Restart()
        groups = self.make_groups(oks)
        for nm in self.assigned:
            key = ('loc', nm)
            if nm in self.rloc:
                tot = self.I.sum_term(n, deltas[key], katom)
                self.fr.loc[nm] = tm.add(self.entry_loc[nm], tot)
            elif key in groups:
                self.fr.loc[nm] = GroupRef(self, groups[key], key)
            elif nm in self.uloc:
                self.fr.loc[nm] = self.entry_loc[nm]
            else:
                self.fr.loc[nm] = Poison('%s after %s' % (nm, what))
        from .interp import _ById
        for oid, at in self.rattr:
            d = dict(E.heap[oid])
            tot = self.I.sum_term(n, deltas[('attr', oid, at)], katom)
            d[at] = tm.add(d[at], tot)
            E.hset(_ById(oid), d, ('attr', at))
        for oid, at in attrs:
            d = dict(E.heap[oid])
            d[at] = Poison('%s after %s' % (at, what))
            E.hset(_ById(oid), d, ('attr', at))
        for oid, at in self.uattr:
            key = ('attr', oid, at)
            if key in groups:
                d = dict(E.heap[oid])
                d[at] = GroupRef(self, groups[key], key)
                E.hset(_ById(oid), d, ('attr', at))
        entry_heap, k = self.entry_heap, self.k
        for oid in self.rarr:
            old = entry_heap[oid]

            def fn(idx, old=old, oid=oid):
                nm = 'accarr%s' % oid
                sym = tm.app(nm, 'Real', *[tm.t(i) for i in idx])

                def one():
                    E.assume([tm.le(0, k), tm.lt(k, n)])
                    saveh = E.heap
                    E.heap = entry_heap.fork()
                    try:
                        loc = self.prep(True)
                        self.run(k, loc)
                        v = node_get(E, E.heap[oid], idx)
                    finally:
                        E.heap = saveh
                    dlt = tm.sub(v, sym)
                    if any(self.nm_acc(a) for a in tm.atoms_of(dlt)):
                        raise Unsupported('%s: not an additive reduction' % what)
                    return dlt
                dl = self.merge_parts(E.sub(one))
                return tm.add(node_get(E, old, idx), self.I.sum_term(n, tm.t(dl), katom))
            E.hset(_ById(oid), Node(None, None, fn), ('arr', [('all',)]))
        instance = self.instance
        for oid, (obj, d, c) in arrs.items():
            region = [('all',)] * len(obj.shape)
            region[d] = ('rng', tm.t(c), tm.add(c, n))

            def fn(idx, oid=oid, d=d, c=c):
                h, _ = instance(tm.sub(idx[d], c))
                return node_get(E, h[oid], idx)
            E.hset(obj, Node(E.heap[oid], region, fn), ('arr', region))
        for oid, obj in lists.items():
            st = E.heap[oid]
            n0 = len(st[1]) if st[0] == 'c' else st[1]

            def old(i, st=st):
                if st[0] == 's':
                    return st[2](i)
                for q, v in enumerate(st[1][:-1]):
                    if E.branch(tm.eq(i, q)):
                        return v
                return st[1][-1]

            def fn(i, oid=oid, n0=n0, old=old):
                if E.branch(tm.lt(i, n0)):
                    return old(i)
                h, wl = instance(tm.sub(i, n0))
                vs = [info[1] for o, info in wl if o.heapid == oid and info[0] == 'append']
                return vs[-1]
            E.hset(obj, ('s', tm.add(n0, n), fn), ('loop-append', None))

    def merge_parts(self, parts):
        """ite-merge of per-path increments; conditions about conditionally updated state are dropped after
        checking that the increments do not depend on them"""
        if not parts:
            raise PathEnd('no path')
        if not any(self.noisy(f) for pc, _ in parts for f in pc):
            return Engine._merge(parts)
        E = self.E
        red = []
        for pc, d in parts:
            if self.noisy(tm.eq(d, 0)) if not isinstance(tm.eq(d, 0), bool) else False:
                raise Unsupported('%s: increment depends on carried state' % self.what)
            rp = tuple(f for f in pc if not self.noisy(f))
            if not any(rp == p and same(d, e) for p, e in red):
                red.append((rp, d))
        for i in range(len(red)):
            for j in range(i + 1, len(red)):
                if not same(red[i][1], red[j][1]) and \
                        E.solver.feasible(E.pc, tm.And(*(list(red[i][0]) + list(red[j][0])))):
                    raise Unsupported('%s: increment depends on carried state' % self.what)
        return Engine._merge(red)

    # ---- conditional updates
    def make_groups(self, oks):
        """variables updated on exactly the same paths form a group; -> key -> group"""
        keys = [('loc', nm) for nm in self.uloc] + [('attr', o, a) for o, a in self.uattr]
        sig = {}
        for key in keys:
            b = tuple(r[5][key][0] for pc, r in oks)
            if any(b):
                sig.setdefault(b, []).append(key)
        out = {}
        for b, ks in sig.items():
            g = {'keys': sorted(ks, key=repr), 'id': self.E.fresh('grp'), 'ind': None}
            for key in ks:
                out[key] = g
        return out

    def body_at(self, g, i, C):
        """run iteration i from the entry heap with the group in state C (None: arbitrary); on the current
        path; -> (updated?, {key: value})"""
        E = self.E
        saved = (E.heap, E.write_log, E.read_log, E.alloc_log)
        E.heap = self.entry_heap.fork()
        E.write_log, E.read_log, E.alloc_log = None, None, None
        try:
            loc = self.prep(True, C, i)
            loc = self.run(i, loc, g['keys'])
            fin = self.finals(loc)
        finally:
            E.heap, E.write_log, E.read_log, E.alloc_log = saved
        upd = [fin[key][0] for key in g['keys']]
        if any(upd) != all(upd):
            # same value written again by one of them: treat as update
            pass
        return any(upd), {key: fin[key][1] for key in g['keys']}

    def noupd(self, g, C):
        E = self.E

        def f(i):
            def one():
                E.assume([tm.le(0, i), tm.lt(i, self.n)])
                try:
                    u, v = self.body_at(g, i, C)
                except PyRaise:
                    return False
                return (not u) or all(same(v[x], C[x]) for x in g['keys'])
            return tm.Or(*[tm.And(*pc) for pc, r in E.sub(one) if r])
        return f

    def inductive(self, g, C0):
        """does `no iteration so far would update the current state` survive an update?"""
        if g['ind'] is not None:
            return g['ind']
        E = self.E
        ok = True

        def check(C):
            j, k = E.fresh_int('ij'), E.fresh_int('ik')
            E.assume([tm.le(0, j), tm.lt(j, k), tm.lt(k, self.n)])
            E.assume(self.noupd(g, C)(j))
            u, v = self.body_at(g, k, C)
            if not u:
                return True
            return E.solver.prove(E.pc, self.noupd(g, v)(j))[0] == 'proved' and \
                E.solver.prove(E.pc, self.noupd(g, v)(k))[0] == 'proved'
        try:
            for C in (C0, {key: self.fresh_like(self.kinds.get(key), key) for key in g['keys']}):
                if not all(r for _, r in E.sub(lambda: check(C))):
                    ok = False
                    break
        except (Unsupported, PyRaise):
            ok = False
        g['ind'] = ok
        return ok

    def stateless(self, g):
        """an update neither depends on nor tests the group's own state"""
        if 'stateless' not in g:
            E = self.E
            j = E.fresh_int('is')
            seen = self.noise_read
            self.noise_read = set()

            def one():
                E.assume([tm.le(0, j), tm.lt(j, self.n)])
                try:
                    self.body_at(g, j, None)
                except PyRaise:
                    pass
                return True
            try:
                E.sub(one)
                g['stateless'] = not (self.noise_read & set(g['keys']))
            except Unsupported:
                g['stateless'] = False
            self.noise_read |= seen
        return g['stateless']

    def force_group(self, g):
        E = self.E
        cache = E.ghost.get(('upd', g['id']))
        if cache is not None:
            return cache
        C0 = {key: self.c0(key) for key in g['keys']}
        n = tm.t(self.n)
        new = []

        def update(i, C):
            E.assume([tm.le(0, i), tm.lt(i, n)])
            u, v = self.body_at(g, i, C)
            if not u:
                raise PathEnd('no update in this iteration')
            for x in v.values():
                if isinstance(x, (T, F)) and any(a in self.noise_atoms for a in tm.atoms_of(x)):
                    raise Unsupported('%s: update depends on carried state' % self.what)
                if isinstance(x, (T, F)) and any(self.nm_acc(a) for a in tm.atoms_of(x)):
                    raise Unsupported('%s: update depends on a reduction' % self.what)
            return v
        wits = []
        if not E.branch(tm.boolvar(E.fresh('updated'))):
            new.append((tm.const(0), n, self.noupd(g, C0)))
            vals = C0
        else:
            w = E.fresh_int('upd.at')
            E.assume([tm.le(0, w), tm.lt(w, n)])
            wits.append(w)
            if self.stateless(g):
                vals = update(w, None)
                new.append((tm.add(w, 1), n, self.noupd(g, vals)))
            else:
                if E.branch(tm.boolvar(E.fresh('upd.first'))):
                    Cb = C0
                    new.append((tm.const(0), w, self.noupd(g, C0)))
                else:
                    w1 = E.fresh_int('upd.before')
                    E.assume([tm.le(0, w1), tm.lt(w1, w)])
                    wits.append(w1)
                    Cb = update(w1, None)
                    new.append((tm.add(w1, 1), w, self.noupd(g, Cb)))
                vals = update(w, Cb)
                new.append((tm.add(w, 1), n, self.noupd(g, vals)))
                if self.inductive(g, C0):
                    new.append((tm.const(0), n, self.noupd(g, vals)))
        # relate to the other groups of the same loop
        mine = ('wits', self.gid)
        ow, of = E.ghost.get(mine, ((), ()))

        def inst(fs, ws):
            for lo, hi, fn in fs:
                for i in ws:
                    if E.branch(tm.And(tm.le(lo, i), tm.lt(i, hi))):
                        E.assume(fn(i))
        inst(new, ow)
        inst(of, wits)
        E.ghost[mine] = (tuple(ow) + tuple(wits), tuple(of) + tuple(new))
        E.ghost['foralls'] = list(E.ghost.get('foralls', [])) + new
        E.ghost[('upd', g['id'])] = vals
        return vals
