"""Upgrade of a configuration: pointwise in an arbitrary parameter key X, over an arbitrary change log."""
from .base import *
from .c24 import setup, names, cfg, call, io, footprint
from pyvc.ext import Bag, SMap, Ext, count_in, keycode
from pyvc.fs import Path, same, WFile
from pyvc.interp import LoopSpec, Native
from dedop.ui.workspace_manager import WorkspaceManager
import copy
import json
import pkgutil
import sys

X = Str('X')
META = '__metainf__'


# ---- which local variables hold the keys added/removed so far: observed by running the real function once
_roles = None


def roles():
    """{(code object, local name): 'added' | 'removed'}, from a run with one added key A and one removed key B"""
    global _roles
    if _roles is not None:
        return _roles
    seen = {}

    def look(fr):
        for n, v in fr.f_locals.items():
            if type(v) in (list, set):
                try:
                    seen.setdefault((fr.f_code, n), []).append((type(v), tuple(sorted(v))))
                except TypeError:
                    pass

    def tr(fr, ev, arg):
        if 'workspace_manager' not in fr.f_code.co_filename:
            return None
        look(fr)
        return tr
    d = {META: {'version': 5, 'changelog': [
        {'version': 1, 'parameters': [['A', '-', '']]}, {'version': 2, 'parameters': []},
        {'version': 3, 'parameters': [['B', '+', ''], ['A', '+', '']]}, {'version': 4, 'parameters': [['B', '-', '']]}]},
        'A': 1}
    old = sys.gettrace()
    sys.settrace(tr)
    try:
        WorkspaceManager._do_upgrade_config({'B': 2}, d)
    except Exception:
        pass
    finally:
        sys.settrace(old)
    _roles = {}
    for k, vs in seen.items():
        # through the first two changes, then the third: added {}, {}, {B}, {A, B}, {A}; removed {}, {A}, ..., {B}
        vals = [v for _, v in vs] or [None]
        if vals[-1] == ('A',) and () in vals:
            _roles[k] = 'added'
        if vals[-1] == ('B',) and () in vals:
            _roles[k] = 'removed'
    return _roles


class Frozen(SMap):
    """the shipped defaults: any change is a violation"""

    def put(self, k, v):
        self.E.prove('defaults-unchanged', False)

    def restore(self, f, enum=None):
        self.E.prove('defaults-unchanged', False)


class Dumped(Ext):
    types = (str,)

    def __init__(self, m, look):
        self.m, self.look = m, look


def world(E, I, user=None):
    """-> (current map, default map, facts)"""
    n = tm.var('changes', 'Int')
    E.assume(tm.le(0, n))
    p = lambda c: tm.app('parameters', 'Int', tm.t(c))
    cv = lambda c: tm.app('change.version', 'Int', tm.t(c))
    K = lambda c, i: Str('key', tm.app('change.key', 'Int', tm.t(c), tm.t(i)))
    O = lambda c, i: Str('op', tm.app('change.op', 'Int', tm.t(c), tm.t(i)))
    st = lambda c, i: tm.app('state', 'Int', tm.t(c), tm.t(i))        # of X: 0 untouched, 1 added/changed, 2 removed
    E.assume([tm.Not(tm.streq(X, META)), tm.eq(st(0, 0), 0)])
    cver = tm.var('current.version', 'Int')
    dver = tm.var('default.version', 'Int')
    meta_there = E.choice('current-has-metainf')
    ver_there = meta_there and E.choice('current-has-version')
    if not ver_there:
        E.assume(tm.eq(cver, -1))           # an undated file is older than every version
        E.assume(tm.le(0, dver))

    def pstep(c, i):
        """definition of the state after parameter i of change c"""
        s, t = st(c, i), st(c, tm.add(i, 1))
        if E.branch(tm.streq(K(c, i), X)):
            if E.branch(tm.Or(tm.streq(O(c, i), '*'), tm.streq(O(c, i), '+'))):
                E.assume(tm.eq(t, 1))
            elif E.branch(tm.streq(O(c, i), '-')):
                E.assume(tm.eq(t, 2))
            else:
                E.assume(tm.eq(t, s))
        else:
            E.assume(tm.eq(t, s))

    def cstep(c):
        E.assume(tm.le(0, p(c)))
        if E.branch(tm.lt(cver, cv(c))):
            E.assume(tm.eq(st(tm.add(c, 1), 0), st(c, p(c))))
        else:
            E.assume(tm.eq(st(tm.add(c, 1), 0), st(c, 0)))

    dhas = lambda x: tm.boolvar('default.has', x)
    dval = lambda x: Opaque('default', tm.app('default.value', 'Int', x))
    uhas = lambda x: tm.boolvar('user.has', x)
    uval = lambda x: Opaque('user', tm.app('user.value', 'Int', x))
    # precondition on the shipped data: keys that end up added have a default definition
    E.assume(tm.Or(tm.ne(st(n, 0), 1), dhas(X.code)))

    # ---- loop contracts
    def find(L, role):
        r = roles()
        out = [nm for nm in L.loc if r.get((L.frame.fn.__code__, nm)) == role and isinstance(L.loc[nm], (SList, Bag, set))]
        if len(out) != 1:
            raise Unsupported('container of %s keys' % role)
        return out[0]

    def counts(L, s):
        for role, code in (('added', 1), ('removed', 2)):
            nm = find(L, role)
            old = L.loc[nm]
            other = E.fresh(nm)

            def cnt(x, other=other, code=code, s=s):
                if E.branch(tm.eq(x, X.code)):
                    return 1 if E.branch(tm.eq(s, code)) else 0
                c = tm.app(other, 'Int', x)
                E.assume([tm.le(0, c), tm.le(c, 1)])
                return c
            if isinstance(old, Bag):
                E.hset(old, (cnt, False), ('bag', None))
            else:
                kd = set if isinstance(old, set) else list
                L.loc[nm] = Bag(E, X, cnt, nm, kind=kd, spec=after(role), facts=known(role))

    def holds(L, s):
        return [('key-' + role, tm.eq(count_in(I, L.loc[find(L, role)], X), 1 if E.branch(tm.eq(s, code)) else 0))
                for role, code in (('added', 1), ('removed', 2))]

    def known(role):
        def facts(c):
            E.assume(tm.Not(tm.eq(c, tm.const(tm.strcode(META)))))     # the change log does not list its own entry
            if role == 'added':
                E.assume(dhas(c))
        return facts

    def after(role):
        """loops over the keys collected: X is treated when it is visited, nothing else of X changes"""
        def make(bag):
            def want(L, orig):
                done = bag.present() and E.branch(tm.lt(bag.pos(), L.k))
                if not done:
                    return orig
                return SDict.MISSING if role == 'removed' else dval(X.code)

            def entry(L):
                L.orig = cur.look(X)
                L.metav = cur.look(META)

            def havoc(L):
                w = want(L, L.orig)
                touched = E.fresh('touched')

                def look(x):
                    if E.branch(tm.eq(x, X.code)):
                        return w
                    if E.branch(tm.eq(x, tm.const(tm.strcode(META)))):
                        return L.metav
                    if E.branch(tm.boolvar(touched, x)):
                        return Opaque('other')
                    return SDict.MISSING
                cur.restore(look)

            def inv(L):
                return [('parameter', sameval(cur.look(X), want(L, L.orig))),
                        ('other', sameval(cur.look(META), L.metav))]
            return LoopSpec(havoc, inv, assume=lambda L: [], entry=entry)
        return make

    def params(c):
        def havoc(L):
            counts(L, st(c, L.k))

        def inv(L):
            return holds(L, st(c, L.k))

        def item(i):
            pstep(c, i)
            return SList(E, items=[K(c, i), O(c, i), Opaque('comment')])
        l = SList(E, length=p(c), fn=item)
        l.spec = LoopSpec(havoc, inv, assume=lambda L: [])
        return l

    def changes():
        def item(c):
            cstep(c)
            E.lemma('range', tm.le(0, p(c)))
            return SDict(E, {'version': cv(c), 'parameters': params(c), 'comment': Opaque('comment')})
        l = SList(E, length=n, fn=item)
        l.spec = LoopSpec(lambda L: counts(L, st(L.k, 0)), lambda L: holds(L, st(L.k, 0)), assume=lambda L: [])
        return l

    lits = lambda d: lambda x: next((v() for k, v in d.items() if E.branch(tm.eq(x, tm.const(tm.strcode(k))))), None)
    log = changes()
    dmeta = Frozen(E, lambda x: lits({'version': lambda: dver, 'changelog': lambda: log,
                                      'description': lambda: Opaque('description')})(x), name='default.meta')

    def dlook(x):
        if E.branch(tm.eq(x, tm.const(tm.strcode(META)))):
            return dmeta
        return dval(x) if E.branch(dhas(x)) else SDict.MISSING
    default = Frozen(E, dlook, name='defaults')
    umeta = SMap(E, lambda x: cver if ver_there and E.branch(tm.eq(x, tm.const(tm.strcode('version')))) else
                 SDict.MISSING, name='user.meta')

    def ulook(x):
        if E.branch(tm.eq(x, tm.const(tm.strcode(META)))):
            return umeta if meta_there else SDict.MISSING
        return uval(x) if E.branch(uhas(x)) else SDict.MISSING
    un = tm.var('user.n', 'Int')
    E.assume(tm.le(0, un))
    cur = SMap(E, ulook, (un, lambda k: Str('user.key', tm.app('user.key', 'Int', tm.t(k)))), name='user')

    def check(look, same_as_before):
        """the resulting parameters, and the version"""
        m, v = look(keycode(META)), look(X.code)
        want0 = uval(X.code) if E.branch(uhas(X.code)) else SDict.MISSING
        if same_as_before:
            E.prove('unchanged', sameval(v, want0))
            E.prove('unchanged-version', m is umeta if meta_there else m is SDict.MISSING)
            return
        if E.branch(tm.eq(st(n, 0), 1)):
            E.prove('added-or-changed-has-default', sameval(v, dval(X.code)))
        elif E.branch(tm.eq(st(n, 0), 2)):
            E.prove('removed-is-gone', v is SDict.MISSING)
        else:
            E.prove('user-value-kept', sameval(v, want0))
        E.prove('current-format', isinstance(m, SMap))
        if isinstance(m, SMap):
            for k, w in (('version', dver), ('changelog', log)):
                g = m.look(k)
                E.prove('current-' + k, g is w or isinstance(g, T) and isinstance(w, T) and tm.eq(g, w))

    def cp(I, a, k):
        if isinstance(a[0], (Frozen, SMap)):
            return SMap(E, *a[0].st)
        if isinstance(a[0], Opaque):
            return a[0]
        raise Unsupported("copy")
    E.contracts[copy.deepcopy] = cp
    E.contracts[copy.copy] = cp
    uptodate = lambda: E.branch(tm.le(dver, cver))
    return cur, default, check, uptodate, (cver, dver)


class Opaque(Opaque):
    def __init__(self, name, code=None):
        super().__init__(name)
        self.code = code


def sameval(a, b):
    if a is b:
        return True
    if isinstance(a, Opaque) and isinstance(b, Opaque) and a.code is not None and b.code is not None:
        return a.name == b.name and tm.eq(a.code, b.code)
    return False


@contract('C23', 'do-upgrade')
def upgrade(E, I):
    cur, default, check, uptodate, _ = world(E, I)
    e, r = raises(E, I, WorkspaceManager._do_upgrade_config, cur, default)
    E.prove('no-error', e is None)
    if e is not None:
        return
    if not isinstance(r, SMap):
        raise Unsupported('result %r' % (r,))
    check(r.look, uptodate())


# ---- the file operations around it
def files(E, I, fs, default, docs):
    """assumed contracts: json round trip, package data.  docs: file path -> map"""
    def load(I, a, k):
        f = a[0]
        if not isinstance(f, WFile):
            raise Unsupported('json.load of %r' % (f,))
        f.attr(I, 'read').f()
        return docs(f.path)

    def dumps(I, a, k):
        m = a[0]
        if not isinstance(m, SMap) or set(k) - {'indent', 'separators', 'sort_keys', 'ensure_ascii'}:
            raise Unsupported('json.dumps')
        return Dumped(m, m.snapshot())

    def dump(I, a, k):
        return I.call(I.getattr(a[1], 'write'), (dumps(I, a[:1], k),))

    def data(I, a, k):
        if a[0] != 'dedop.ui.data.config':
            raise Unsupported('package %r' % (a[0],))
        return Data(a[1])

    def loads(I, a, k):
        t = a[0]
        if isinstance(t, Data):
            return default(t.name)
        raise Unsupported('json.loads of %r' % (t,))
    def srt(I, a, k):
        if isinstance(a[0], (SList, SMap)) and (isinstance(a[0], SMap) or a[0].st[0] == 's'):
            return Opaque('sorted keys')
        raise Unsupported("sorted")
    E.contracts[sorted] = srt
    E.contracts.update({json.load: load, json.loads: loads, json.dumps: dumps, json.dump: dump, pkgutil.get_data: data})


class Data(Ext):
    types = (bytes, str)

    def __init__(self, name):
        self.name = name

    def attr(self, I, name):
        if name == 'decode':
            return Native(lambda *a, **k: self, name)
        raise Unsupported('bytes.%s' % name)


def scene(E, I, key):
    """a configuration file of an existing configuration, and the shipped defaults of the same kind"""
    fs, m = setup(E, I, faults=False)
    (w, ok), (c, okc) = names(E, 'w', 'c')
    E.assume(ok and okc)
    p = cfg(fs, w, c).child(key + '.json')
    E.assume([fs.exists(p), not fs.isdir(p)])
    cur, default, check, uptodate, vers = world(E, I)

    def docs(q):
        E.prove('reads-the-named-file', same(E, q, p))
        E.ghost['read'] = True
        return cur

    def dflt(name):
        E.prove('defaults-of-the-same-kind', name == key + '.json')
        return default
    files(E, I, fs, dflt, docs)
    return fs, m, w, c, p, check, uptodate, vers


for KEY in ('CHD', 'CNF', 'CST'):
    def make(key):
        @contract('C23', 'upgrade-file-' + key)
        def upg(E, I):
            fs, m, w, c, p, check, uptodate, (cver, dver) = scene(E, I, key)
            e, r = call(E, I, fs, m, 'upgrade_config', w, c, key)
            E.prove('no-error', e is None)
            if e is not None:
                return
            footprint(E, fs, p)
            ws_ = [x for x in fs.log if x[0] == 'write']
            current = uptodate()
            if not ws_:
                E.prove('written', current)
            else:
                d = ws_[-1][2]
                E.prove('complete-file', isinstance(d, Dumped))
                if isinstance(d, Dumped):
                    check(d.look, current)
            E.prove('reported-version', tm.eq(r, cver if current else dver))

        @contract('C23', 'version-' + key)
        def version(E, I):
            fs, m, w, c, p, check, uptodate, (cver, dver) = scene(E, I, key)
            e, r = call(E, I, fs, m, 'get_config_version', w, c, key)
            if e is None:
                E.prove('version', tm.eq(r, cver))
            e, r = call(E, I, fs, m, 'get_default_config_version', key)
            E.prove('no-error', e is None)
            if e is None:
                E.prove('default-version', tm.eq(r, dver))
            E.prove('no-effect', len(fs.log) == 0)
    make(KEY)


@contract('C23', 'upgrade-all')
def upgall(E, I):
    """each of the three files is upgraded, once"""
    fs, m = setup(E, I, faults=False)
    (w, ok), (c, okc) = names(E, 'w', 'c')
    seen = []

    def one(I, a, k):
        seen.append(a[1:])
        return tm.var('version.%s' % a[3], 'Int')
    E.contracts[WorkspaceManager.upgrade_config] = one
    e, r = call(E, I, fs, m, 'upgrade_all_config', w, c)
    E.prove('no-error', e is None)
    E.prove('each-file-once', sorted(x[2] for x in seen) == ['CHD', 'CNF', 'CST'])
    for x in seen:
        E.prove('named-configuration', tm.And(tm.streq(x[0], w), tm.streq(x[1], c)))
    r = I.iterate(r)
    for i, key in enumerate(('CHD', 'CNF', 'CST')):
        E.prove('versions', tm.eq(r.item(i), tm.var('version.%s' % key, 'Int')))


@contract('C23', 'write-config-file')
def wcf(E, I):
    fs, m = setup(E, I, faults=False)
    (w, ok), (c, okc) = names(E, 'w', 'c')
    E.assume(ok and okc)
    p = cfg(fs, w, c).child('CNF.json')
    E.assume([fs.exists(p), not fs.isdir(p)])
    t = Str('configuration')
    e, r = call(E, I, fs, m, 'write_config_file', w, c, 'CNF', t)
    E.prove('no-error', e is None)
    footprint(E, fs, p)
    ws_ = [x for x in fs.log if x[0] == 'write']
    E.prove('content', len(ws_) > 0 and ws_[-1][2] is t)


@contract('C23', 'shipped-defaults')
def shipped(E, I):
    """obligations on the shipped files themselves: the preconditions used above, and the format the reader needs"""
    from dedop.conf import CharacterisationFile, ConfigurationFile, ConstantsFile
    for key, cls in (('CHD', CharacterisationFile), ('CNF', ConfigurationFile), ('CST', ConstantsFile)):
        d = json.loads(pkgutil.get_data('dedop.ui.data.config', key + '.json').decode('utf-8'))
        mi = d[META]
        E.prove('version-is-readable:' + key, mi['version'] == cls._fileversion)
        state = {}
        for ch in mi['changelog']:
            E.prove('log-not-newer:' + key, ch['version'] <= mi['version'])
            for prm in ch['parameters']:
                E.prove('log-entry:' + key, len(prm) >= 2 and prm[1] in '*+-' and prm[0] != META)
                state[prm[0]] = prm[1]
        for k, op in state.items():
            E.prove('log-matches-defaults:%s:%s' % (key, k), (k in d) == (op != '-'))
