"""Workspace operations over an arbitrary file system state."""
from .base import *
from pyvc.fs import FS, Path, WILD, kind, under, same, samec, basename, sep
from pyvc.ext import Recorder, keycode
from pyvc.interp import LoopSpec, CtxMgr, Native
from dedop.ui.workspace_manager import WorkspaceManager
import pkgutil


def setup(E, I, faults=True):
    fs = FS(E, I, faults)
    m = SObj(E, WorkspaceManager, 'manager', fields={'_workspaces_dir': fs.root})
    return fs, m


def names(E, *labels):
    """arbitrary names, with their classification"""
    out = []
    for lb in labels:
        s = Str(lb)
        out.append((s, kind(E, s) == 'plain'))
        E.assume(tm.Not(tm.streq(s, '.current')))       # the selection marker is not a workspace or configuration
    return out


def ws(fs, w):
    return fs.root.child(w)


def cfg(fs, w, c):
    return fs.root.child(w).child('configs').child(c)


def touched(e):
    """paths below which an effect changes something"""
    return {'mkdirs': e[1:2], 'rmtree': e[1:2], 'remove': e[1:2], 'write': e[1:2], 'move': e[1:3], 'rename': e[1:3],
            'copytree': e[2:3], 'abstract': e[2:3]}[e[0]]


def footprint(E, fs, *allowed):
    for e in fs.log:
        for p in touched(e):
            E.prove('only-the-named-item', not p.wild and any(under(E, p, a) for a in allowed))


def failed(E, fs, e):
    E.prove('rejected', e is not None)
    E.prove('no-effect', len(fs.log) == 0)


def call(E, I, fs, m, op, *args, **kw):
    return raises(E, I, method(I, m, op), *args, **kw)


def moved(E, fs, src, dst, gone):
    """dst now is what src was, at every path below; src is gone or unchanged"""
    r = Str('r')
    for tail in ((), (r,)):
        q = Path(E, dst.comps + tail)
        o = fs.origin(q)
        E.prove('target-content', o[0] == 'initial' and same(E, o[1], Path(E, src.comps + tail)))
        o = fs.origin(Path(E, src.comps + tail))
        E.prove('source-' + ('gone' if gone else 'unchanged'),
                o[0] == 'gone' if gone else o[0] == 'initial' and same(E, o[1], Path(E, src.comps + tail)))


def io(E):
    return E.ghost.get('io-error', False)


@contract('C24', 'create-workspace')
def create_ws(E, I):
    fs, m = setup(E, I)
    (w, ok), = names(E, 'w')
    full = ok and fs.exists(ws(fs, w)) and fs.isdir(ws(fs, w)) and fs.nonempty(ws(fs, w))
    isfile = ok and fs.isfile(ws(fs, w))
    fs.X = Str('entry')
    e, r = call(E, I, fs, m, 'create_workspace', w)
    if not ok or full:
        return failed(E, fs, e)
    footprint(E, fs, ws(fs, w))
    if not io(E) and not isfile:
        E.prove('accepted', e is None)
    if e is None and not isfile:
        E.prove('created', fs.isdir(ws(fs, w)))
        E.prove('name', keycode(I.getattr(r, 'name')) is not None and tm.streq(I.getattr(r, 'name'), w))
        d = I.getattr(r, 'workspace_dir')
        E.prove('directory', isinstance(d, Path) and same(E, d, ws(fs, w)))


@contract('C24', 'delete-workspace')
def delete_ws(E, I):
    fs, m = setup(E, I)
    (w, ok), = names(E, 'w')
    there = ok and fs.isdir(ws(fs, w))
    e, r = call(E, I, fs, m, 'delete_workspace', w)
    if not there:
        return failed(E, fs, e)
    footprint(E, fs, ws(fs, w))
    if not io(E):
        E.prove('accepted', e is None)
    if e is None:
        E.prove('gone', not fs.exists(ws(fs, w)))


def two(op, gone):
    @contract('C24', op.replace('_', '-'))
    def check(E, I):
        fs, m = setup(E, I)
        (w, ok), (v, okv) = names(E, 'w', 'v')
        a, b = ws(fs, w), ws(fs, v)
        there = ok and fs.isdir(a)
        if ok and not there and fs.exists(a):
            E.assume(False)            # a plain file among the workspaces: not a workspace
        blocked = okv and fs.exists(b)
        empty = blocked and fs.isdir(b) and not fs.nonempty(b)
        itself = ok and okv and same(E, a, b)
        e, r = call(E, I, fs, m, op, w, v)
        if not there or not okv or (blocked and not empty):
            if itself and there and len(fs.log) == 0:
                return                 # onto itself: nothing happens, with or without an error
            return failed(E, fs, e)
        if itself:
            E.prove('no-effect', len(fs.log) == 0)
            return
        footprint(E, fs, b, *([a] if gone else []))
        if not io(E) and not blocked:
            E.prove('accepted', e is None)
        if e is None:
            moved(E, fs, a, b, gone)
            E.prove('name', tm.streq(I.getattr(r, 'name'), v))
        elif not io(E):
            E.prove('no-effect', len(fs.log) == 0)
    return check


two('copy_workspace', False)
two('rename_workspace', True)


def twoc(op, gone):
    @contract('C24', op.replace('_', '-'))
    def check(E, I):
        fs, m = setup(E, I)
        (w, okw), (c, okc), (d, okd) = names(E, 'w', 'c', 'd')
        ok = okw and okc and okd
        if not ok:
            e, r = call(E, I, fs, m, op, w, c, d)
            return failed(E, fs, e)
        a, b = cfg(fs, w, c), cfg(fs, w, d)
        there = fs.isdir(a)
        if not there and fs.exists(a):
            E.assume(False)
        blocked = fs.exists(b)
        empty = blocked and fs.isdir(b) and not fs.nonempty(b)
        itself = same(E, a, b)
        e, r = call(E, I, fs, m, op, w, c, d)
        if not there or (blocked and not empty):
            if itself and there and len(fs.log) == 0:
                return
            return failed(E, fs, e)
        if itself:
            E.prove('no-effect', len(fs.log) == 0)
            return
        footprint(E, fs, b, *([a] if gone else []))
        if not io(E) and not blocked:
            E.prove('accepted', e is None)
        if e is None:
            moved(E, fs, a, b, gone)
        elif not io(E):
            E.prove('no-effect', len(fs.log) == 0)
    return check


twoc('copy_config', False)
twoc('rename_config', True)


@contract('C24', 'delete-config')
def delete_cfg(E, I):
    fs, m = setup(E, I)
    (w, okw), (c, okc) = names(E, 'w', 'c')
    there = okw and okc and fs.isdir(cfg(fs, w, c))
    e, r = call(E, I, fs, m, 'delete_config', w, c)
    if not there:
        return failed(E, fs, e)
    footprint(E, fs, cfg(fs, w, c))
    if not io(E):
        E.prove('accepted', e is None)
    if e is None:
        E.prove('gone', not fs.exists(cfg(fs, w, c)))


@contract('C24', 'create-config')
def create_cfg(E, I):
    fs, m = setup(E, I)
    (w, okw), (c, okc) = names(E, 'w', 'c')
    cryo = E.choice('cryosat')
    E.contracts[pkgutil.get_data] = lambda I, a, k: ('resource',) + tuple(a)
    fs.X = Str('entry')
    if not (okw and okc):
        e, r = call(E, I, fs, m, 'create_config', w, c, cryosat=cryo)
        return failed(E, fs, e)
    d = cfg(fs, w, c)
    there = fs.isdir(ws(fs, w))
    if not there and fs.exists(ws(fs, w)) or fs.isfile(d):
        E.assume(False)
    full = there and fs.isdir(d) and fs.nonempty(d)
    e, r = call(E, I, fs, m, 'create_config', w, c, cryosat=cryo)
    if not there or full:
        return failed(E, fs, e)
    footprint(E, fs, d)
    if not io(E):
        E.prove('accepted', e is None)
    if e is None:
        for nm in ('CHD.json', 'CNF.json', 'CST.json'):
            o = fs.origin(d.child(nm))
            E.prove('written.' + nm, o[0] == 'file' and isinstance(o[1], tuple) and
                    o[1] == ('resource', 'dedop.ui.data.' + ('cryosat_config' if cryo else 'config'), nm))
        x = Str('other')
        for nm in ('CHD.json', 'CNF.json', 'CST.json'):
            E.assume(tm.Not(tm.streq(x, nm)))
        o = fs.origin(d.child(x))
        E.prove('nothing-else', o[0] == 'initial')


@contract('C24', 'add-inputs.reject')
def add_reject(E, I):
    fs, m = setup(E, I)
    (w, ok), = names(E, 'w')
    mon = Recorder(E, 'monitor', {'starting': lambda *a, **k: CtxMgr()})
    if ok and fs.isdir(ws(fs, w)):
        return
    if ok and fs.exists(ws(fs, w)):
        E.assume(False)
    n = tm.var('n', 'Int')
    E.assume(tm.le(0, n))
    paths = SList(E, length=n, fn=lambda i: Str('input', tm.app('input', 'Int', tm.t(i))))
    e, r = call(E, I, fs, m, 'add_inputs', w, paths, mon)
    failed(E, fs, e)


def some(E, fs, d, prefix, X, status, entry=None):
    """loop contract: iteration i changes only direct children of d; `status(k)` is what became of d/X after the
    first k iterations (None: unchanged)"""
    def havoc(L):
        base = fs.log
        k = L.k

        def state(q):
            if not under(E, q, d) or len(q.comps) == len(d.comps):
                return None
            if samec(E, q.comps[len(d.comps)], X):
                return status(k, q)
            # other files: whatever the earlier iterations left
            c = E.fresh('other')
            return ('gone',) if E.choice(c + '.gone') else ('file', c) if E.choice(c + '.changed') else None
        fs.cell.set('log', base + (('abstract', state, d),))
        L.base = len(base) + 1

    def inv(L):
        out = []
        n0 = getattr(L, 'base', None)
        if n0 is not None:
            for e in fs.log[n0:]:
                for p in touched(e):
                    out.append(('only-the-named-item', not p.wild and len(p.comps) > len(d.comps) and under(E, p, d)))
        o = fs.origin(d.child(X))
        w = status(L.k, d.child(X))
        out.append(('item', same_origin(E, o, w if w is not None else ('initial', d.child(X)))))
        return out
    return LoopSpec(havoc, inv, assume=lambda L: [], entry=entry)


def same_origin(E, a, b):
    if a[0] != b[0]:
        return False
    if a[0] == 'initial':
        return same(E, a[1], b[1])
    if a[0] == 'file':
        x, y = a[1], b[1]
        if isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0] == 'external':
            return tm.streq(x[1], y[1])
        return False
    return True


@contract('C24', 'add-inputs')
def add_inputs(E, I):
    """every input file is copied under its own name; nothing else changes"""
    fs, m = setup(E, I)
    (w, ok), = names(E, 'w')
    if not ok or not fs.isdir(ws(fs, w)):
        return
    n = tm.var('n', 'Int')
    E.assume(tm.le(0, n))
    inp = lambda i: Str('input', tm.app('input', 'Int', tm.t(i)))
    d = ws(fs, w).child('inputs')
    if fs.isfile(d):
        E.assume(False)
    X = Str('X')
    last = lambda k: tm.app('last', 'Int', tm.t(k))      # last of the first k inputs whose file name is X, or -1
    E.assume(tm.eq(last(tm.const(0)), -1))
    mon = Recorder(E, 'monitor', {'starting': lambda *a, **k: CtxMgr()})

    def item(i):
        s = inp(i)
        b = basename(E, s)
        i = tm.t(i)
        E.assume(tm.eq(last(tm.add(i, 1)), i if E.branch(tm.streq(b, X)) else last(i)))
        return s
    paths = SList(E, length=n, fn=item)

    def status(k, q):
        if E.branch(tm.eq(last(k), -1)):
            return None
        E.assume([tm.le(0, last(k)), tm.lt(last(k), n)])
        return ('file', ('external', inp(last(k))))
    if fs.isdir(d.child(X)):
        E.assume(False)
    E.loops[('WorkspaceManager.add_inputs', 0)] = some(E, fs, d, 'inputs', X, status)
    e, r = call(E, I, fs, m, 'add_inputs', w, paths, mon)
    footprint(E, fs, d)
    if e is None:
        o = fs.origin(d.child(X))
        want = status(n, d.child(X))
        E.prove('copied', same_origin(E, o, want if want is not None else ('initial', d.child(X))))


def remove_list(E, fs, X, lst, n):
    first = tm.var('first', 'Int')      # first position of X in the list, if any
    some_ = tm.boolvar('X.given')
    if E.branch(some_):
        E.assume([tm.le(0, first), tm.lt(first, n), tm.eq(lst(first).code, X.code)])

    def item(i):
        s = lst(i)
        if E.branch(tm.streq(s, X)):
            E.assume([some_, tm.le(first, tm.t(i))])
        return s
    return SList(E, length=n, fn=item), first, some_


@contract('C24', 'remove-inputs')
def remove_inputs(E, I):
    fs, m = setup(E, I)
    (w, ok), = names(E, 'w')
    n = tm.var('n', 'Int')
    E.assume(tm.le(0, n))
    bad = E.choice('one-name-invalid')
    B = tm.var('bad.at', 'Int')
    nm = lambda i: Str('name', tm.app('name', 'Int', tm.t(i)))
    if bad:
        E.assume([tm.le(0, B), tm.lt(B, n)])
        if kind(E, nm(B)) == 'plain':
            E.assume(False)
    X = Str('X')
    if kind(E, X) != 'plain':
        E.assume(False)

    def valid(i):
        s = nm(i)
        if not bad and kind(E, s) != 'plain':
            E.assume(False)
        return s
    lst, first, given = remove_list(E, fs, X, valid, n)
    mon = Recorder(E, 'monitor', {'starting': lambda *a, **k: CtxMgr()})
    d = ws(fs, w).child('inputs')
    if ok and not bad and fs.isdir(d.child(X)):
        E.assume(False)

    def status(k, q):
        return ('gone',) if E.branch(tm.And(given, tm.lt(first, k))) and fs.exists0(d.child(X)) else None
    E.loops[('WorkspaceManager.remove_inputs', 0)] = some(
            E, fs, d, 'inputs', X, status, lambda L: E.instantiate(tm.const(0), *([tm.add(B, 1)] if bad else [])))
    e, r = call(E, I, fs, m, 'remove_inputs', w, lst, mon)
    if not ok or bad:
        return failed(E, fs, e)
    footprint(E, fs, d)
    if e is None:
        o = fs.origin(d.child(X))
        want = status(n, d.child(X))
        E.prove('removed', same_origin(E, o, want if want is not None else ('initial', d.child(X))))


@contract('C24', 'remove-outputs')
def remove_outputs(E, I):
    fs, m = setup(E, I)
    (w, okw), (c, okc) = names(E, 'w', 'c')
    X = fs.X = Str('X')
    if kind(E, X) != 'plain':
        E.assume(False)
    ok = okw and okc
    d = cfg(fs, w, c).child('outputs') if ok else None
    if ok:
        there = fs.isdir(d)
        if not there and fs.exists(d):
            E.assume(False)
        if there and fs.isdir(d.child(X)):
            E.assume(False)           # outputs are files

        def status(k, q):
            b = E.ghost.get('listing')
            if b is None:
                return None
            return ('gone',) if fs.exists0(d.child(X)) and E.branch(tm.lt(b.pos(), k)) else None
        E.loops[('WorkspaceManager.remove_outputs', 0)] = some(E, fs, d, 'outputs', X, status)
    e, r = call(E, I, fs, m, 'remove_outputs', w, c)
    if not ok or not there:
        return failed(E, fs, e)
    footprint(E, fs, d)
    if e is None:
        E.prove('removed', not fs.exists(d.child(X)))
