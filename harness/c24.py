from .util import *
from .fstree import build, guarded, put, snapshot
import shutil
import pkgutil
from dedop.ui.workspace_manager import WorkspaceManager
from dedop.util.monitor import Monitor

BAD = ['', '.', '..', '../workspaces', '../x', 'a/configs', './a', 'a/', '../..', '../outside.nc', '../../workspaces2']


WS = ['a', 'b', 'c', 'd'] * 3 + ['.h', 'a10', 'B x']
CS = ['c', 'd', 'e', 'f'] * 3 + ['.f', 'c10', 'C x']


def name(rng, pool, bad=.2):
    if rng.random() < bad:
        return BAD[int(rng.integers(len(BAD)))]
    return pool[int(rng.integers(len(pool)))]


def plain(s):
    return s not in ('', '.', '..') and '/' not in s


def below(t, p):
    return {k: v for k, v in t.items() if k == p or k.startswith(p + '/')}


def rebase(t, a, b):
    return {b + k[len(a):]: v for k, v in below(t, a).items()}


def mkparents(t, p):
    parts = p.split('/')
    for i in range(1, len(parts)):
        t.setdefault('/'.join(parts[:i]), None)
    return t


OPS = ('create_workspace', 'delete_workspace', 'copy_workspace', 'rename_workspace', 'create_config', 'delete_config',
       'copy_config', 'rename_config', 'add_inputs', 'remove_inputs', 'remove_outputs')


def effect(rng, t, op, a, src):
    """expected outcomes: list of acceptable (fails, tree)"""
    full = lambda p: any(k.startswith(p + '/') for k in t)
    isdir = lambda p: p in t and t[p] is None
    nope = [(True, t)]
    if not all(plain(x) for x in a):
        return nope
    cf = lambda w, c: '%s/configs/%s' % (w, c)
    if op == 'create_workspace':
        return nope if full(a[0]) else [(False, dict(t, **{a[0]: None}))]
    if op == 'delete_workspace':
        return [(False, {k: v for k, v in t.items() if k not in below(t, a[0])})] if isdir(a[0]) else nope
    if op == 'delete_config':
        p = cf(*a)
        return [(False, {k: v for k, v in t.items() if k not in below(t, p)})] if isdir(p) else nope
    if op in ('copy_workspace', 'rename_workspace', 'copy_config', 'rename_config'):
        if op.endswith('config'):
            p, q = cf(a[0], a[1]), cf(a[0], a[2])
        else:
            p, q = a
        if not isdir(p):
            return nope
        if p == q:
            return nope + [(False, t)]
        if full(q):
            return nope
        r = {k: v for k, v in t.items() if not (op.startswith('rename') and k in below(t, p))}
        r.update(rebase(t, p, q))
        return [(False, r)] + (nope if q in t else [])
    if op == 'create_config':
        p = cf(*a[:2])
        if not isdir(a[0]) or full(p):
            return nope
        r = mkparents(dict(t), p + '/x')
        pkg = 'dedop.ui.data.' + ('cryosat_config' if src else 'config')
        for f in ('CHD.json', 'CNF.json', 'CST.json'):
            with open(os.path.join(REPO, *pkg.split('.'), f), 'rb') as fp:
                r[p + '/' + f] = fp.read()
        return [(False, r)]
    if op == 'add_inputs':
        if not isdir(a[0]):
            return nope
        r = mkparents(dict(t), a[0] + '/inputs/x')
        for s in src:
            with open(s, 'rb') as fp:
                r[a[0] + '/inputs/' + os.path.basename(s)] = fp.read()
        return [(False, r)]
    if op == 'remove_inputs':
        gone = {'%s/inputs/%s' % (a[0], x) for x in a[1:]}
        return [(False, {k: v for k, v in t.items() if k not in gone})] + ([] if isdir(a[0]) else nope)
    if op == 'remove_outputs':
        p = cf(*a) + '/outputs'
        if not isdir(p):
            return nope
        return [(False, {k: v for k, v in t.items() if not k.startswith(p + '/')})]


@case('C24', 'operations', 120, 4000)
def operations(rng, scratch):
    base = os.path.join(scratch, 'fs')
    shutil.rmtree(base, ignore_errors=True)
    wd = build(rng, base)
    m = WorkspaceManager(wd)
    hist = []
    for step in range(int(rng.integers(1, 6))):
        op = OPS[int(rng.integers(len(OPS)))]
        w = name(rng, WS, .1)
        c = name(rng, CS, .12)
        src = None
        if op in ('create_workspace', 'delete_workspace'):
            a = args = (w,)
        elif op in ('copy_workspace', 'rename_workspace'):
            a = args = (w, name(rng, WS))
        elif op == 'create_config':
            a = args = (w, c)
            src = bool(rng.integers(2))
            if src:
                args = a + (True,)
        elif op in ('delete_config', 'remove_outputs'):
            a = args = (w, c)
        elif op in ('copy_config', 'rename_config'):
            a = args = (w, c, name(rng, CS))
        elif op == 'add_inputs':
            a = (w,)
            src = []
            for i in range(int(rng.integers(0, 4))):
                p = os.path.join(base, 'new', ['i1.nc', 'k1.nc', 'k2.nc', ' K 3.nc '][int(rng.integers(4))])
                os.makedirs(os.path.dirname(p), exist_ok=True)
                put(p, 'new input %d' % step)
                src.append(p)
            args = (w, src, Monitor.NULL)
        else:
            ns = [name(rng, ['i1.nc', 'i2.nc', 'j1.nc', 'zz.nc', 'readme.txt', '.i3.nc'], .08) for i in range(int(rng.integers(0, 4)))]
            a = (w,) + tuple(ns)
            args = (w, ns, Monitor.NULL)
        everything = snapshot(base)
        t = snapshot(wd)
        hist.append('%s%r' % (op, a))
        want = effect(rng, t, op, a, src)
        try:
            with guarded(base):
                getattr(m, op)(*args)
            fails, err = False, None
        except Violation as e:
            raise Violation('%s: %s' % ('; '.join(hist), e))
        except Exception as e:
            fails, err = True, e
        t2 = snapshot(wd)
        rel = os.path.relpath(wd, base)
        after = snapshot(base)
        out = lambda s: {k: v for k, v in s.items() if not (k + '/').startswith(rel + '/')}
        expect(out(everything) == out(after), '%s: changed outside the workspaces directory: %r', '; '.join(hist),
               sorted(set(out(everything).items()) ^ set(out(after).items()))[:3])
        if not any(fails == f and t2 == r for f, r in want):
            f, r = want[0]
            d = sorted(k for k in set(t2) | set(r) if (k in t2, t2.get(k)) != (k in r, r.get(k)))
            raise Violation('%s: %s (%r); expected %s; differing paths %r' % (
                '; '.join(hist), 'fails' if fails else 'succeeds', err, 'failure' if f else 'success', d[:4]))
    return '%d operations' % len(hist)
