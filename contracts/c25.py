"""Listings over an arbitrary directory content; generated names; selections."""
from .base import *
from .c24 import setup, names, ws, cfg, call, io
from pyvc.fs import Path, kind, same, matches, sep
from pyvc.ext import Bag, keycode, count_in, Text
from pyvc.interp import LoopSpec
from dedop.ui.workspace_manager import WorkspaceManager
import dedop.ui.workspace_manager as wm
import fnmatch
import pkgutil

X = Str('X')


def entry(E, fs):
    """an arbitrary possible entry name"""
    fs.X = X
    if kind(E, X) != 'plain':
        E.assume(False)


def listed(E, I, e, r, cond, none_ok=False):
    """the result is sorted and contains X exactly once if cond, else not at all"""
    E.prove('no-error', e is None)
    if e is not None:
        return
    if r is None and none_ok:
        E.prove('complete', not cond)
        return
    if isinstance(r, SList) and r.st[0] == 'c' and len(r.st[1]) == 0:
        E.prove('complete', not cond)
        return
    if not isinstance(r, Bag):
        raise Unsupported('listing %r' % (r,))
    E.prove('sorted', r.kind is list and r.st[1])
    E.prove('exactly-once' if cond else 'not-listed', tm.eq(r.count(X), 1 if cond else 0))


@contract('C25', 'workspace-names')
def wsnames(E, I):
    fs, m = setup(E, I)
    entry(E, fs)
    e, r = call(E, I, fs, m, 'get_workspace_names')
    listed(E, I, e, r, fs.isdir(ws(fs, X)))
    E.prove('no-effect', len(fs.log) == 0)


@contract('C25', 'workspaces')
def workspaces(E, I):
    """one description per workspace name, in the same order"""
    fs, m = setup(E, I)
    n = tm.var('n', 'Int')
    E.assume(tm.le(0, n))
    nm = lambda i: Str('name', tm.app('name', 'Int', tm.t(i)))

    def lst(I, a, k):
        E.ghost['used'] = True

        def item(i):
            s = nm(i)
            if kind(E, s) != 'plain':
                E.assume(False)
            return s
        return SList(E, length=n, fn=item)
    E.contracts[WorkspaceManager.get_workspace_names] = lst
    there = fs.exists(fs.root)
    if not there:
        E.assume(tm.eq(n, 0))
    e, r = call(E, I, fs, m, 'get_workspaces')
    E.prove('no-error', e is None)
    if not there and (r is None or isinstance(r, SList) and tm.as_const(r.length()) == 0):
        return
    if not E.ghost.get('used'):
        raise Unsupported('listing of workspaces not through their names')
    if not isinstance(r, SList):
        raise Unsupported('listing %r' % (r,))
    E.prove('complete', tm.eq(r.length(), n))
    j = skolem(E, 'j', 0, n)
    d = r.get(j)
    E.prove('name', tm.streq(I.getitem(d, 'name'), nm(j)))
    p = I.getitem(d, 'workspace_dir')
    E.prove('directory', isinstance(p, Path) and same(E, p, ws(fs, nm(j))))


@contract('C25', 'config-names')
def cfgnames(E, I):
    fs, m = setup(E, I)
    entry(E, fs)
    (w, ok), = names(E, 'w')
    if not ok:
        return
    e, r = call(E, I, fs, m, 'get_config_names', w)
    if not fs.exists(ws(fs, w)):
        E.prove('unknown-workspace', e is not None)
        return
    if fs.isfile(ws(fs, w).child('configs')):
        return
    listed(E, I, e, r, fs.isdir(cfg(fs, w, X)), none_ok=True)


@contract('C25', 'notebook-names')
def nbnames(E, I):
    fs, m = setup(E, I)
    entry(E, fs)
    (w, ok), = names(E, 'w')
    if not ok:
        return
    d = ws(fs, w).child('notebooks')
    if fs.isfile(d):
        return
    e, r = call(E, I, fs, m, 'get_notebook_names', w)
    if not fs.exists(ws(fs, w)):
        E.prove('unknown-workspace', e is not None)
        return
    listed(E, I, e, r, fs.isfile(d.child(X)) and E.branch(tm.boolvar('endswith:.ipynb', X.code)))


def patterns(E, I, fs):
    """no pattern, one pattern or a list of patterns; -> (argument, function: does X match)"""
    if E.choice('no-pattern'):
        return None, lambda: True
    if E.choice('one-pattern'):
        p = Str('pattern')
        return p, lambda: E.branch(matches(E, X, p))
    n = tm.var('patterns.n', 'Int')
    E.assume(tm.le(0, n))
    pat = lambda i: Str('pattern', tm.app('pattern', 'Int', tm.t(i)))
    ANY = tm.boolvar('some.pattern.matches')
    W = tm.var('matching.pattern', 'Int')
    if E.branch(ANY):
        E.assume([tm.le(0, W), tm.lt(W, n), matches(E, X, pat(W))])

    def item(i):
        E.assume(tm.Or(tm.Not(matches(E, X, pat(i))), ANY))
        return pat(i)

    def spec(bag):
        """loop over a listing that builds another list: X is added when it is visited, if it matches"""
        def target(L):
            return [k for k, v in L.loc.items() if isinstance(v, (SList, Bag, set)) and v is not bag and
                    (not isinstance(v, SList) or v.st[0] == 'c' and not v.st[1])]

        def want(L):
            return 1 if bag.present() and E.branch(tm.lt(bag.pos(), L.k)) and E.branch(ANY) else 0

        def havoc(L):
            L.names = L.targets
            w = want(L)
            for k in L.targets:
                kd = set if isinstance(L.loc[k], set) or isinstance(L.loc[k], Bag) and L.loc[k].kind is set else list

                def count(x, k=k):
                    if E.branch(tm.eq(x, X.code)):
                        return w
                    c = tm.app('%s.count' % k, 'Int', x)
                    E.assume(tm.le(0, c))
                    return c
                L.loc[k] = Bag(E, X, count, k, kind=kd)

        def entry(L):
            L.targets = [k for k in target(L) if k in mutated(L)]
            if len(L.targets) != 1:
                raise Unsupported('list built by a loop over a listing')

        def inv(L):
            if hasattr(L, 'names'):
                # facts about patterns seen in this iteration
                E.instantiate(W)
            return [('listed', tm.eq(count_in(I, L.loc[k], X), want(L))) for k in L.targets]
        return LoopSpec(havoc, inv, assume=lambda L: [], entry=entry)
    E.ghost['bag.spec'] = spec
    return SList(E, length=n, fn=item), lambda: not E.branch(tm.ne(n, 0)) or E.branch(ANY)


def mutated(L):
    """names of locals on which the function calls append/add"""
    import ast
    from pyvc.interp import fn_ast
    node, _ = fn_ast(L.frame.fn)
    return {c.func.value.id for c in ast.walk(node) if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and
            c.func.attr in ('append', 'add') and isinstance(c.func.value, ast.Name)}


def files(which):
    @contract('C25', which + '-names')
    def check(E, I):
        fs, m = setup(E, I)
        entry(E, fs)
        (w, ok), (c, okc) = names(E, 'w', 'c')
        if not ok or not okc:
            return
        d = ws(fs, w).child('inputs') if which == 'input' else cfg(fs, w, c).child('outputs')
        if fs.isfile(d):
            return
        pat, match = patterns(E, I, fs)
        orig = fs.listdir

        def listdir(p):
            b = orig(p)
            b.spec = E.ghost.get('bag.spec')
            return b
        fs.listdir = listdir
        args = (w,) if which == 'input' else (w, c)
        e, r = call(E, I, fs, m, 'get_%s_names' % which, *args, **({'pattern': pat} if pat is not None else {}))
        E.instantiate(*([tm.var('matching.pattern', 'Int')]))
        listed(E, I, e, r, fs.isfile(d.child(X)) and E.branch(tm.boolvar('endswith:.nc', X.code)) and match())
        E.prove('no-effect', len(fs.log) == 0)
    return check


files('input')
files('output')


@contract('C25', 'input-paths')
def paths(E, I):
    fs, m = setup(E, I)
    (w, ok), = names(E, 'w')
    if not ok:
        return
    n = tm.var('n', 'Int')
    E.assume(tm.le(0, n))
    nm = lambda i: Str('name', tm.app('name', 'Int', tm.t(i)))

    def lst(I, a, k):
        E.ghost['used'] = True

        def item(i):
            s = nm(i)
            if kind(E, s) != 'plain':
                E.assume(False)
            return s
        return SList(E, length=n, fn=item)
    E.contracts[WorkspaceManager.get_input_names] = lst
    e, r = call(E, I, fs, m, 'get_input_paths', w)
    if not E.ghost.get('used'):
        raise Unsupported('paths of inputs not through their names')
    E.prove('complete', e is None and tm.eq(r.length(), n))
    j = skolem(E, 'j', 0, n)
    p = r.get(j)
    E.prove('path', isinstance(p, Path) and same(E, p, ws(fs, w).child('inputs').child(nm(j))))


@contract('C25', 'current-workspace')
def current_ws(E, I):
    """the workspace reported is the one last selected (the selection made before is arbitrary)"""
    fs, m = setup(E, I)
    (w, ok), (v, okv) = names(E, 'w', 'v')
    if not ok or not okv:
        return
    if fs.isdir(fs.root.child('.current')):
        return
    tv = fs.exists(ws(fs, v))
    if E.choice('earlier-selection'):
        call(E, I, fs, m, 'set_current_workspace_name', v)
    log0 = len(fs.log)
    before = fs.origin(fs.root.child('.current'))
    there = fs.exists(ws(fs, w))
    io0 = io(E)
    E.ghost['io-error'] = False
    e, r = call(E, I, fs, m, 'set_current_workspace_name', w)
    if not there:
        E.prove('rejected', e is not None)
        E.prove('no-effect', len(fs.log) == log0)
        return
    if e is not None:
        E.prove('accepted', io(E))
        return
    for x in fs.log[log0:]:
        E.prove('only-the-marker', x[0] == 'write' and same(E, x[1], fs.root.child('.current')))
    fs.faults = False
    e, r = call(E, I, fs, m, 'get_current_workspace')
    E.prove('reported', e is None and keycode(I.getattr(r, 'name')) is not None and tm.streq(I.getattr(r, 'name'), w))


@contract('C25', 'current-config')
def current_cfg(E, I):
    fs, m = setup(E, I)
    (w, okw), (c, okc), (u, oku), (d, okd) = names(E, 'w', 'c', 'u', 'd')
    if not (okw and okc and oku and okd):
        return
    mark = ws(fs, w).child('configs').child('.current')
    if fs.isdir(mark) or fs.isfile(ws(fs, w).child('configs')):
        return
    if E.choice('earlier-selection'):
        call(E, I, fs, m, 'set_current_config_name', w, d)
    log0 = len(fs.log)
    there = fs.exists(cfg(fs, w, c))
    E.ghost['io-error'] = False
    e, r = call(E, I, fs, m, 'set_current_config_name', w, c)
    if not there:
        E.prove('rejected', e is not None)
        E.prove('no-effect', len(fs.log) == log0)
        return
    if e is not None:
        E.prove('accepted', io(E))
        return
    for x in fs.log[log0:]:
        E.prove('only-the-marker', x[0] == 'write' and same(E, x[1], mark))
    fs.faults = False
    if E.choice('other-workspace-selected-later') and not E.branch(tm.streq(u, w)):
        if fs.isdir(ws(fs, u).child('configs').child('.current')):
            return
        call(E, I, fs, m, 'set_current_config_name', u, d)
    e, r = call(E, I, fs, m, 'get_current_config_name', w)
    E.prove('reported', e is None and keycode(r) is not None and tm.streq(r, w if False else c))


def notebooks(which):
    @contract('C25', which + '-notebook')
    def check(E, I):
        """the notebook is written to a file that did not exist"""
        fs, m = setup(E, I)
        (w, ok), = names(E, 'w')
        if not ok or not fs.isdir(ws(fs, w)):
            return
        if fs.isfile(ws(fs, w).child('notebooks')):
            return
        E.contracts[pkgutil.get_data] = lambda I, a, k: Opaque('template')
        E.contracts[WorkspaceManager.launch_notebook.__func__] = lambda I, a, k: E.ghost.__setitem__('launched', (a, k))

        def ints(L):
            return [k for k in L.assigned if isinstance(L.loc.get(k), (int, T)) and not isinstance(L.loc.get(k), bool)]

        def entry(L):
            L.ints = ints(L)

        def havoc(L):
            for k in L.ints:
                L.loc[k] = E.fresh_int(k)

        def inv(L):
            return []
        E.loops[('WorkspaceManager._launch_notebook_from_template', 0)] = LoopSpec(havoc, inv, entry=entry)
        d = ws(fs, w).child('notebooks')
        log = []
        orig = fs.effect

        def effect(*x):
            if x[0] == 'write':
                first = not any(y[0] == 'write' and y[1].comps == x[1].comps for y in fs.log)
                if first:
                    E.prove('new-file', not fs.exists(x[1]))
                E.prove('in-notebooks', len(x[1].comps) == len(d.comps) + 1 and
                        all(a == b or a is b for a, b in zip(x[1].comps, d.comps)))
            else:
                E.prove('nothing-else', x[0] == 'mkdirs' and len(x[1].comps) == len(d.comps))
            orig(*x)
        fs.effect = effect
        base = Text(['inspect-', Str('product')]) if which == 'inspect' else Text(['compare-', Str('product'), '-', Str('product2')])
        for s in ('product', 'product2'):
            E.assume(tm.Not(sep(Str(s).code)))
        e, r = call(E, I, fs, m, '_launch_notebook_from_template', w, base, Str('json'), Str('title'))
        if e is None and not io(E):
            ws_ = [x for x in fs.log if x[0] == 'write']
            E.prove('written', len(ws_) > 0 and isinstance(ws_[-1][2], Str) and tm.streq(ws_[-1][2], Str('json')))
    return check


notebooks('inspect')
notebooks('compare')
