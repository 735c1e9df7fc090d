"""The command line over an arbitrary workspace manager: every manager operation by contract (C24, C25), its calls recorded."""
import inspect
import os
import subprocess
import sys
STUBS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'stubs')
if STUBS not in sys.path:
    sys.path.insert(0, STUBS)
from .base import *
from pyvc.ext import Ext, Recorder, keycode, Text
from pyvc.interp import LoopSpec, Native
import dedop.cli.main as cli
from dedop.cli.main import CommandError
from dedop.ui.exception import WorkspaceError
from dedop.ui.workspace_manager import WorkspaceManager

CHANGES = {'create_workspace', 'delete_workspace', 'copy_workspace', 'rename_workspace', 'set_current_workspace_name', 'create_config',
           'delete_config', 'copy_config', 'rename_config', 'set_current_config_name', 'add_inputs', 'remove_inputs', 'remove_outputs',
           'upgrade_all_config', 'create_notebook', 'launch_notebook', 'inspect_l1b_product', 'compare_l1b_products', 'open_file',
           'upgrade_config', 'write_config', 'run_notebook'}


def code(v):
    c = keycode(v)
    if c is None:
        raise Unsupported('name %r' % (v,))
    return c


def pathcode(v):
    if v is None:
        raise PyRaise(TypeError, 'path of None')
    return code(v)


def eqs(a, b):
    """equality of two argument values as a formula"""
    if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
        return a is b or (not isinstance(a, (Str, T, F)) and not isinstance(b, (Str, T, F)) and a == b)
    if isinstance(a, F) or isinstance(b, F):
        return tm.Iff(a, b) if hasattr(tm, 'Iff') else tm.And(tm.Or(tm.Not(a), b), tm.Or(tm.Not(b), a))
    if isinstance(a, (Names, Recorder, SList)) or isinstance(b, (Names, Recorder, SList)):
        return a is b
    if isinstance(a, (T, int)) and isinstance(b, (T, int)):
        return tm.eq(a, b)
    ca, cb = keycode(a), keycode(b)
    if ca is None or cb is None:
        return a is b
    return tm.eq(ca, cb)


class Names(Ext):
    """list of names of arbitrary length; `ident` names it"""
    types = (list,)

    def __init__(self, W, ident, spec=None):
        self.W, self.ident, self.spec = W, ident, spec
        self.n = tm.app('%s.n' % ident[0], 'Int', *ident[1:])
        W.E.assume(tm.le(0, self.n))
        W.E.ghost['length-specs'] = W.E.ghost.get('length-specs', ()) + ((self.n, spec),)

    def __repr__(self):
        return '<names %s>' % self.ident[0]

    def member(self, x):
        f = tm.boolvar('%s.has' % self.ident[0], code(x), *self.ident[1:])
        return f

    def contains(self, I, x):
        if x is None:
            return False
        f = self.member(x)
        I.E.assume(tm.Or(tm.Not(f), tm.lt(0, self.n)))
        return f

    def item(self, i):
        s = Str('%s[i]' % self.ident[0], tm.app('%s.item' % self.ident[0], 'Int', tm.t(i), *self.ident[1:]))
        self.W.E.assume([self.member(s), tm.Not(tm.streq(s, ''))])
        return s

    def length(self, I):
        return self.n

    def truth(self, I):
        return I.E.branch(tm.lt(0, self.n))

    def getitem(self, I, ix):
        E = I.E
        if not isinstance(ix, (int, T)):
            raise Unsupported('subscript of names')
        c = tm.as_const(tm.t(ix))
        if c is not None and c < 0:
            ix = tm.add(self.n, ix)
        if not E.branch(tm.And(tm.le(0, ix), tm.lt(ix, self.n))):
            raise PyRaise(IndexError, 'list index')
        return self.item(ix)

    def iterate(self, I):
        from pyvc.interp import SIter
        it = SIter(self.n, self.item)
        it.spec = self.spec
        return it

    def eq(self, I, o):
        return self is o


def lower(E, o):
    r = Str('lower', tm.app('lower', 'Int', code(o)))
    E.assume(tm.eq(tm.app('lower', 'Int', r.code), r.code))
    return r


class World:
    def __init__(self, E, I, faults=True):
        self.E, self.I, self.faults = E, I, faults
        self.cur0 = None if E.choice('no.current.workspace') else Str('current')
        self.cur = self.cur0
        self.created, self.deleted, self.cfgset = [], [], []
        self.version = 0
        self.events = []
        self.failed = False
        self.specs = {}
        self.answers = []
        E.ghost['globals-modelled'] = True
        self.mgr = Manager(self)
        E.ghost['globals'] = {(id(vars(cli)), '_WORKSPACE_MANAGER'): self.mgr}
        E.contracts[cli._input] = self.ask
        for f in (os.path.exists, os.path.isdir, os.path.isfile):
            E.contracts[f] = lambda I, a, k, f=f: tm.boolvar('fs.' + f.__name__, pathcode(a[0]))
        E.contracts[os.path.dirname] = lambda I, a, k: Str('dirname', tm.app('dirname', 'Int', pathcode(a[0])))
        E.contracts[os.path.abspath] = lambda I, a, k: Str('abspath', tm.app('abspath', 'Int', pathcode(a[0])))
        E.contracts[os.path.samefile] = lambda I, a, k: tm.boolvar('samefile', code(a[0]), code(a[1]))
        E.contracts[os.makedirs] = self.makedirs
        E.contracts[cli._dir_size] = lambda I, a, k: E.fresh_nat('size')
        E.contracts[subprocess.check_call] = lambda I, a, k: 0

        def str_attr(I, o, name):
            if name == 'lower':
                return Native(lambda: lower(E, o), name)
            raise Unsupported('str.%s' % name)
        I.str_attr = str_attr
        E.contracts[cli.Command.new_monitor.__func__] = lambda I, a, k: Recorder(E, 'monitor')

    def makedirs(self, I, a, k):
        self.events.append(('makedirs', {'path': a[0]}, True))

    def confirmed(self, switch):
        """the user agreed: by the option, or by the answer"""
        if switch:
            self.E.prove('not-asked', not self.answers)
            return True
        self.E.prove('asked-once', len(self.answers) == 1)
        if len(self.answers) != 1:
            return False
        return self.E.branch(tm.streq(lower(self.E, self.answers[0]), 'yes'))

    def ask(self, I, a, k):
        """contract of _input (proved in `question`): the answer, or the default if it is empty"""
        s = Str('answer')
        self.answers.append(s)
        return s

    # ---- state of the manager
    def exists(self, w):
        E = self.E
        for x, there in reversed(self.created):
            if E.branch(tm.eq(code(x), code(w))):
                return there
        return E.branch(tm.boolvar('workspace.exists', code(w)))

    def config_current(self, w):
        E = self.E
        for x, c in reversed(self.cfgset):
            if E.branch(tm.eq(code(x), code(w))):
                return c
        if E.branch(tm.boolvar('no.current.config', code(w))):
            return None
        return Str('config', tm.app('current.config', 'Int', code(w)))

    def call(self, name, b):
        E, I = self.E, self.I
        if name == 'get_all_config_version' and b['config_name'] is not None and self.E.branch(tm.streq(Str('c', code(b['config_name'])), '')):
            raise PyRaise(FileNotFoundError, 'no such configuration')
        if name in CHANGES:
            fails = self.faults and E.choice('fails.%d' % len(self.events))
            self.events.append((name, b, not fails))
            if fails:
                self.failed = True
                raise PyRaise(WorkspaceError, name)
            self.version += 1
        v = tm.const(self.version)
        if name not in ('set_current_workspace_name', 'set_current_config_name') and any(
                x is None for k, x in b.items() if k.endswith('_name')):
            raise PyRaise(TypeError, 'path of None')
        if name == 'get_current_workspace':
            return Recorder(E, 'workspace', fields={'name': self.cur})
        if name == 'set_current_workspace_name':
            self.cur = b['workspace_name']
        if name == 'create_workspace':
            self.created.append((b['workspace_name'], True))
        if name == 'delete_workspace':
            self.created.append((b['workspace_name'], False))
        if name == 'set_current_config_name':
            self.cfgset.append((b['workspace_name'], b['config_name']))
        if name in ('upgrade_all_config', 'get_all_config_version', 'get_all_default_config_version'):
            return tuple(self.ver(name, j, b) for j in range(3))
        if name in CHANGES:
            return Recorder(E, name)
        if name == 'get_current_config_name':
            if not self.exists(b['workspace_name']):
                self.failed = True
                raise PyRaise(WorkspaceError, 'no workspace')
            return self.config_current(b['workspace_name'])
        if name == 'workspace_exists':
            return tm.boolvar('workspace.exists', code(b['workspace_name'])) if not self.created else self.exists(b['workspace_name'])
        if name == 'config_exists':
            return tm.boolvar('config.exists', code(b['workspace_name']), code(b['config_name']))
        if name == 'get_workspace_names':
            return self.names('workspaces', v)
        if name == 'get_config_names':
            if not self.exists(b['workspace_name']):
                self.failed = True
                raise PyRaise(WorkspaceError, 'no workspace')
            return self.names('configs', code(b['workspace_name']), v)
        if name == 'get_input_paths':
            return self.names('input.paths', code(b['workspace_name']), v)
        if name == 'get_input_names':
            return self.names('input.names', code(b['workspace_name']), self.pattern(b['pattern']), v)
        if name == 'get_output_names':
            return self.names('output.names', code(b['workspace_name']), code(b['config_name']), self.pattern(b.get('pattern')), v)
        if name in ('get_config_file', 'get_outputs_path', 'get_config_path', 'get_inputs_path', 'get_workspace_path'):
            return self.path(name, *[x for v_ in b.values() for x in (v_ if isinstance(v_, tuple) else (v_,))])
        raise Unsupported('manager operation %s' % name)

    def path(self, name, *parts):
        if any(p is None for p in parts):
            raise PyRaise(TypeError, 'join')
        return Str(name, tm.app('%s.%d' % (name, len(parts)), 'Int', *[code(p) for p in parts]))

    def ver(self, name, j, b):
        return tm.app('%s.%d' % (name, j), 'Int', *[code(x) for x in b.values()])

    def pattern(self, p):
        if p is None:
            return tm.const(-1)
        c = keycode(p)
        return c if c is not None else tm.var('id%d' % id(p), 'Int')

    def names(self, *ident):
        key = ('names',) + ident
        if key not in self.specs:
            self.specs[key] = Names(self, ident, self.E.ghost.get('loop.' + ident[0]))
        return self.specs[key]

    # ---- arguments
    def optional(self, name):
        """an option: absent, or any string"""
        return None if self.E.choice('no.' + name) else Str(name)

    def named(self, name):
        """an argument that is given"""
        v = Str(name)
        self.E.assume(tm.Not(tm.streq(v, '')))
        return v

    def given(self, v):
        """the option holds a value"""
        return v is not None and self.E.branch(tm.Not(tm.streq(v, '')))

    def args(self, **fields):
        return Recorder(self.E, 'arguments', fields=fields)

    def workspace(self, a):
        """the workspace a command acts on: the one named, else the current one (None: none)"""
        if self.given(a):
            return a
        return self.cur0 if self.given(self.cur0) else None

    def config(self, w, c):
        """the configuration a command acts on; second result False: the workspace does not exist"""
        if self.given(c):
            return c, True
        if w is None:
            return None, True
        if not self.E.branch(tm.boolvar('workspace.exists', code(w))):
            return None, False
        if self.E.branch(tm.boolvar('no.current.config', code(w))):
            return None, True
        x = Str('config', tm.app('current.config', 'Int', code(w)))
        return (x if self.given(x) else None), True

    def exists0(self, w):
        """the workspace existed when the command started"""
        return self.E.branch(tm.boolvar('workspace.exists', code(w)))

    def current0(self, w):
        """the configuration that was current in it"""
        if self.E.branch(tm.boolvar('no.current.config', code(w))):
            return None
        return Str('config', tm.app('current.config', 'Int', code(w)))

    # ---- effects
    def expect(self, e, want, ok=True):
        """the changes made are exactly `want` (list of (operation, {argument: value})), in order, up to the first that failed;
        the command reports an error iff one failed (ok=False: it must report an error in any case)"""
        E = self.E
        got = self.events
        bad = [i for i, x in enumerate(got) if not x[2]]
        E.prove('stops-at-failure', not bad or bad == [len(got) - 1])
        n = len(got)
        E.prove('effects', n <= len(want) and all(got[i][0] == want[i][0] for i in range(n)) and (bool(bad) or n == len(want)),
                detail='did %r, expected %r' % ([g[0] for g in got], [w[0] for w in want]))
        for i in range(min(n, len(want))):
            if got[i][0] != want[i][0]:
                return
            for k, v in want[i][1].items():
                E.prove('on-%s.%s' % (want[i][0], k), eqs(got[i][1].get(k), v), detail='%r instead of %r' % (got[i][1].get(k), v))
        E.prove('reported' if (bad or not ok) else 'no-error', (e is not None) == bool(bad or not ok), detail='%r' % (e,))
        if e is not None:
            E.prove('error-kind', e in (CommandError, WorkspaceError), detail='%r' % (e,))


class Manager(Ext):
    types = (WorkspaceManager,)

    def __init__(self, W):
        self.W = W

    def __repr__(self):
        return '<workspace manager>'

    def attr(self, I, name):
        if name == 'workspaces_dir':
            return Str('workspaces_dir')
        if not hasattr(WorkspaceManager, name):
            raise PyRaise(AttributeError, name)
        fn = inspect.getattr_static(WorkspaceManager, name)
        static = isinstance(fn, (staticmethod, classmethod))
        sig = inspect.signature(getattr(fn, '__func__', fn))

        def f(*a, **k):
            try:
                b = sig.bind(*((() if isinstance(fn, staticmethod) else (None,)) + a), **k)
            except TypeError as e:
                raise PyRaise(TypeError, str(e))
            b.apply_defaults()
            d = dict(b.arguments)
            if not isinstance(fn, staticmethod):
                d.pop(next(iter(sig.parameters)))
            return self.W.call(name, d)
        return Native(f, name)


def unique(E, W, kind):
    """contract of ensure_unique_name (proved in `unique-name`): the name itself if it is free, else some free name"""
    def f(I, a, k):
        v = list(a) + list(k.values())
        if kind == 'configs' and not W.exists(v[-2]):
            W.failed = True
            raise PyRaise(WorkspaceError, 'no workspace')
        ident = ('workspaces',) if kind == 'workspaces' else ('configs', code(v[-2]))
        nm = W.names(*ident, tm.const(W.version))
        new = v[-1]
        if new is None:
            raise Unsupported('no new name')
        return W.free(nm, new)
    return f


def free(W, nm, new):
    E = W.E
    if not E.branch(nm.member(new)):
        return new
    u = Str('unique', tm.app('unique.' + nm.ident[0], 'Int', code(new), *nm.ident[1:]))
    E.assume([tm.Not(nm.member(u)), tm.Not(tm.streq(u, ''))])
    return u


World.free = free
