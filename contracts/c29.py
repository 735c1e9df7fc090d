"""Settings: the user's configuration file, the working directory's, the default; over arbitrary file system states."""
from .base import *
from pyvc.fs import FS, Path, same, kind
from pyvc.ext import Ext, Text, SMap, keycode
from pyvc.interp import Native
import builtins
import os
import pkgutil
import dedop.util.config as cf

X = Str('X')           # an arbitrary setting name


class Home(FS):
    """two arbitrary, different directories: the user's and the working directory"""

    def __init__(self, E, I):
        FS.__init__(self, E, I)
        self.home, self.cwd = self.root.child('home'), self.root.child('cwd')
        C = E.contracts
        self.user = self.home.child('.dedop').child('config.py')
        self.local = self.cwd.child('dedop-config.py')

        def path(v):
            if isinstance(v, str):
                if os.path.isabs(v) or v.startswith('~'):
                    raise Unsupported('path %r' % v)
                p = self.cwd
                for c in v.split('/'):
                    p = p if c in ('', '.') else p.child(c)
                return p
            return v
        for f in (os.path.exists, os.path.isdir, os.path.isfile, os.path.lexists, os.mkdir, os.makedirs, open, os.listdir,
                  os.remove, os.unlink, os.rmdir):
            C[f] = (lambda g: lambda I, a, k: g(I, [path(a[0])] + list(a[1:]), k))(C[f])
        join = C[os.path.join]
        C[os.path.join] = lambda I, a, k: os.path.join(*a) if all(isinstance(x, str) for x in a) else join(I, a, k)
        C[os.path.abspath] = C[os.path.realpath] = lambda I, a, k: path(a[0])

        def expanduser(I, a, k):
            v, = a
            if isinstance(v, Path):
                return v
            if isinstance(v, str):
                if v == '~' or v.startswith('~/'):
                    p = self.home
                    for c in v[2:].split('/'):
                        p = p if c in ('', '.') else p.child(c)
                    return p
                return v
            if isinstance(v, Str):
                return Str('expanded', tm.app('expanduser', 'Int', v.code))
            raise Unsupported('expanduser %r' % (v,))
        C[os.path.expanduser] = expanduser

        def dirname(I, a, k):
            if isinstance(a[0], Path):
                return a[0].parent()
            return os.path.dirname(a[0])
        C[os.path.dirname] = dirname
        self.printed = []
        C[print] = lambda I, a, k: self.printed.append(a)
        I.attr_models.pop((Str, 'x'), None)


def state(E, value):
    E.ghost['globals-modelled'] = True
    E.ghost['globals'] = {(id(vars(cf)), '_CONFIG'): value}


def now(E):
    return E.ghost['globals'].get((id(vars(cf)), '_CONFIG'))


class Value(Ext):
    """an arbitrary value a configuration file assigns"""
    types = (object,)

    def __init__(self, what):
        self.what = what

    def __repr__(self):
        return 'Value(%s)' % self.what


def assigned(E, label):
    """what one file assigns: at X arbitrary, elsewhere whatever"""
    v, has = Value(label), {}

    def look(c):
        if E.branch(tm.eq(c, X.code)):
            return v if E.branch(tm.boolvar('assigns.' + label, X.code)) else SDict.MISSING
        return Value(label + '?') if E.branch(tm.boolvar('assigns.' + label, c)) else SDict.MISSING
    return look, v


def at(I, d, x):
    if isinstance(d, SMap):
        return d.look(x)
    from pyvc.ext import lookup_of
    return lookup_of(I, d)(keycode(x))


class Oops(Exception):
    pass


def reader(E, I, fs, kind_=Oops):
    """contract of read_python_config"""
    out = {}

    def read(I, a, k):
        p = a[0] if a else k['file']
        if isinstance(p, str):
            p = E.contracts[os.path.abspath](I, [p], {})
        if not isinstance(p, Path):
            raise Unsupported('configuration file %r' % (p,))
        w = 'user' if same(E, p, fs.user) else 'local' if same(E, p, fs.local) else 'other'
        E.prove('only-the-two-files', w != 'other')
        E.prove('read-once', w not in out)
        if not fs.isfile(p):
            raise PyRaise(FileNotFoundError, 'missing')
        if E.choice(w + '.broken'):
            out[w] = None
            raise PyRaise(kind_, 'failed')
        look, v = assigned(E, w)
        out[w] = (v, fs.log)
        return SMap(E, look, name=w)
    E.contracts[cf.read_python_config] = read
    return out


def creator(E, fs):
    """contract of write_default_config_file: creates the user's file, or fails with an OSError"""
    made = []

    def create(I, a, k):
        E.prove('never-overwritten', not fs.exists(fs.user))
        made.append(1)
        fs.fault('create')
        if fs.isfile(fs.user.parent()):
            raise PyRaise(FileExistsError, 'file')
        fs.effect('mkdirs', fs.user.parent())
        fs.effect('write', fs.user, 'template')
        return fs.user
    E.contracts[cf.write_default_config_file] = create
    return made


def first(label, kind_):
    @contract('C29', 'first-use/' + label)
    def check(E, I):
        fs = Home(E, I)
        state(E, None)
        there = fs.exists(fs.user)
        broken_parent = not there and fs.isfile(fs.user.parent())
        out, made = reader(E, I, fs, kind_), creator(E, fs)
        e, r = raises(E, I, cf.get_config)
        E.prove('no-error', e is None)
        if e is not None:
            return
        E.prove('created-if-missing', bool(made) == (not there))
        E.prove('remembered', now(E) is r)
        isuser, islocal = fs.isfile(fs.user), fs.isfile(fs.local)
        E.prove('user-file-read', ('user' in out) == isuser)
        E.prove('local-file-read', ('local' in out) == islocal)
        want = SDict.MISSING
        for w in ('local', 'user'):
            if out.get(w) and E.branch(tm.boolvar('assigns.' + w, X.code)):
                want = out[w][0]
                break
        got = at(I, r, X)
        E.prove('local-over-user', got is want)
        bad = (1 if E.ghost.get('io-error') or broken_parent else 0) + sum(1 for w in out if out[w] is None)
        E.prove('warned', (len(fs.printed) > 0) == (bad > 0))


for _l, _k in (('any-error', Oops), ('unreadable', OSError), ('syntax', SyntaxError)):
    first(_l, _k)


@contract('C29', 'later-use')
def later(E, I):
    fs = Home(E, I)
    look, v = assigned(E, 'loaded')
    m = SMap(E, look, name='loaded')
    state(E, m)
    out, made = reader(E, I, fs), creator(E, fs)
    e, r = raises(E, I, cf.get_config)
    E.prove('no-error', e is None)
    E.prove('same-settings', r is m and now(E) is m and m.look(X) is (v if E.branch(tm.boolvar('assigns.loaded', X.code)) else SDict.MISSING))
    E.prove('read-once', not out and not made and not fs.log)


@contract('C29', 'empty-settings')
def empty(E, I):
    """settings loaded from nothing are still loaded"""
    fs = Home(E, I)
    d = SDict(E, {})
    state(E, d)
    out, made = reader(E, I, fs), creator(E, fs)
    e, r = raises(E, I, cf.get_config)
    E.prove('same-settings', e is None and r is d and now(E) is d)
    E.prove('read-once', not out and not made and not fs.log)


def getter(E):
    look, v = assigned(E, 'loaded')
    m = SMap(E, look, name='loaded')
    E.contracts[cf.get_config] = lambda I, a, k: m
    return v


@contract('C29', 'value')
def value(E, I):
    fs = Home(E, I)
    state(E, None)
    v = getter(E)
    d = Value('default')
    shape = 'none' if E.choice('no-default') else 'keyword' if E.choice('default-by-keyword') else 'position'
    a, k = ((), {}) if shape == 'none' else ((), {'default': d}) if shape == 'keyword' else ((d,), {})
    e, r = raises(E, I, cf.get_config_value, X, *a, **k)
    if E.branch(tm.streq(X, '')):
        E.prove('name-required', e is not None and issubclass(e, ValueError))
        return
    E.prove('no-error', e is None)
    want = v if E.branch(tm.boolvar('assigns.loaded', X.code)) else d if shape != 'none' else None
    E.prove('value-or-default', r is want)


@contract('C29', 'value-no-name')
def noname(E, I):
    fs = Home(E, I)
    state(E, None)
    getter(E)
    e, r = raises(E, I, cf.get_config_value, None)
    E.prove('name-required', e is not None and issubclass(e, ValueError))


@contract('C29', 'value-null')
def null(E, I):
    """a setting assigned None is None, not the default"""
    state(E, None)
    E.contracts[cf.get_config] = lambda I, a, k: SMap(E, lambda c: None if E.branch(tm.eq(c, X.code)) else SDict.MISSING)
    E.assume(tm.Not(tm.streq(X, '')))
    e, r = raises(E, I, cf.get_config_value, X, Value('default'))
    E.prove('assigned-none', e is None and r is None)


@contract('C29', 'path')
def path(E, I):
    fs = Home(E, I)
    state(E, None)
    s, d = Str('setting'), Str('default')
    vals = {}

    def get(I, a, k):
        b = dict(zip(('name', 'default'), a), **k)
        E.prove('name', b.get('name') is X)
        if E.choice('assigned'):
            vals['r'] = None if E.choice('assigned-none') else s
        else:
            vals['r'] = b.get('default')
            E.prove('default', vals['r'] is want_default)
        return vals['r']
    E.contracts[cf.get_config_value] = get
    want_default = d if E.choice('default-given') else None
    e, r = raises(E, I, cf.get_config_path, X, *([d] if want_default is not None else []))
    E.prove('no-error', e is None)
    if 'r' not in vals:
        raise Unsupported('setting not through get_config_value')
    w = vals['r']
    if w is None:
        E.prove('none', r is None)
    else:
        E.prove('expanded', isinstance(r, Str) and tm.eq(r.code, tm.app('expanduser', 'Int', w.code)))


class Pointer(Ext):
    """a text stream given by the caller"""

    def __init__(self, E, text):
        self.E, self.text, self.closed, self.reads = E, text, 0, 0

    def attr(self, I, name):
        if name == 'read':
            def read():
                self.reads += 1
                return self.text if self.reads == 1 else ''
            return Native(read, name)
        if name == 'close':
            def close():
                self.closed += 1
            return Native(close, name)
        raise Unsupported('stream.%s' % name)

    def eq(self, I, o):
        return o is self


class Source(Ext):
    def __init__(self, what):
        self.what = what

    def eq(self, I, o):
        return o is self


def execution(E, I):
    """contracts of compile and exec: the assignments go to the locals, or to the globals if there are none"""
    text, code = Source('text'), Source('code')
    look, v = assigned(E, 'file')
    ran = []

    def comp(I, a, k):
        b = dict(zip(('source', 'filename', 'mode'), a), **k)
        E.prove('text-of-the-file', b['source'] is text and b['mode'] == 'exec')
        if E.choice('syntax-error'):
            E.ghost['bad'] = True
            raise PyRaise(SyntaxError, 'syntax')
        return code

    def ex(I, a, k):
        a = list(a) + [None] * (3 - len(a))
        E.prove('code-of-the-file', a[0] is code or a[0] is text)
        g, l = a[1], a[2]
        t = l if l is not None else g
        if not isinstance(t, (SDict, SMap)):
            raise Unsupported('exec in %r' % (t,))
        ran.append(t)
        if E.choice('run-time-error'):
            E.ghost['bad'] = True
            raise PyRaise(RuntimeError, 'failed')
        from pyvc.ext import as_map
        m = as_map(I, t)
        f = m.snapshot()

        def h(c):
            r = look(c)
            return f(c) if r is SDict.MISSING else r
        m.restore(h)
        if t is g:
            m.put('__builtins__', Value('builtins'))
        return None
    E.contracts[compile] = comp
    E.contracts[exec] = ex
    return text, v


def outcome(E, I, e, r, v):
    if E.ghost.get('bad') or E.ghost.get('io-error'):
        E.prove('error-passed-on', e is not None)
        return
    E.prove('no-error', e is None)
    if e is None:
        want = v if E.branch(tm.boolvar('assigns.file', X.code)) else SDict.MISSING
        E.prove('its-assignments', at(I, r, X) is want)


@contract('C29', 'read-stream')
def stream(E, I):
    text, v = execution(E, I)
    p = Pointer(E, text)
    e, r = raises(E, I, cf.read_python_config, p)
    outcome(E, I, e, r, v)
    E.prove('stream-left-open', p.closed == 0)


@contract('C29', 'read-file')
def readfile(E, I):
    fs = Home(E, I)
    text, v = execution(E, I)
    name = Str('file')
    opened = []

    def opn(I, a, k):
        E.prove('that-file', a[0] is name and (list(a[1:2]) or [k.get('mode', 'r')])[0] in ('r', 'rt', 'rb'))
        fs.fault('open')
        p = Pointer(E, text)
        opened.append(p)
        from pyvc.interp import CtxMgr
        return p
    E.contracts[open] = opn
    e, r = raises(E, I, cf.read_python_config, name)
    outcome(E, I, e, r, v)
    E.prove('closed', all(p.closed for p in opened))


class Data(Ext):
    def __init__(self, raw=True):
        self.raw = raw

    def attr(self, I, name):
        if name == 'decode' and self.raw:
            return Native(lambda *a, **k: Data(False), name)
        raise Unsupported('resource.%s' % name)


@contract('C29', 'create')
def create(E, I):
    """the user's file does not exist (see never-overwritten)"""
    fs = Home(E, I)
    if fs.exists(fs.user):
        return E.assume(False)
    fileparent = fs.isfile(fs.user.parent())
    nohome = not fileparent and not fs.isdir(fs.home)

    def data(I, a, k):
        E.prove('template', tuple(a) == ('dedop.util', 'config-template.py'))
        return Data()
    E.contracts[pkgutil.get_data] = data
    e, r = raises(E, I, cf.write_default_config_file)
    for x in fs.log:
        E.prove('only-the-users-file', x[0] in ('mkdirs', 'write') and any(same(E, x[1], q) for q in (
            [fs.user.parent()] if x[0] == 'mkdirs' else [fs.user])))
    if e is not None:
        E.prove('only-if-not-possible', E.ghost.get('io-error', False) or fileparent or nohome)
        E.prove('error-kind', issubclass(e, OSError))
        return
    c = fs.content(fs.user)
    E.prove('from-the-template', isinstance(c, Data))
    E.prove('its-path', isinstance(r, Path) and same(E, r, fs.user))
