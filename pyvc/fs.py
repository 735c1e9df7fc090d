"""File system as seen by the code under contract: assumed contracts of os, os.path, shutil, open, fnmatch.

A path is the workspaces directory followed by components (literal, symbolic or formatted names).  Joining an
empty name gives the same directory; a name containing a separator, '.' or '..' gives a path that is somewhere
else (WILD).  Effects are recorded in order in the heap cell `log`; questions about the state are answered from
the log, newest first, and otherwise from the arbitrary initial state.  Every effect may fail with an OSError
before it happens.  Symbolic links and other processes are not modelled."""
import builtins
import fnmatch
import ntpath
import os
import pkgutil
import posixpath
import shutil
from . import terms as tm
from .terms import T, F, Str
from .engine import SDict, SList, SObj, PyRaise, Unsupported, Opaque
from .ext import Ext, Text, Bag, keycode, text
from .interp import CtxMgr, Native


class Wild:
    def __repr__(self):
        return '<somewhere else>'


WILD = Wild()


def sep(c):
    return tm.boolvar('contains.separator', c)


def kind(E, name):
    """'empty', 'plain' or 'wild' (containing a separator, or '.', '..')"""
    if isinstance(name, str):
        return 'empty' if not name else 'wild' if '/' in name or name in ('.', '..') else 'plain'
    if isinstance(name, Str):
        if E.branch(tm.streq(name, '')):
            return 'empty'
        if E.branch(tm.streq(name, '.')) or E.branch(tm.streq(name, '..')) or E.branch(sep(name.code)):
            return 'wild'
        return 'plain'
    if isinstance(name, Text):
        lit = False
        for p in name.parts:
            if isinstance(p, str):
                if '/' in p:
                    return 'wild'
                lit = lit or p.strip('.') != ''
            elif isinstance(p, Str):
                if E.branch(sep(p.code)):
                    return 'wild'
            elif not (p[0].endswith('d') and isinstance(p[1], T)):
                raise Unsupported('path component %r' % (name,))
        if not lit:
            raise Unsupported('path component %r' % (name,))
        return 'plain'
    raise Unsupported('path component %r' % (name,))


class Path(Ext):
    types = (str,)

    def __init__(self, E, comps, base=None):
        self.E, self.comps, self.base = E, tuple(comps), base

    def __repr__(self):
        return 'Path(%s)' % '/'.join(map(repr, self.comps))

    @property
    def wild(self):
        return WILD in self.comps

    def child(self, c):
        return Path(self.E, self.comps + (c,))

    def parent(self):
        return Path(self.E, self.comps[:-1])

    def code(self):
        r = tm.var('root', 'Int')
        for c in self.comps:
            if c is WILD:
                raise Unsupported('state of a path outside the workspaces directory')
            r = tm.app('child', 'Int', r, keycode(c))
        return r

    def eq(self, I, o):
        if isinstance(o, Path) and not self.wild and not o.wild:
            return same(self.E, self, o)
        if isinstance(o, (str, Str)):
            return False
        raise Unsupported('comparison of paths')

    def binop(self, I, op, other, left):
        raise Unsupported('operator on a path')

    def contains(self, I, x):
        raise Unsupported('text of a path')


def samec(E, a, b):
    if a is b:
        return True
    if a is WILD or b is WILD:
        raise Unsupported('comparison with a path somewhere else')
    return E.branch(tm.eq(keycode(a), keycode(b)))


def same(E, a, b):
    return len(a.comps) == len(b.comps) and all(samec(E, x, y) for x, y in zip(a.comps, b.comps))


def under(E, q, p):
    """is q equal to or below p?"""
    return len(q.comps) >= len(p.comps) and all(samec(E, x, y) for x, y in zip(q.comps, p.comps))


class FS:
    def __init__(self, E, I, faults=True):
        self.E, self.I, self.faults = E, I, faults
        self.cell = SObj(E, None, 'fs', fields={'log': ()})
        self.root = Path(E, ())
        self.failed = False
        self.X = None
        install(self)

    @property
    def log(self):
        return self.cell.get('log')

    def effect(self, *e):
        self.cell.set('log', self.log + (e,))

    def fault(self, what):
        if self.faults and self.E.choice(self.E.fresh('io-error.' + what)):
            self.E.ghost['io-error'] = True
            raise PyRaise(OSError, what)

    # -- questions
    def origin(self, q, log=None):
        """('gone',) | ('dir',) | ('file', content) | ('initial', path)"""
        E = self.E
        log = self.log if log is None else log
        for i in range(len(log) - 1, -1, -1):
            e = log[i]
            op = e[0]
            if op == 'abstract':
                r = e[1](q)
                if r is not None:
                    return r
                continue
            if op == 'mkdirs':
                if under(E, e[1], q):
                    r = self.origin(q, log[:i])
                    # created unless it was there
                    return r if self.is_there(r) else ('dir',)
            elif op in ('rmtree', 'remove'):
                if under(E, q, e[1]):
                    return ('gone',)
            elif op in ('move', 'rename'):
                if under(E, q, e[2]):
                    return self.origin(Path(E, e[1].comps + q.comps[len(e[2].comps):]), log[:i])
                if under(E, q, e[1]):
                    return ('gone',)
            elif op == 'copytree':
                if under(E, q, e[2]):
                    return self.origin(Path(E, e[1].comps + q.comps[len(e[2].comps):]), log[:i])
            elif op == 'write':
                if same(E, q, e[1]):
                    return ('file', e[2])
            else:
                raise Unsupported('effect %s' % op)
        return ('initial', q)

    def is_there(self, r):
        if r[0] == 'initial':
            return self.exists0(r[1])
        return r[0] != 'gone'

    def exists0(self, q):
        E = self.E
        if q.wild:
            return E.choice(E.fresh('exists.elsewhere'))
        c = q.code()
        if E.branch(tm.boolvar('exists', c)):
            if not q.comps:
                E.assume(tm.boolvar('isdir', c))
            while q.comps:
                q = q.parent()
                p = q.code()
                E.assume([tm.boolvar('exists', p), tm.boolvar('isdir', p), tm.boolvar('nonempty', p)])
            return True
        E.assume(tm.Not(tm.boolvar('isdir', c)))
        E.assume(tm.Not(tm.boolvar('nonempty', c)))
        return False

    def exists(self, q):
        if q.wild:
            return self.exists0(q)
        return self.is_there(self.origin(q))

    def isdir(self, q):
        if q.wild:
            return self.E.choice(self.E.fresh('isdir.elsewhere'))
        r = self.origin(q)
        if r[0] == 'initial':
            return self.exists0(r[1]) and self.E.branch(tm.boolvar('isdir', r[1].code()))
        return r[0] == 'dir'

    def isfile(self, q):
        return self.exists(q) and not self.isdir(q)

    def nonempty(self, q):
        """a directory with entries"""
        if q.wild:
            return self.E.choice(self.E.fresh('nonempty.elsewhere'))
        r = self.origin(q)
        if r[0] == 'initial':
            if any(e[0] != 'mkdirs' for e in self.log):
                raise Unsupported('content of a changed directory')
            if not self.isdir(q):
                return False
            return self.E.branch(tm.boolvar('nonempty', r[1].code()))
        if r[0] == 'dir':
            return any(len(e[1].comps) > len(q.comps) and under(self.E, e[1], q) for e in self.log if e[0] in ('mkdirs', 'write'))
        return False

    # -- effects
    def need(self, cond, what, cls=FileNotFoundError):
        if not cond:
            raise PyRaise(cls, what)

    def makedirs(self, p, exist_ok=False):
        if self.exists(p):
            self.need(exist_ok and self.isdir(p), 'exists', FileExistsError)
            return
        self.fault('makedirs')
        self.effect('mkdirs', p)

    def mkdir(self, p):
        self.need(not self.exists(p), 'exists', FileExistsError)
        self.need(self.isdir(p.parent()), 'no parent')
        self.fault('mkdir')
        self.effect('mkdirs', p)

    def rmtree(self, p):
        self.need(self.isdir(p), 'not a directory', NotADirectoryError)
        self.fault('rmtree')
        self.effect('rmtree', p)

    def rmdir(self, p):
        self.need(self.isdir(p), 'not a directory', NotADirectoryError)
        self.need(not self.nonempty(p), 'not empty', OSError)
        self.fault('rmdir')
        self.effect('rmtree', p)

    def remove(self, p):
        self.need(self.exists(p), 'missing')
        self.need(not self.isdir(p), 'directory', IsADirectoryError)
        self.fault('remove')
        self.effect('remove', p)

    def copytree(self, a, b, dirs_exist_ok=False):
        self.need(self.isdir(a), 'missing')
        if self.exists(b):
            if dirs_exist_ok:
                raise Unsupported('merging copy')
            raise PyRaise(FileExistsError, 'exists')
        self.fault('copytree')
        self.effect('copytree', a, b)

    def move(self, a, b):
        self.need(self.exists(a), 'missing')
        if not a.wild and not b.wild and same(self.E, a, b):
            return b
        if self.isdir(b):
            b = b.child(a.comps[-1])
            self.need(not self.exists(b), 'exists', shutil.Error)
        elif self.exists(b):
            self.need(not self.isdir(a), 'not a directory', NotADirectoryError)
        self.fault('move')
        self.effect('move', a, b)
        return b

    def rename(self, a, b):
        self.need(self.exists(a), 'missing')
        if not a.wild and not b.wild and same(self.E, a, b):
            return
        if self.isdir(b):
            self.need(self.isdir(a), 'is a directory', IsADirectoryError)
            self.need(not self.nonempty(b), 'not empty', OSError)
        elif self.exists(b):
            self.need(not self.isdir(a), 'not a directory', NotADirectoryError)
        self.fault('rename')
        self.effect('rename', a, b)

    def copyfile(self, src, b, into_dir=True):
        if isinstance(src, Path):
            self.need(self.isfile(src), 'missing')
            content = self.content(src)
            base = src.comps[-1]
        else:
            base = basename(self.E, src)
            if kind(self.E, base) != 'plain' or self.E.choice(self.E.fresh('source.unreadable')):
                self.E.ghost['bad-source'] = True
                raise PyRaise(OSError, 'source is not a file')
            content = ('external', src)
        if into_dir and self.isdir(b):
            b = b.child(base)
        self.need(not self.isdir(b), 'directory', IsADirectoryError)
        self.need(self.isdir(b.parent()), 'no parent')
        self.fault('copy')
        self.effect('write', b, content)
        return b

    def content(self, p):
        r = self.origin(p)
        if r[0] == 'file':
            return r[1]
        if r[0] == 'initial':
            return ('content', r[1])
        raise PyRaise(IsADirectoryError if r[0] == 'dir' else FileNotFoundError, p)

    def listdir(self, p):
        self.need(self.isdir(p), 'missing')
        E, log = self.E, self.log
        if self.X is None:
            raise Unsupported('directory listing')

        def count(x):
            nm = self.X if E.branch(tm.eq(x, self.X.code)) else Str('entry', x)
            return 1 if self.exists(p.child(nm)) else 0

        def facts(c):
            E.assume([tm.Not(sep(c))] + [tm.ne(c, tm.const(tm.strcode(s))) for s in ('', '.', '..')])
        b = Bag(E, self.X, count, 'listing', facts=facts)
        self.E.ghost['listing'] = b
        n = b.enum()[0]
        E.assume(tm.ne(n, 0) if self.nonempty(p) else tm.eq(n, 0))
        return b


def basename(E, s):
    if isinstance(s, Path):
        if not s.comps or s.wild:
            raise Unsupported('last component of %r' % s)
        return s.comps[-1]
    if isinstance(s, Str):
        if not E.branch(sep(s.code)):
            return s
        r = Str('basename', tm.app('basename', 'Int', s.code))
        E.assume([tm.Not(sep(r.code)), tm.ne(r.code, s.code)])
        return r
    raise Unsupported('basename of %r' % (s,))


class WFile(Ext):
    """file opened for writing or reading"""

    def __init__(self, fs, path, mode):
        self.fs, self.path, self.mode = fs, path, mode
        self.cell = SObj(fs.E, None, 'file', fields={'text': None, 'pos': 'start', 'open': True, 'tail': mode == 'r+'})

    def __repr__(self):
        return '<file %r>' % self.path

    def flush_effect(self):
        """the state of the file as it would be found if closed now"""
        t = self.cell.get('text')
        if self.mode == 'r+':
            if t is not None:
                self.fs.effect('write', self.path, ('overlaid', t) if self.cell.get('tail') else t)
            return
        self.fs.effect('write', self.path, '' if t is None else t)

    def attr(self, I, name):
        nat = lambda f: Native(f, name)
        c = self.cell
        if name == 'write' and self.mode in ('w', 'wb', 'x', 'r+'):
            def write(v):
                if self.mode == 'r+' and c.get('pos') != 'start' and c.get('text') is None:
                    raise Unsupported('write position')
                old = c.get('text')
                c.set('text', v if old is None else ('both', old, v))
                c.set('pos', 'end')
                return None
            return nat(write)
        if name == 'seek':
            def seek(p, whence=0):
                if tm.as_const(p) != 0 or whence != 0:
                    raise Unsupported('seek')
                c.set('pos', 'start')
            return nat(seek)
        if name == 'truncate' and self.mode in ('r+', 'w'):
            def truncate(*a):
                if a:
                    raise Unsupported('truncate')
                if c.get('pos') == 'start' and (c.get('text') is None or True):
                    c.set('text', '')
                c.set('tail', False)
            return nat(truncate)
        if name in ('readline', 'read') and self.mode in ('r', 'r+', 'rb'):
            def read():
                if c.get('pos') != 'start':
                    return ''
                c.set('pos', 'end')
                return self.fs.content(self.path)
            return nat(read)
        if name == 'close':
            return nat(self.close)
        raise Unsupported('file.%s' % name)

    def close(self):
        if self.cell.get('open'):
            self.cell.set('open', False)
            if self.mode not in ('r', 'rb'):
                self.flush_effect()


def opened(fs, p, mode):
    m = {'rt': 'r', 'wt': 'w', 'w+': 'w', 'xb': 'x', 'xt': 'x'}.get(mode, mode)
    if m in ('r', 'rb', 'r+'):
        fs.need(fs.exists(p), 'missing')
        fs.need(not fs.isdir(p), 'directory', IsADirectoryError)
    elif m in ('w', 'wb', 'x'):
        fs.need(fs.isdir(p.parent()), 'missing')
        fs.need(not fs.isdir(p), 'directory', IsADirectoryError)
        if m == 'x':
            fs.need(not fs.exists(p), 'exists', FileExistsError)
    else:
        raise Unsupported('open mode %r' % (mode,))
    fs.fault('open')
    if m in ('w', 'wb', 'x'):
        fs.effect('write', p, '')        # created or emptied at once
    return WFile(fs, p, m)


def install(fs):
    E, I = fs.E, fs.I
    C = E.contracts

    def path(v):
        if not isinstance(v, Path):
            raise Unsupported('path %r' % (v,))
        return v

    def join(I, a, k):
        if not any(I.symbolic(x) for x in a):
            return os.path.join(*a)
        p = a[0]
        if isinstance(p, (str, Str, Text)) and not isinstance(p, Path):
            return Opaque('path')          # not below the workspaces directory of this manager
        for c in a[1:]:
            if isinstance(c, Path):
                p = c             # an absolute path
                continue
            if c is None:
                raise PyRaise(TypeError, 'join')
            w = kind(E, c)
            if w == 'empty':
                continue
            p = p.child(c if w == 'plain' else WILD)
        return p
    C[os.path.join] = join

    def q1(f):
        def h(I, a, k):
            if not isinstance(a[0], Path):
                raise Unsupported('state of %r' % (a[0],))
            return f(*a, **k)
        return h
    for name, f in (('exists', fs.exists), ('isdir', fs.isdir), ('isfile', fs.isfile), ('lexists', fs.exists)):
        C[getattr(os.path, name)] = q1(f)
    C[os.listdir] = lambda I, a, k: fs.listdir(path(a[0]))
    C[os.makedirs] = lambda I, a, k: fs.makedirs(path(a[0]), k.get('exist_ok', False))
    C[os.mkdir] = lambda I, a, k: fs.mkdir(path(a[0]))
    C[os.rmdir] = lambda I, a, k: fs.rmdir(path(a[0]))
    C[os.remove] = C[os.unlink] = lambda I, a, k: fs.remove(path(a[0]))
    C[os.rename] = lambda I, a, k: fs.rename(path(a[0]), path(a[1]))
    C[os.replace] = C[os.rename]

    def rmtree(I, a, k):
        if len(a) > 1 or k:
            if set(k) - {'ignore_errors'} or len(a) > 1:
                raise Unsupported('rmtree options')
            if k['ignore_errors'] is True:
                try:
                    return fs.rmtree(path(a[0]))
                except PyRaise:
                    return None
        return fs.rmtree(path(a[0]))
    C[shutil.rmtree] = rmtree
    C[shutil.copytree] = lambda I, a, k: fs.copytree(path(a[0]), path(a[1]), k.get('dirs_exist_ok', False))
    C[shutil.move] = lambda I, a, k: fs.move(path(a[0]), path(a[1]))
    C[shutil.copy] = C[shutil.copy2] = lambda I, a, k: fs.copyfile(a[0], path(a[1]))
    C[shutil.copyfile] = lambda I, a, k: fs.copyfile(a[0], path(a[1]), False)
    C[os.path.basename] = lambda I, a, k: basename(E, a[0]) if I.symbolic(a[0]) else os.path.basename(*a)
    C[ntpath.basename] = lambda I, a, k: basename(E, a[0]) if I.symbolic(a[0]) else ntpath.basename(*a)
    C[fnmatch.fnmatch] = lambda I, a, k: matches(E, a[0], a[1]) if any(I.symbolic(x) for x in a) else fnmatch.fnmatch(*a)

    def opn(I, a, k):
        mode = a[1] if len(a) > 1 else k.get('mode', 'r')
        f = opened(fs, path(a[0]), mode)
        return CtxMgr(lambda: f, f.close)
    C[open] = opn

    def str_attr(I, o, name):
        if name in ('endswith', 'startswith'):
            def h(lit):
                if not isinstance(lit, str):
                    raise Unsupported('str.%s' % name)
                return tm.boolvar('%s:%s' % (name, lit), o.code)
            return Native(h, name)
        if name in ('strip', 'lstrip', 'rstrip', 'lower', 'upper', 'title', 'capitalize', 'casefold', 'swapcase'):
            # a function of the text and nothing else
            return Native(lambda: Str(name, tm.app('str.' + name, 'Int', o.code)), name)
        raise Unsupported('str.%s' % name)
    I.str_attr = str_attr
    I.attr_models[(Str, '__contains__')] = lambda I, c, x: sep(c.code) if x == '/' else _uns('text search')


def _uns(what):
    raise Unsupported(what)


def matches(E, name, pat):
    return tm.boolvar('fnmatch', keycode(name), keycode(pat))
