"""Assumed contracts of open/json for a JSON document read from a file: the text is parsed from the current
position, so a second parse needs the file to be rewound first."""
import json
from . import terms as tm
from .terms import Str
from .engine import SDict, SObj, PyRaise, Unsupported
from .ext import Ext, SMap
from .interp import CtxMgr, Native


class JFile(Ext):
    def __init__(self, E, doc):
        self.E, self.doc = E, doc
        self.cell = SObj(E, None, 'file', fields={'pos': 0})

    def __repr__(self):
        return '<file>'

    def attr(self, I, name):
        if name == 'seek':
            def seek(p, whence=0):
                if tm.as_const(p) != 0 or whence != 0:
                    raise Unsupported('seek')
                self.cell.set('pos', 0)
                return 0
            return Native(seek, 'seek')
        if name == 'close':
            return Native(lambda: self.cell.set('pos', 2), 'close')
        raise Unsupported('file.%s' % name)


def load(I, a, k):
    f = a[0]
    if not isinstance(f, JFile):
        raise Unsupported('json.load of %r' % (f,))
    pos = f.cell.get('pos')
    if pos == 1:
        raise PyRaise(json.JSONDecodeError, 'end of file')
    if pos == 2:
        raise PyRaise(ValueError, 'closed file')
    f.cell.set('pos', 1)
    return f.doc()


def install(E, I, doc):
    """doc(filename) -> function making a fresh copy of the document"""
    def opn(I, a, k):
        mode = a[1] if len(a) > 1 else k.get('mode', 'r')
        if mode not in ('r', 'rt', 'rb'):
            raise Unsupported('open for writing')
        f = JFile(E, doc(a[0]))
        return CtxMgr(lambda: f, lambda: f.cell.set('pos', 2))
    E.contracts[open] = opn
    E.contracts[json.load] = load


def document(E, name, value, special=None):
    """arbitrary JSON object: n entries with distinct keys in file order; value(x) for key code x;
    special: {literal key: value (or MISSING)}"""
    n = tm.var(name + '.n', 'Int')
    E.assume(tm.le(0, n))
    key = lambda k: tm.app(name + '.key', 'Int', tm.t(k))
    pos = lambda x: tm.app(name + '.pos', 'Int', x)
    has = lambda x: tm.boolvar(name + '.has', x)
    special = special or {}

    def look(x):
        if E.branch(has(x)):
            E.assume([tm.le(0, pos(x)), tm.lt(pos(x), n), tm.eq(key(pos(x)), x)])
            for lit, v in special.items():
                if E.branch(tm.eq(x, tm.const(tm.strcode(lit)))):
                    return v()
            return value(x)
        return SDict.MISSING

    def keyat(k):
        c = key(k)
        E.assume([has(c), tm.eq(pos(c), tm.t(k))])
        return Str('%s.key' % name, c)
    return lambda: SMap(E, look, (n, keyat), name=name)
