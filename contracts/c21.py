"""Auxiliary (characterisation, configuration, constants) files."""
from .base import *
import json
import os
import warnings
from math import radians
from pyvc import files
from pyvc.ext import SMap, as_map, keycode
from pyvc.engine import PathEnd
from pyvc.interp import LoopSpec, ExcVal
from dedop.conf.auxiliary_file_reader import AuxiliaryFileReader
from dedop.conf import enums
from dedop.conf import auxiliary_errors as err
from dedop.conf.auxiliary_parameter import AuxiliaryParameter, AuxiliaryParameterArray

X = Str('X')
CLASSES = {'CHD': CharacterisationFile, 'CNF': ConfigurationFile, 'CST': ConstantsFile}
TABLE = json.load(open(os.path.join(os.path.dirname(__file__), 'aux_table.json')))


def known(which):
    return [row[0] for row in TABLE[which].values()]


def fval(x, name='file'):
    return tm.app(name + '.value', 'Real', x)


def doc(E, name='file'):
    """arbitrary file content, with or without version"""
    def meta():
        return SMap(E, lambda y: tm.var(name + '.version', 'Int') if E.branch(tm.eq(y, keycode('version'))) else SDict.MISSING)

    def entry(x):
        return SMap(E, lambda y: fval(x, name) if E.branch(tm.eq(y, keycode('value'))) else SDict.MISSING)
    return files.document(E, name, entry, {'__metainf__': meta})


def has(x, name='file'):
    return tm.boolvar(name + '.has', x)


META = tm.const(tm.strcode('__metainf__'))


def reader(which):
    cls = CLASSES[which]

    @contract('C21', 'read.' + which)
    def check(E, I):
        d = doc(E)
        files.install(E, I, lambda fn: d)
        E.ghost['warned'] = tm.const(0)

        def warn(I, a, k):
            w = a[0]
            if not (isinstance(w, ExcVal) and w.cls is err.UnknownParameterWarning):
                E.prove('warning-kind', False)
            if E.branch(tm.streq(w.args[0], X)):
                E.ghost['warned'] = tm.add(E.ghost['warned'], 1)
        E.contracts[warnings.warn] = warn
        x = X.code
        unknown = tm.And(*[tm.Not(tm.streq(X, nm)) for nm in known(which)])
        pos = tm.app('file.pos', 'Int', x)
        # a JSON object: the position of a key that is present
        if E.branch(has(x)):
            E.assume([tm.le(0, pos), tm.lt(pos, tm.var('file.n', 'Int')), tm.eq(tm.app('file.key', 'Int', pos), x)])

        def among(k):
            return tm.And(has(x), tm.lt(pos, k), tm.ne(x, META))

        def themap(L):
            ms = {id(v): v for v in L.loc.values() if isinstance(v, SDict)}
            if len(ms) != 1:
                raise Unsupported('result of reading')
            return as_map(I, list(ms.values())[0])

        def havoc(L):
            k = L.k
            themap(L).restore(lambda y: fval(y) if E.branch(tm.And(tm.eq(y, x), among(k))) else SDict.MISSING)
            E.ghost['warned'] = tm.const(1) if E.branch(tm.And(among(k), unknown)) else tm.const(0)

        def inv(L):
            v = themap(L).look(X)
            out = []
            if E.branch(among(L.k)):
                out.append(('value', v is not SDict.MISSING and tm.eq(v, fval(x))))
                out.append(('warning', tm.eq(E.ghost['warned'], 1 if E.branch(unknown) else 0)))
            else:
                out += [('absent', v is SDict.MISSING), ('no-warning', tm.eq(E.ghost['warned'], 0))]
            return out
        E.loops[('AuxiliaryFileReader._read_file', 0)] = LoopSpec(havoc, inv, assume=lambda L: [])
        e, r = raises(E, I, cls._read_file, Str('filename'))
        version = tm.var('file.version', 'Int') if E.branch(has(META)) else tm.const(-1)
        current = {'CHD': 1, 'CNF': 3, 'CST': 0}[which]
        if E.branch(tm.eq(version, current)):
            E.prove('accepted', e is None)
            if e is None:
                v = as_map(I, r).look(X)
                if E.branch(tm.And(has(x), tm.ne(x, META))):
                    E.prove('value', v is not SDict.MISSING and tm.eq(v, fval(x)))
                    E.prove('warned-iff-unknown', tm.eq(E.ghost['warned'], 1 if E.branch(unknown) else 0))
                else:
                    E.prove('absent', v is SDict.MISSING)
                    E.prove('no-warning', tm.eq(E.ghost['warned'], 0))
        else:
            E.prove('wrong-version', e is err.IncompatibleAuxiliaryFileError)
    return check


def filemap(E, name):
    return SMap(E, lambda y: fval(y, name) if E.branch(has(y, name)) else SDict.MISSING, name=name)


def make(E, I, which, name, kw):
    """construct a file object from an arbitrary file and arbitrary keyword values"""
    cls = CLASSES[which]
    fn = Str('filename.' + name) if E.choice(name + '.from-file') else None
    args = ((Opaque('cst'),) if which == 'CHD' else ()) + ((fn,) if fn is not None else ())
    return I.call(cls, args, {'**': kw}), fn is not None


def lookups(which):
    cls = CLASSES[which]
    DER = {'CHD': ('wv_length_ku_chd', 'chirp_slope_ku_chd')}.get(which, ())

    @contract('C21', 'lookup.' + which)
    def check(E, I):
        """two file objects: each gives its own values, keyword values override the file"""
        E.contracts[AuxiliaryFileReader._read_file.__func__] = \
            lambda I, a, k: filemap(E, 'file' + ('1' if a[1].name.endswith('1') else '2'))
        objs = []
        for i in '12':
            o, ff = make(E, I, which, 'o' + i, filemap(E, 'kw' + i))
            objs.append((o, i, ff))
        for nm in DER:
            E.assume(tm.Not(tm.streq(X, nm)))
        x = X.code
        declared = tm.Or(*[tm.streq(X, nm) for nm in known(which)])
        for o, i, ff in (objs if E.choice('order') else objs[::-1]):
            e, r = raises(E, I, method(I, o, '__getitem__'), X)
            if not E.branch(declared):
                E.prove('undeclared', e is err.MissingParameterError)
            elif E.branch(has(x, 'kw' + i)):
                E.prove('keyword', e is None and tm.eq(r, fval(x, 'kw' + i)))
            elif ff and E.branch(has(x, 'file' + i)):
                E.prove('file', e is None and tm.eq(r, fval(x, 'file' + i)))
            else:
                E.prove('missing', e is err.MissingParameterError)
    return check


def anyvalue(E, name):
    """an arbitrary JSON scalar"""
    if E.choice(name + '.number'):
        return tm.var(name + '.real', 'Real')
    if E.choice(name + '.integer'):
        return tm.var(name + '.int', 'Int')
    if E.choice(name + '.string'):
        return Str(name + '.str')
    if E.choice(name + '.boolean'):
        return tm.boolvar(name + '.bool')
    return None


def converted(E, I, kind, v):
    """('ok', value) or ('error',): what the declared conversion gives"""
    b = lambda f: tm.t(1) if E.branch(f) else tm.t(0)
    if kind == 'raw':
        return ('ok', v)
    if kind == 'radians':
        if v is None:
            return ('ok', None)
        if isinstance(v, Str):
            return ('error',)
        if isinstance(v, F):
            v = b(v)
        return ('ok', tm.div(tm.mul(v, tm.PI), 180))
    if v is None:
        return ('error',)
    if kind in ('float', 'int'):
        if isinstance(v, Str):
            if E.choice('numeric.%s' % v.name):
                return ('ok', tm.app(kind + '.of', 'Real' if kind == 'float' else 'Int', v.code))
            return ('error',)
        if isinstance(v, F):
            return ('ok', b(v))
        return ('ok', v if kind == 'float' else tm.trunc(v))
    if kind == 'bool':
        if isinstance(v, Str):
            return ('ok', tm.Not(tm.streq(v, '')))
        return ('ok', v if isinstance(v, F) else tm.ne(v, 0))
    en = getattr(enums, kind)
    if not isinstance(v, Str):
        return ('error',)
    for m in en:
        if E.branch(tm.streq(v, m.value)):
            return ('ok', m)
    return ('error',)


def same(E, a, b):
    if a is None or b is None:
        return a is b
    if isinstance(a, (bool, F)) and isinstance(b, (bool, F)):
        return tm.Iff(a, b)
    if isinstance(a, (Str, str)) and isinstance(b, (Str, str)):
        return tm.streq(a, b)
    if isinstance(a, T) or isinstance(b, T):
        if isinstance(a, (bool, F)) or isinstance(b, (bool, F)) or isinstance(a, (Str, str)) or isinstance(b, (Str, str)):
            return False
        return tm.eq(a, b)
    return a is b or (type(a) is type(b) and a == b)


def descriptor(E, desc):
    """the declared parameter, with an empty cache"""
    return SObj(E, type(desc), 'desc', fields={k: (SDict(E) if k == '_cache' else v) for k, v in vars(desc).items()})


def attribute(which, attr, name, kind, optional, default):
    cls = CLASSES[which]

    @contract('C21', 'parameter.%s.%s' % (which, attr))
    def check(E, I):
        desc = vars(cls).get(attr)
        if not isinstance(desc, AuxiliaryParameter):
            raise Unsupported('no parameter %s' % attr)
        d = descriptor(E, desc)
        get = I.static(type(desc), '__get__')
        E.prove('class-access', run(I, get, d, None, cls) is d)
        owners = []
        for i in '12':
            present = E.choice('present' + i)
            v = anyvalue(E, 'v' + i) if present and i == '1' else tm.var('v2.real', 'Real') if present else None
            o = SObj(E, cls, 'o' + i, fields={'_data': SDict(E, {name: v} if present else {})})
            owners.append((o, present, v))
        for o, present, v in owners + [owners[0]]:
            e, r = raises(E, I, get, d, o, cls)
            if not present:
                if optional:
                    want = getattr(enums, default[0])[default[1]] if default else None
                    E.prove('default', e is None and same(E, r, want))
                else:
                    E.prove('missing', e is err.MissingParameterError)
                continue
            c = converted(E, I, kind, v)
            if c[0] == 'error':
                E.prove('conversion-error', e is not None)
            else:
                E.prove('no-error', e is None)
                if e is None:
                    E.prove('value', same(E, r, c[1]))
    return check


def arrays(which, attr, name, shape):
    cls = CLASSES[which]

    @contract('C21', 'parameter.%s.%s' % (which, attr))
    def check(E, I):
        desc = vars(cls).get(attr)
        if not isinstance(desc, AuxiliaryParameter):
            raise Unsupported('no parameter %s' % attr)
        get = I.static(type(desc), '__get__')
        d = descriptor(E, desc)
        for i in '12':
            present = E.choice('present' + i)
            v = SList(E, length=tm.t(shape[0]), fn=lambda j, i=i: tm.app('v' + i, 'Real', tm.t(j)))
            o = SObj(E, cls, 'o' + i, fields={'_data': SDict(E, {name: v} if present else {})})
            e, r = raises(E, I, get, d, o, cls)
            if not present:
                E.prove('missing', e is err.MissingParameterError)
                continue
            E.prove('no-error', e is None)
            if e is None:
                E.prove('length', len(r.shape) == 1 and tm.eq(r.shape[0], shape[0]))
                j = skolem(E, 'j', 0, shape[0])
                E.prove('value', tm.eq(r.get([j]), tm.app('v' + i, 'Real', j)))
    return check


for _w in CLASSES:
    reader(_w)
    lookups(_w)
    for _a, (_n, _k, _o, _d) in TABLE[_w].items():
        if _k == 'array':
            arrays(_w, _a, _n, _d)
        else:
            attribute(_w, _a, _n, _k, _o, _d)


@contract('C21', 'derived')
def derived(E, I):
    """derived parameters of the characterisation file; the two stored ones can be supplied explicitly"""
    given = {}
    if E.choice('wavelength-given'):
        given['wv_length_ku_chd'] = tm.var('wv.given', 'Real')
    if E.choice('slope-given'):
        given['chirp_slope_ku_chd'] = tm.var('slope.given', 'Real')
    cs = SObj(E, ConstantsFile, 'cst', lazy=lambda k: tm.var('cst.c', 'Real') if k == 'c' else SDict.MISSING)
    o = run(I, CharacterisationFile, cs, **given)
    names = ('freq_ku', 'bw_ku', 'pulse_length', 'prf_sar', 'brf_sar', 'uso_freq_nom', 'alt_freq_multiplier')
    v = {}
    for nm in names:
        v[nm] = tm.var('chd.' + nm, 'Real')
        positive(E, v[nm])
        o.set(nm, v[nm])
    want = {'pri_sar': tm.div(1, v['prf_sar']), 'bri_sar': tm.div(1, v['brf_sar']),
            't0_nom': tm.div(1, tm.mul(v['uso_freq_nom'], v['alt_freq_multiplier'])),
            'wv_length_ku': given.get('wv_length_ku_chd', tm.div(tm.var('cst.c', 'Real'), v['freq_ku'])),
            'chirp_slope_ku': given.get('chirp_slope_ku_chd', tm.div(v['bw_ku'], v['pulse_length']))}
    for rep in ('', '.again'):
        for nm in want:
            E.prove(nm + rep, tm.eq(I.getattr(o, nm), want[nm]))


@contract('C21', 'declaration')
def declaration(E, I):
    """a parameter declared with an arbitrary default: it is the value when the entry is absent"""
    typ, val = [(None, None), (float, tm.var('default', 'Real')), (int, tm.var('default.int', 'Int')),
                (bool, tm.boolvar('default.bool')), (str, Str('default.str'))][
        0 if E.choice('no-type') else 1 if E.choice('float') else 2 if E.choice('int') else 3 if E.choice('bool') else 4]
    has_default = typ is not None and E.choice('has-default')
    optional = bool(E.choice('optional')) if not has_default or E.choice('flag-given') else None
    if optional and not has_default and typ is not None:
        raise PathEnd()     # an absent value without a default has no type to check
    kw = {}
    if typ is not None:
        kw['param_type'] = typ
    if has_default:
        kw['default_value'] = val
    if optional is not None:
        kw['optional'] = optional
    cls = AuxiliaryParameterArray if typ is None and E.choice('array') else AuxiliaryParameter
    d = I.call(cls, ('the_name',), kw)
    there = E.choice('present')
    stored = {None: None, float: tm.var('stored', 'Real'), int: tm.var('stored.int', 'Int'), bool: tm.boolvar('stored.bool'),
              str: Str('stored.str')}[typ]
    seen = []

    def getitem(I, a, k):
        seen.append(a[1])
        if there:
            return stored
        raise PyRaise(err.MissingParameterError, None)
    E.contracts[AuxiliaryFileReader.__getitem__] = getitem
    o = SObj(E, AuxiliaryFileReader, 'o', fields={'_data': SDict(E, {})})
    e, r = raises(E, I, I.static(cls, '__get__'), d, o, AuxiliaryFileReader)
    E.prove('entry-looked-up', all(isinstance(x, str) and x == 'the_name' for x in seen) and len(seen) > 0)
    if there:
        E.prove('value', e is None and same(E, r, stored))
    elif has_default:
        E.prove('default', e is None and same(E, r, val))
    elif optional:
        E.prove('none', e is None and r is None)
    else:
        E.prove('missing', e is err.MissingParameterError)
