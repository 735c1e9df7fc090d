from .util import *
import math
import warnings
from dedop.conf import enums
from dedop.conf import auxiliary_errors as err

CLASSES = {'CHD': CharacterisationFile, 'CNF': ConfigurationFile, 'CST': ConstantsFile}
VERSION = {'CHD': 1, 'CNF': 3, 'CST': 0}
TABLE = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'contracts', 'aux_table.json')))
BAD = object()


def value(rng, kind, shape):
    """a JSON value and what the attribute must be"""
    r = rng.random()
    if kind == 'array':
        if r < .15:
            n = [0, 1, shape[0] - 1, shape[0] + 1, 2 * shape[0]][int(rng.integers(5))]
            return [float(x) for x in range(n)], BAD
        v = [float(x) for x in rng.standard_normal(shape[0])]
        return v, np.array(v)
    if kind in ('float', 'int'):
        if r < .2:
            return ['abc', None][int(rng.integers(2))], BAD
        x = float(np.round(rng.standard_normal() * 1e3, 3))
        if r < .5:
            x = int(x)
        if r < .3:
            return str(x), (float if kind == 'float' else int)(x)
        return x, (float(x) if kind == 'float' else int(x))
    if kind == 'bool':
        v = [True, False, 0, 1, 7, ''][int(rng.integers(6))]
        return v, bool(v)
    if kind == 'radians':
        if r < .2:
            return ('12', BAD) if r < .1 else (None, None)
        x = float(rng.uniform(-180, 180))
        return x, math.radians(x)
    if kind == 'raw':
        v = [True, False, int(rng.integers(100)), float(rng.standard_normal()), 'text', None][int(rng.integers(6))]
        return v, v
    ms = list(getattr(enums, kind))
    if r < .2:
        return ['bogus', 3.5, None][int(rng.integers(3))], BAD
    m = ms[int(rng.integers(len(ms)))]
    return m.value, m


def content(rng, which):
    vals, want = {}, {}
    for attr, (name, kind, optional, d) in TABLE[which].items():
        if rng.random() < .8:
            vals[name], want[attr] = value(rng, kind, d)
    extra = {}
    for i in range(int(rng.integers(0, 3))):
        extra['unknown_%d_%s' % (i, which.lower())] = i
    if rng.random() < .3:          # nearly the name of a parameter
        n = list(TABLE[which].values())[int(rng.integers(len(TABLE[which])))][0]
        n = [n.upper(), n + ' ', n + '_', '_' + n, n[:-1], n.title()][int(rng.integers(6))]
        if n not in [t[0] for t in TABLE[which].values()]:
            extra[n] = 5
    return vals, want, extra


def write(path, rng, vals, version):
    d = {k: {'value': v, 'units': '-', 'description': 'd'} for k, v in vals.items()}
    keys = list(d)
    rng.shuffle(keys)
    d = {k: d[k] for k in keys}
    if version is not None:
        meta = {'__metainf__': {'version': version}}
        d = dict(meta, **d) if rng.random() < .5 else dict(d, **meta)
    with open(path, 'w') as f:
        json.dump(d, f)


def load(which, path, **kw):
    cls = CLASSES[which]
    args = (ConstantsFile(c_cst=299792458.0),) if which == 'CHD' else ()
    return cls(*args + ((path,) if path else ()), **kw)


def equal(a, b):
    if isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and a.shape == b.shape and bool((a == b).all())
    if isinstance(b, float) and isinstance(a, float):
        return a == b or abs(a - b) <= 1e-14 * abs(b)
    return type(a) is type(b) and a == b


def check(o, which, want, desc):
    for attr, (name, kind, optional, d) in TABLE[which].items():
        try:
            got = getattr(o, attr)
        except Exception as e:
            got = e
        if attr not in want:
            if optional:
                w = getattr(enums, d[0])[d[1]] if d else None
                expect(got is w, '%s: %s, absent from the file: %r, default %r', desc, attr, got, w)
            else:
                expect(isinstance(got, err.MissingParameterError), '%s: missing %s gives %r', desc, attr, got)
        elif want[attr] is BAD:
            expect(isinstance(got, Exception) and not isinstance(got, err.MissingParameterError),
                   '%s: unconvertible %s gives %r', desc, attr, got)
        else:
            expect(equal(got, want[attr]), '%s: %s is %r, file gives %r', desc, attr, got, want[attr])


@case('C21', 'files', 120, 3000)
def files(rng, scratch):
    which = list(CLASSES)[int(rng.integers(3))]
    objs = []
    for i in range(2):
        vals, want, extra = content(rng, which)
        p = os.path.join(scratch, 'aux%d.json' % i)
        write(p, rng, dict(vals, **extra), VERSION[which])
        kw = {}
        for attr, (name, kind, optional, d) in TABLE[which].items():
            if rng.random() < .1:
                kw[name], want[attr] = value(rng, kind, d)
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter('always')
            try:
                o = load(which, p, **kw)
            except Exception as e:
                raise Violation('%s file with current version rejected: %r' % (which, e))
        names = sorted(w.message.args[0] if w.message.args else str(w.message) for w in ws
                       if isinstance(w.message, err.UnknownParameterWarning))
        expect(len(names) == len(extra) and all(any(x in n for n in names) for x in extra),
               '%s: warnings %r for the unknown entries %r', which, names, sorted(extra))
        for x in extra:
            try:
                o[x]
            except err.MissingParameterError:
                pass
            else:
                raise Violation('undeclared %s is accessible' % x)
        objs.append((o, want))
    for rep in range(2):
        for k, (o, want) in enumerate(objs):
            check(o, which, want, '%s object %d, access %d' % (which, k, rep))
    return '%s %s' % (which, sorted((a, repr(w)[:12]) for a, w in want.items()))


@case('C21', 'versions', 40, 1000)
def versions(rng, scratch):
    which = list(CLASSES)[int(rng.integers(3))]
    vals, want, extra = content(rng, which)
    p = os.path.join(scratch, 'v.json')
    v = [None, -1, 0, 1, 2, 3, 4, 10][int(rng.integers(8))]
    write(p, rng, vals, v)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            load(which, p)
        ok = True
    except err.IncompatibleAuxiliaryFileError:
        ok = False
    expect(ok == (v == VERSION[which]), '%s file of version %r %s', which, v, 'accepted' if ok else 'rejected')
    return '%s version %r' % (which, v)


@case('C21', 'derived', 40, 1000)
def derived(rng, scratch):
    v = {n: float(rng.uniform(.5, 50)) for n in ('freq_ku', 'bw_ku', 'pulse_length', 'prf_sar', 'brf_sar', 'uso_freq_nom',
                                                 'alt_freq_multiplier')}
    c = float(rng.uniform(1, 10))
    want = {'pri_sar': 1 / v['prf_sar'], 'bri_sar': 1 / v['brf_sar'],
            't0_nom': 1 / (v['uso_freq_nom'] * v['alt_freq_multiplier']), 'wv_length_ku': c / v['freq_ku'],
            'chirp_slope_ku': v['bw_ku'] / v['pulse_length']}
    kw = {TABLE['CHD'][k][0]: x for k, x in v.items()}
    for nm in ('wv_length_ku', 'chirp_slope_ku'):
        if rng.random() < .4:
            want[nm] = kw[nm + '_chd'] = float(rng.uniform(1, 9))
    o = CharacterisationFile(ConstantsFile(c_cst=c), **kw)
    for rep in range(2):
        for nm, w in want.items():
            close(getattr(o, nm), w, nm)
    return v


@case('C21', 'declarations', 20, 300)
def declarations(rng, scratch):
    """a file class with arbitrary declarations"""
    from dedop.conf.auxiliary_file_reader import AuxiliaryFileReader
    from dedop.conf.auxiliary_parameter import AuxiliaryParameter
    pools = {int: [0, 1, -3, 12], float: [0.0, 1.5, -2.0], bool: [False, True], str: ['', 'x', 'None']}
    ns, want, data = {}, {}, {}
    for i in range(6):
        typ = list(pools)[int(rng.integers(4))]
        pool = pools[typ]
        kw = {}
        if rng.random() < .8:
            kw['param_type'] = typ
        dv = None
        if rng.random() < .6:
            dv = kw['default_value'] = pool[int(rng.integers(len(pool)))]
        if dv is None and 'param_type' in kw:
            opt = False
        else:
            opt = bool(rng.random() < .5)
        if opt or rng.random() < .3:
            kw['optional'] = opt
        a = 'attr%d' % i
        ns[a] = AuxiliaryParameter('%s_x' % a, **kw)
        if rng.random() < .4:
            want[a] = data[a + '_x'] = pool[int(rng.integers(len(pool)))]
        elif dv is not None:
            want[a] = dv
        else:
            want[a] = None if opt else BAD
    cls = type('File', (AuxiliaryFileReader,), ns)
    o = cls(**data)
    for a, w in want.items():
        try:
            got = getattr(o, a)
        except Exception as e:
            got = e
        if w is BAD:
            expect(isinstance(got, err.MissingParameterError), 'required %s, absent, gives %r', a, got)
        else:
            expect(equal(got, w), '%s is %r, expected %r', a, got, w)
    return sorted((a, repr(w)[:20]) for a, w in want.items())
