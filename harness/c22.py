from .util import *
from dedop.util.parameter import Parameter
from dedop.proc.sar.base_algorithm import BaseAlgorithm
from dedop.proc.sar import algorithms as algs


def hierarchy(rng, root=object, names='abcde'):
    classes, own = [root], {}
    for i in range(int(rng.integers(1, 8))):
        k = int(rng.integers(1, min(3, len(classes)) + 1))
        bases = [classes[j] for j in sorted(rng.choice(len(classes), size=k, replace=False))[::-1]]
        try:
            c = type('K%d' % i, tuple(bases), {})
        except TypeError:
            continue
        mine = {}
        for nm in names:
            if rng.random() < .3:
                p = Parameter(nm, default_value=int(rng.integers(1, 1000)))
                expect(p(c) is c, 'decorator does not return the class')
                mine[nm] = p
        own[c] = mine
        classes.append(c)
    return classes, own


def wanted(c, own):
    out = {}
    for b in reversed(c.__mro__):
        out.update(own.get(b, {}))
    return out


@case('C22', 'declarations', 200, 5000)
def declarations(rng, scratch):
    classes, own = hierarchy(rng)
    for c in classes[1:]:
        for rep in range(2):
            got, want = Parameter.get_parameters(c), wanted(c, own)
            d = '%s%r declares %r' % (c.__name__, [b.__name__ for b in c.__mro__[1:-1]], sorted(own[c]))
            expect(set(got) == set(want), 'parameters of %s: %r, declared %r', d, sorted(got), sorted(want))
            for nm in want:
                expect(got[nm] is want[nm], 'parameter %s of %s is not the nearest declaration', nm, d)
            for nm in 'abcde':
                expect(Parameter.get_parameter(c, nm) is want.get(nm), 'get_parameter %s of %s', nm, d)
            got.clear()
        expect(set(vars(c).get('parameters', {})) == set(own[c]), 'own declarations of %s changed', d)
    return '%d classes' % (len(classes) - 1)


class Missing:
    pass


@case('C22', 'values', 150, 3000)
def values(rng, scratch):
    names = ['n_looks_stack', 'zp_fact_range', 'flag_stack_masking', 'azimuth_window_width', 'max_lat', 'bogus_name']
    classes, own = hierarchy(rng, BaseAlgorithm, names)
    own[BaseAlgorithm] = dict(vars(BaseAlgorithm)['parameters'])
    over, drop = {}, set()
    chd, cst, cnf = mkconf()
    over = {'n_looks_stack': int(rng.integers(1, 500)), 'zp_fact_range': int(rng.integers(1, 9)),
            'flag_stack_masking': bool(rng.integers(2)), 'azimuth_window_width': int(rng.integers(1, 64)),
            'max_lat': float(rng.normal())}
    keep = {k: v for k, v in over.items() if rng.random() < .75}
    data = defaults('CNF')
    for k in over:
        data.pop(param_name(type(cnf), k), None)
    for k, v in keep.items():
        data[param_name(type(cnf), k)] = v
    cnfs = [type(cnf)(**data), type(cnf)(**{**data, param_name(type(cnf), 'zp_fact_range'): 17})]
    objs = []
    for c in classes[1:]:
        for which in (0, 1):
            o = c(chd, cst, cnfs[which])
            objs.append((c, which, o))
    for c, which, o in objs:
        for nm, p in wanted(c, own).items():
            want = p.default_value
            if nm in keep:
                want = keep[nm]
            if nm == 'max_lat' and nm not in keep:
                want = None
            if which == 1 and nm == 'zp_fact_range':
                want = 17
            expect(getattr(o, nm) == want, 'parameter %s of %s: %r, expected %r', nm, c.__name__, getattr(o, nm), want)
    return '%d classes, configured %r' % (len(classes) - 1, sorted(keep))


@case('C22', 'steps', 40, 400)
def steps(rng, scratch):
    """the shipped processing steps"""
    over = {'n_looks_stack': int(rng.integers(1, 500)), 'zp_fact_range': int(rng.integers(1, 9)),
            'flag_stack_masking': bool(rng.integers(2)), 'flag_doppler_range_correction': bool(rng.integers(2)),
            'flag_slant_range_correction': bool(rng.integers(2)), 'flag_window_delay_alignment_method': int(rng.integers(3)),
            'flag_avoid_zeros_in_multilooking': bool(rng.integers(2)),
            'flag_azimuth_processing_method': str(rng.choice(['exact', 'approx']))}
    chd, cst, cnf = mkconf(cnf=over)
    for nm in sorted(vars(algs)):
        c = getattr(algs, nm)
        if isinstance(c, type) and issubclass(c, BaseAlgorithm):
            o = c(chd, cst, cnf)
            for p in Parameter.get_parameters(c):
                expect(getattr(o, p) == getattr(cnf, p), 'parameter %s of %s: %r, configured %r', p, nm, getattr(o, p),
                       getattr(cnf, p))
    bad = mkconf(cnf={'flag_azimuth_processing_method': 'bogus'})[2]
    try:
        algs.AzimuthProcessingAlgorithm(chd, cst, bad)
    except Exception:
        return over
    expect(False, 'an unusable value of flag_azimuth_processing_method is silently replaced by the default')
