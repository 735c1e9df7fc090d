"""Running contracts: every contract is a Python function `fn(E, I)` that builds symbolic inputs, assumes the
precondition, calls the real function(s) through the interpreter and states the postconditions."""
import time
import traceback
from . import terms as tm
from .engine import Engine, Unsupported, PyRaise, PathEnd, Budget, Enough, Obligation
from .interp import Interp


class Result:
    def __init__(self):
        self.contracts = {}       # name -> dict
        self.obligations = []
        self.functions = {}
        self.assumed = set()
        self.solver_time = 0.0
        self.backends = {}
        self.paths = 0
        self.undecided = []       # (contract, reason)

    def failed(self):
        return [o for o in self.obligations if o.status != 'proved']


REGISTRY = {}     # property -> [(name, fn, opts)]


def contract(prop, name, **opts):
    def deco(fn):
        REGISTRY.setdefault(prop, []).append((name, fn, opts))
        return fn
    return deco


def run_contract(name, fn, opts, res):
    """a contract may offer several loop contracts (opts['variants']): one that discharges everything decides it;
    if none does, the first one reports"""
    first = None
    for v in range(opts.get('variants', 1)):
        r = Result()
        info = run_variant(name, fn, opts, r, v)
        if first is None:
            first = (r, info)
        if info['status'] == 'proved':
            break
    else:
        r, info = first
    if r is not first[0]:
        info['variant'] = v
    res.contracts[name] = info
    res.obligations.extend(r.obligations)
    for k, v in r.functions.items():
        res.functions[k] = res.functions.get(k, 0) + v
    res.assumed |= r.assumed
    res.solver_time += r.solver_time
    for k, v in r.backends.items():
        res.backends[k] = res.backends.get(k, 0) + v
    res.paths += r.paths
    res.undecided.extend(r.undecided)
    return info


def run_variant(name, fn, opts, res, variant):
    E = Engine(max_paths=opts.get('max_paths', 3000), time_limit=opts.get('time_limit', 150))
    E.cur = name
    E.variant = variant
    I = Interp(E)
    t0 = time.time()
    reached = [0]
    info = {'paths': 0, 'status': 'proved'}

    def body(E):
        try:
            fn(E, I)
            reached[0] += 1
        except PyRaise as e:
            # an exception the contract did not allow for
            E.prove('no-unexpected-exception[%s]' % getattr(e.etype, '__name__', e.etype), False)
    if opts.get('setup'):
        opts['setup'](E, I)
    try:
        info['paths'] = E.explore(body)
        if not E.obligations:
            info['status'] = 'undecided'
            res.undecided.append((name, 'no obligation generated (vacuous precondition?)'))
    except Unsupported as e:
        info['status'] = 'undecided'
        res.undecided.append((name, 'outside the generator\'s subset: %s' % e))
    except Enough as e:
        info['stopped'] = str(e)
    except Budget as e:
        info['status'] = 'undecided'
        res.undecided.append((name, 'budget: %s' % e))
    except (KeyboardInterrupt, SystemExit):
        raise
    except Exception as e:
        info['status'] = 'undecided'
        tb = traceback.format_exc().strip().splitlines()
        res.undecided.append((name, 'generator error: %s | %s' % (e, ' '.join(tb[-3:]))))
        info['trace'] = traceback.format_exc()
    info['obligations'] = len(E.obligations)
    info['time'] = round(time.time() - t0, 2)
    info['failed'] = [o.name for o in E.obligations if o.status != 'proved']
    if info['failed']:
        info['status'] = 'failed'
        if any(E.moved.values()):
            # the loop contract was carried over to a loop found in a helper: that it does not fit proves nothing
            info['status'] = 'undecided'
            res.undecided.append((name, 'not discharged with a loop contract carried over to a helper: %s' % ', '.join(info['failed'][:3])))
            E.obligations = [o for o in E.obligations if o.status == 'proved']
            info['obligations'], info['failed'] = len(E.obligations), []
    res.contracts[name] = info
    res.obligations.extend(E.obligations)
    for k, v in E.functions.items():
        res.functions[k] = res.functions.get(k, 0) + v
    res.assumed |= E.assumed
    res.solver_time += E.solver.stats.time
    for k, v in E.solver.stats.by.items():
        res.backends[k] = res.backends.get(k, 0) + v
    res.paths += E.npaths
    return info


def run_property(prop, only=None):
    res = Result()
    for name, fn, opts in REGISTRY.get(prop, []):
        if only and only not in name:
            continue
        run_contract(name, fn, opts, res)
    return res
