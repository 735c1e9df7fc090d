"""Bounded executable counterpart of the contracts: each case builds a random valid input from a seed, calls
the real code in /repo through its public entry points and compares with an independent oracle.  It is used
to replay failed obligations and to stand in, labelled bounded, where the generator cannot translate a
changed function."""
import os
import signal
import sys
import time
import traceback
import zlib
import numpy as np


class Violation(Exception):
    pass


class Skip(Exception):
    """the harness cannot judge this case (its own assumptions about the code do not hold)"""


class CaseTimeout(Exception):
    pass


REPO = os.environ.get('VERIF_REPO', '/repo')
EXTRA = 8.0       # quick tier: seconds per property beyond the guaranteed number of cases
RNG = None        # fills fields a case does not set
HARNESS = {}      # property -> [(name, fn, n_quick, n_thorough)]


def case(prop, name, quick=20, thorough=200):
    def deco(fn):
        HARNESS.setdefault(prop, []).append((name, fn, quick, thorough))
        return fn
    return deco


def rng_of(name, seed, i):
    return np.random.default_rng([seed & 0xffffffff, i, zlib.crc32(name.encode())])


def expect(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def close(a, b, msg, rtol=1e-9, atol=0.0):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        raise Violation('%s: shape %r, expected %r' % (msg, a.shape, b.shape))
    if b.size and b.dtype.kind in 'fc' and not np.isfinite(b).any():
        raise Skip('%s: the expected values are not finite' % msg)
    with np.errstate(all='ignore'):
        scale = np.max(np.abs(b)) if b.size else 0.0
        if not np.isfinite(scale):
            scale = 0.0
        d = np.abs(a - b)
        bad = ~((d <= rtol * np.abs(b) + atol + 1e-12 * scale) | ((a != a) & (b != b)) | (a == b))
    if bad.any():
        k = tuple(int(x[0]) for x in np.nonzero(bad)) if a.ndim else ()
        raise Violation('%s%s: got %r, expected %r' % (msg, list(k) if k else '', a[k].item(), b[k].item()))


def in_repo(tb):
    """did the exception pass through the code under test (rather than only through the harness)?"""
    files = [f.filename for f in traceback.extract_tb(tb)]
    root = os.path.join(REPO, 'dedop')
    last = max([i for i, f in enumerate(files) if f.startswith(root)] or [-1])
    return last >= 0 and not any('/harness/' in f for f in files[last + 1:])


def run_case(prop, name, fn, seed, i, scratch, limit=90):
    """-> ('ok', info) | ('violation', message) | ('skip', message)"""
    def onalarm(sig, fr):
        raise CaseTimeout()
    old = signal.signal(signal.SIGALRM, onalarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    np.random.seed((seed * 7919 + i) & 0xffffffff)
    global RNG
    RNG = rng_of(name + '/fill', seed, i)
    try:
        info = fn(rng_of(name, seed, i), scratch)
        return 'ok', info
    except Violation as e:
        return 'violation', str(e)
    except Skip as e:
        return 'skip', str(e)
    except CaseTimeout:
        return 'violation', 'did not terminate within %d s (normally a fraction of a second)' % limit
    except MemoryError:
        return 'skip', 'out of memory'
    except Exception as e:
        tb = sys.exc_info()[2]
        txt = ''.join(traceback.format_exception_only(type(e), e)).strip()
        if in_repo(tb) and not isinstance(e, (ImportError, NotImplementedError)):
            fr = [f for f in traceback.extract_tb(tb) if f.filename.startswith(os.path.join(REPO, 'dedop'))][-1]
            return 'violation', 'raised %s on a valid input (in %s)' % (txt, fr.name)
        return 'skip', 'harness: %s | %s' % (txt, ' '.join(traceback.format_tb(tb)[-1].split()))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def run(prop, tier, seed, scratch, budget):
    out = {'evaluations': 0, 'nontrivial': 0, 'violations': [], 'skipped': [], 'samples': [], 'per_case': {}}
    t0 = time.time()
    cases = HARNESS.get(prop, [])
    for ci, (name, fn, nq, nt) in enumerate(cases):
        n = max(nq, nt) * (1 if tier == 'thorough' else 10)    # quick: until EXTRA has passed
        extra = time.time() + (EXTRA if tier == 'quick' else .6 * budget) / len(cases)
        left = t0 + budget - time.time()
        end = time.time() + max(2.0, left / (len(cases) - ci))
        ran = 0
        seen = set()
        for i in range(n):
            if i >= 2 and time.time() > end:
                break
            if tier != 'thorough' and i >= nq and time.time() > extra:
                break
            st, info = run_case(prop, name, fn, seed, i, scratch)
            ran += 1
            out['evaluations'] += 1
            if st == 'ok':
                d = repr(info)
                if d not in seen:
                    seen.add(d)
                    out['nontrivial'] += 1
                if i == 0:
                    out['samples'].append({'case': name, 'index': i, 'input': d[:400]})
            elif st == 'violation':
                out['violations'].append({'case': name, 'seed': seed, 'index': i, 'message': info})
                break
            else:
                out['skipped'].append({'case': name, 'index': i, 'message': info})
                if len([s for s in out['skipped'] if s['case'] == name]) >= 3:
                    break
        out['per_case'][name] = ran
    out['wall_s'] = round(time.time() - t0, 2)
    return out
