"""scratch workspaces directory; calls that would reach anything outside the scratch directory are refused and
reported instead of executed"""
import builtins
import contextlib
import os
import shutil
from .core import Violation


def snapshot(d):
    """{relative path: None for a directory, content for a file}"""
    out = {}
    for a, ds, fs in os.walk(d):
        for x in ds:
            out[os.path.relpath(os.path.join(a, x), d)] = None
        for x in fs:
            p = os.path.join(a, x)
            if os.path.exists(p):
                with OPEN(p, 'rb') as f:
                    out[os.path.relpath(p, d)] = f.read()
            else:
                out[os.path.relpath(p, d)] = 'a link to nothing'
    return out


OPEN = builtins.open


@contextlib.contextmanager
def guarded(scratch):
    root = os.path.realpath(scratch)
    busy = []

    def wrap(fn, which, write=lambda a, k: True):
        def g(*a, **k):
            if busy:
                return fn(*a, **k)
            if write(a, k):
                for i in which:
                    p = a[i] if i < len(a) else None
                    if isinstance(p, (str, bytes)):
                        rp = os.path.realpath(os.fsdecode(p))
                        if rp != root and not rp.startswith(root + os.sep):
                            raise Violation('%s of %r, outside the scratch directory' % (fn.__name__, p))
            busy.append(1)
            try:
                return fn(*a, **k)
            finally:
                busy.pop()
        return g
    writing = lambda a, k: any(c in str(a[1] if len(a) > 1 else k.get('mode', 'r')) for c in 'wax+')
    table = [(os, n, w, None) for n, w in (('remove', (0,)), ('unlink', (0,)), ('rmdir', (0,)), ('rename', (0, 1)),
             ('replace', (0, 1)), ('mkdir', (0,)), ('makedirs', (0,)), ('removedirs', (0,)), ('truncate', (0,)),
             ('symlink', (1,)), ('link', (1,)), ('chmod', (0,)))] + \
        [(shutil, n, w, None) for n, w in (('rmtree', (0,)), ('move', (0, 1)), ('copytree', (1,)), ('copy', (1,)),
         ('copy2', (1,)), ('copyfile', (1,)))] + [(builtins, 'open', (0,), writing)]
    saved = [(m, n, getattr(m, n)) for m, n, w, c in table]
    try:
        for m, n, w, c in table:
            setattr(m, n, wrap(getattr(m, n), w, c or (lambda a, k: True)))
        yield
    finally:
        for m, n, f in saved:
            setattr(m, n, f)


def build(rng, base):
    """workspaces directory at some depth below base, with random content; -> its path"""
    top = os.path.join(base, 'p', 'q', 'r')
    wd = os.path.join(top, 'workspaces')
    for d in (base, os.path.join(base, 'p'), os.path.join(base, 'p', 'q'), top):
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, 'outside.nc'), 'w') as f:
            f.write(d)
    if rng.random() < .05:
        return wd
    os.makedirs(wd)
    for w in ('a', 'b', 'c', '.h', 'a10', 'B x'):
        if rng.random() < (.75 if len(w) == 1 else .15):
            p = os.path.join(wd, w)
            os.makedirs(p)
            for c in ('c', 'd', 'e', '.f', 'c10', 'C x'):
                if rng.random() < (.6 if len(c) == 1 else .15):
                    q = os.path.join(p, 'configs', c)
                    os.makedirs(q)
                    for f in ('CHD.json', 'CNF.json', 'CST.json'):
                        if rng.random() < .6:
                            put(os.path.join(q, f), w + c + f)
                    if rng.random() < .5:
                        os.makedirs(os.path.join(q, 'outputs'))
                        for f in ('L1B_x.nc', 'L1BS_y.nc', 'log.txt', '.L1B_z.nc', 'L1B_x.nc.nc'):
                            if rng.random() < .5:
                                item(rng, base, os.path.join(q, 'outputs', f), w + c + f)
            if rng.random() < .6:
                os.makedirs(os.path.join(p, 'inputs'))
                for f in ('i1.nc', 'i2.nc', 'j1.nc', 'readme.txt', 'ai1.nc', '.i3.nc', 'i10.nc', 'I1.nc', 'j1.nc4'):
                    if rng.random() < .5:
                        # (files that a later step may overwrite are not links)
                        (put if f == 'i1.nc' else lambda q, x: item(rng, base, q, x))(os.path.join(p, 'inputs', f), w + f)
            if rng.random() < .4:
                os.makedirs(os.path.join(p, 'notebooks'))
                for f in ('inspect-x.nc-1.ipynb', 'inspect-x.nc-2.ipynb', 'inspect-x.nc-4.ipynb', 'compare-x.nc-y.nc-1.ipynb', 'n.txt'):
                    if rng.random() < .6:
                        put(os.path.join(p, 'notebooks', f), w + f)
                if rng.random() < .3:
                    for i in range(int(rng.integers(5, 25))):
                        put(os.path.join(p, 'notebooks', 'inspect-x.nc-%d.ipynb' % (i + 1)), w + str(i))
    return wd


def item(rng, base, p, text):
    """a file or, now and then, a link to a file elsewhere in the scratch directory"""
    if rng.random() < .1:
        os.symlink(os.path.join(base, 'p', 'outside.nc'), p)
    else:
        put(p, text)


def put(p, text):
    with open(p, 'w') as f:
        f.write(text)
