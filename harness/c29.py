from .util import *
from .fstree import guarded, put, snapshot
import contextlib
import io
import pkgutil
import shutil
import dedop.util.config as cf

NAMES = ['workspaces_dir', 'x', '_x', 'X_1', 'launch_editor_command', 'processor_factory']
VALUES = ['~/w', 'plain', '', 'a~b', 3, 0, None, False, ['l'], '~', 'rel/dir', '/abs/~']


def text(rng):
    """-> (text of a configuration file, its assignments or None if it fails)"""
    d, lines = {}, ['# settings']
    for n in rng.permutation(NAMES)[:int(rng.integers(0, 5))]:
        v = VALUES[int(rng.integers(len(VALUES)))]
        lines.append('%s = %r' % (n, v))
        d[str(n)] = v
    k = int(rng.integers(9))
    if k == 0:
        lines.insert(int(rng.integers(1, len(lines) + 1)), 'this is not python')
        return '\n'.join(lines), None
    if k == 1:
        lines.append(['1 / 0', 'undefined_name', 'import no_such_module_zz', 'raise RuntimeError("x")'][int(rng.integers(4))])
        return '\n'.join(lines) + '\n', None
    if k == 2:
        lines.append('later = [1, 2]')
        d['later'] = [1, 2]
        if d.get('x') is not None:
            lines.append('x = str(x) + "!"')
            d['x'] = str(d['x']) + '!'
    if k == 3:
        lines.append('import os.path')
        d['os'] = os
        lines.append('joined = os.path.join("a", "b")')
        d['joined'] = 'a/b'
    return '\n'.join(lines) + ('\n' if rng.random() < .5 else ''), d


def place(rng, path):
    """put something at path; -> assignments (None: nothing usable), 'missing' | 'dir' | 'bad' | 'ok'"""
    k = int(rng.integers(10))
    if k <= 2:
        return {}, 'missing'
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if k == 3:
        os.mkdir(path)
        return {}, 'dir'
    t, d = text(rng)
    put(path, t)
    return (d, 'ok') if d is not None else ({}, 'bad')


@case('C29', 'settings', 250, 6000)
def settings(rng, scratch):
    base = os.path.join(scratch, 'cf')
    shutil.rmtree(base, ignore_errors=True)
    home, cwd = os.path.join(base, 'home'), os.path.join(base, 'cwd')
    os.makedirs(cwd)
    if rng.random() < .92:
        os.makedirs(home)
    user, local = os.path.join(home, '.dedop', 'config.py'), os.path.join(cwd, 'dedop-config.py')
    du, ku = place(rng, user)
    if ku == 'missing' and rng.random() < .5 and os.path.isdir(home):
        k = rng.random()
        if k < .3:
            put(os.path.join(home, '.dedop'), 'a file')
        elif k < .8:
            os.makedirs(os.path.join(home, '.dedop', 'other'))
            put(os.path.join(home, '.dedop', 'other', 'f'), 'x')
    dl, kl = place(rng, local)
    elsewhere = {os.path.join(home, 'dedop-config.py'): 'x = "not this"', os.path.join(cwd, 'config.py'): 'x = "nor this"'}
    for p, t in elsewhere.items():
        if os.path.isdir(os.path.dirname(p)) and rng.random() < .4:
            put(p, t)
    before = snapshot(base)
    old, oldhome, oldcwd = cf._CONFIG, os.environ.get('HOME'), os.getcwd()
    out = io.StringIO()
    try:
        os.environ['HOME'] = home
        os.chdir(cwd)
        cf._CONFIG = None
        with guarded(scratch), contextlib.redirect_stdout(out):
            creatable = ku == 'missing' and os.path.isdir(home) and not os.path.isfile(os.path.join(home, '.dedop'))
            # the first use may be any of the functions
            first = int(rng.integers(3))
            if first == 0:
                cf.get_config()
            elif first == 1:
                cf.get_config_value('x')
            else:
                cf.get_config_path('x')
            after = snapshot(base)
            want = dict(before)
            if creatable:
                want['home/.dedop'] = None
                want['home/.dedop/config.py'] = pkgutil.get_data('dedop.util', 'config-template.py')
            expect(set(after) == set(want), 'files changed: %r', sorted(set(after) ^ set(want)))
            expect(after == want, 'content changed: %r', [k for k in want if after[k] != want[k]])
            bad = 'bad' in (ku, kl) or ku == 'missing' and not creatable
            expect(('warning' in out.getvalue()) == bad, 'warnings %r; user file %s, local file %s', out.getvalue(), ku, kl)
            conf = dict(du)
            conf.update(dl)
            c = cf.get_config()
            expect(dict(c) == conf, 'settings %r, expected %r (user %s %r, local %s %r)', c, conf, ku, du, kl, dl)
            if rng.random() < .5:        # later changes of the files are not seen
                put(local, 'x = "changed"') if kl != 'dir' else None
                if creatable or ku in ('ok', 'bad'):
                    put(user, 'X_1 = "changed"')
            later = snapshot(base)
            for n in NAMES + ['later', 'none']:
                d = ['dflt', None, '~/d', 5][int(rng.integers(4))]
                got = cf.get_config_value(n, d) if rng.random() < .5 else cf.get_config_value(n, default=d)
                expect(got == conf.get(n, d) and type(got) is type(conf.get(n, d)), '%s: %r, expected %r', n, got, conf.get(n, d))
                w = conf.get(n, d)
                got = cf.get_config_path(n, d)
                w = None if w is None else str(w)
                if w is not None and (w == '~' or w.startswith('~/')):
                    w = home + w[1:]
                expect(got == w, 'path %s: %r, expected %r', n, got, w)
                expect(cf.get_config_value(n) == conf.get(n), '%s without default', n)
            for n in ('', None):
                for f in (cf.get_config_value, cf.get_config_path):
                    try:
                        f(n)
                        expect(False, '%s accepted the name %r', f.__name__, n)
                    except ValueError:
                        pass
            expect(cf.get_config() is c and snapshot(base) == later, 'files touched again')
    finally:
        cf._CONFIG = old
        os.chdir(oldcwd)
        if oldhome is None:
            os.environ.pop('HOME', None)
        else:
            os.environ['HOME'] = oldhome
        shutil.rmtree(base, ignore_errors=True)


@case('C29', 'reading', 60, 1500)
def reading(rng, scratch):
    t, d = text(rng)
    p = os.path.join(scratch, 'some.py')
    put(p, t)
    src = p if rng.random() < .5 else io.StringIO(t)
    try:
        got = cf.read_python_config(src)
    except Exception as e:
        expect(d is None, '%r reading %r', e, t)
        got = None
    if got is not None:
        expect(d is not None, 'no error reading %r', t)
        expect(got == d, 'assignments %r, expected %r', got, d)
    if not isinstance(src, str):
        expect(not src.closed, 'the stream given was closed')
    os.remove(p)
