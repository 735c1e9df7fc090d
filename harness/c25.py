from .util import *
from .fstree import build, guarded, put, snapshot
import contextlib
import fnmatch
import io
import shutil
from dedop.ui.workspace_manager import WorkspaceManager
from dedop.util.monitor import Monitor

PATTERNS = ['*.nc', 'i*.nc', '*1.nc', 'i1.nc', 'L1B*', '*.txt', 'zz', '?1.nc', '[ij]*', 'i1', '1.nc', '.nc', '*i1*', 'i[!1]*', 'I*', '.*', '*.nc*']


def fresh(rng, scratch):
    base = os.path.join(scratch, 'fs')
    shutil.rmtree(base, ignore_errors=True)
    wd = build(rng, base)
    if os.path.isdir(wd) and rng.random() < .5:
        put(os.path.join(wd, 'stray.txt'), 'x')
        for w in os.listdir(wd):
            p = os.path.join(wd, w, 'configs')
            if os.path.isdir(p):
                put(os.path.join(p, 'note'), 'x')
    if rng.random() < .3 and os.path.isdir(wd):
        p = os.path.join(wd, 'a', 'inputs', 'dir1.nc')
        os.makedirs(p)
    return base, wd, WorkspaceManager(wd)


def entries(d, pred):
    return sorted(x for x in os.listdir(d) if pred(os.path.join(d, x))) if os.path.isdir(d) else []


@case('C25', 'listings', 120, 3000)
def listings(rng, scratch):
    base, wd, m = fresh(rng, scratch)
    before = snapshot(base)
    real, order = os.listdir, rng.permutation(100)

    def shuffled(*a):
        xs = sorted(real(*a))
        return [xs[i] for i in order if i < len(xs)]
    os.listdir = shuffled
    try:
        got = m.get_workspace_names()
        expect(got == entries(wd, os.path.isdir), 'workspaces %r', got)
        got = m.get_workspaces()
        expect([x['name'] for x in got or []] == entries(wd, os.path.isdir), 'workspace descriptions %r', got)
        for x in got or []:
            expect(x['workspace_dir'] == os.path.join(wd, x['name']), 'directory of %r', x)
        for w in entries(wd, os.path.isdir):
            p = os.path.join(wd, w)
            got = m.get_config_names(w)
            want = entries(os.path.join(p, 'configs'), os.path.isdir)
            expect((got or []) == want, 'configurations %r, expected %r', got, want)
            got = m.get_notebook_names(w)
            want = [x for x in entries(os.path.join(p, 'notebooks'), os.path.isfile) if x.endswith('.ipynb')]
            expect(got == want, 'notebooks %r, expected %r', got, want)
            r = rng.random()
            if r < .25:
                pat = None
            elif r < .5:
                pat = PATTERNS[int(rng.integers(len(PATTERNS)))]
            else:
                pat = [PATTERNS[int(i)] for i in rng.integers(len(PATTERNS), size=int(rng.integers(0, 4)))]
                if rng.random() < .2:
                    pat = tuple(pat)
            ok = lambda x: x.endswith('.nc') and (not pat or any(
                fnmatch.fnmatch(x, q) for q in ([pat] if isinstance(pat, str) else pat)))
            kw = {} if pat is None else {'pattern': pat}
            d = os.path.join(p, 'inputs')
            want = [x for x in entries(d, os.path.isfile) if ok(x)]
            got = m.get_input_names(w, **kw)
            expect(got == want, 'inputs matching %r: %r, expected %r', pat, got, want)
            got = m.get_input_paths(w)
            want = [os.path.join(d, x) for x in entries(d, os.path.isfile) if x.endswith('.nc')]
            expect(got == want, 'input paths %r, expected %r', got, want)
            for c in m.get_config_names(w) or []:
                d = os.path.join(p, 'configs', c, 'outputs')
                want = [x for x in entries(d, os.path.isfile) if ok(x)]
                got = m.get_output_names(w, c, **kw)
                expect(got == want, 'outputs matching %r: %r, expected %r', pat, got, want)
    finally:
        os.listdir = real
    expect(snapshot(base) == before, 'listing changed the file system')
    return sorted(before)[:40]


@case('C25', 'notebooks', 60, 1000)
def notebooks(rng, scratch):
    base, wd, m = fresh(rng, scratch)
    if not os.path.isdir(wd) or not entries(wd, os.path.isdir):
        return 'no workspace'
    launched = []
    m.launch_notebook = lambda *a, **k: launched.append(k.get('notebook_path') or a[-1])
    ws = entries(wd, os.path.isdir)
    for step in range(int(rng.integers(1, 6))):
        w = ws[int(rng.integers(len(ws)))]
        before = snapshot(base)
        with guarded(base), contextlib.redirect_stdout(io.StringIO()):
            if rng.random() < .6:
                m.inspect_l1b_product(w, '/data/%s.nc' % 'xy'[int(rng.integers(2))])
            else:
                m.compare_l1b_products(w, '/data/x.nc', '/data/%s.nc' % 'xy'[int(rng.integers(2))])
        after = snapshot(base)
        changed = [k for k in before if after.get(k, b'?') != before[k]]
        expect(not changed, 'existing files changed: %r', changed)
        new = [k for k in after if k not in before and after[k] is not None]
        expect(len(new) == 1 and new[0].endswith('.ipynb') and '/%s/notebooks/' % w in '/' + new[0], 'new files %r', new)
        expect(os.path.realpath(launched[-1]) == os.path.realpath(os.path.join(base, new[0])), 'launched %r', launched[-1])
    return sorted(before)[:40]


@case('C25', 'selections', 60, 2000)
def selections(rng, scratch):
    base, wd, m = fresh(rng, scratch)
    cur, curc, hist = None, {}, []
    for step in range(int(rng.integers(1, 10))):
        w = ['a', 'b', 'c', 'd', '.h', 'a10', 'B x'][int(rng.integers(7))]
        c = ['c', 'd', 'e', 'f', '.f', 'c10', 'C x'][int(rng.integers(7))]
        before = snapshot(base)
        if rng.random() < .5:
            hist.append('select %s' % w)
            ok = os.path.isdir(os.path.join(wd, w))
            f = lambda: m.set_current_workspace_name(w)
        else:
            hist.append('select %s/%s' % (w, c))
            ok = os.path.isdir(os.path.join(wd, w, 'configs', c))
            f = lambda: m.set_current_config_name(w, c)
        try:
            with guarded(base):
                f()
            done = True
        except Violation:
            raise
        except Exception as e:
            done = False
        expect(done == ok, '%s: %s', '; '.join(hist), 'accepted' if done else 'rejected')
        after = snapshot(base)
        diff = [k for k in set(before) | set(after) if before.get(k, 0) != after.get(k, 0)]
        if not done:
            expect(not diff, '%s: rejected, but changed %r', '; '.join(hist), diff)
            continue
        expect(len(diff) <= 1 and all(os.path.basename(k) == '.current' for k in diff), '%s: changed %r', '; '.join(hist), diff)
        if '/' in hist[-1]:
            curc[w] = c
        else:
            cur = w
        if cur is not None:
            got = m.get_current_workspace().name
            expect(got == cur, '%s: current workspace %r', '; '.join(hist), got)
        for x in curc:
            got = m.get_current_config_name(x)
            expect(got == curc[x], '%s: current configuration of %s is %r', '; '.join(hist), x, got)
    return '%d selections' % len(hist)
