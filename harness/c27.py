from .climain import *
from dedop.model.exception import ProcessorException
import inspect
import dedop.proc.sar
from dedop.proc.sar import L1BProcessor


@case('C27', 'run', 120, 3000)
def run(rng, scratch):
    base, wd = world(rng, scratch)
    for step in range(int(rng.integers(1, 4))):
        w = pickws(rng, wd)
        c = pickcfg(rng, wd, w, .6)
        allc, skip, quiet = rng.random() < .35, rng.random() < .4, rng.random() < .7
        out = pick(rng, ['/some/out', 'out'], .7)
        files = pick(rng, [['x.nc'], ['x.nc', 'y.nc', 'x.nc'], ['z.nc', 'a.nc']], .7)
        bad = int(rng.integers(1, 6)) if rng.random() < .2 else None
        argv = ['run'] + [x for on, x in ((skip, '-s'), (quiet, '-q'), (allc, '-a')) if on]
        argv += [y for x, v in (('-w', w), ('-c', c), ('-o', out)) if v for y in (x, v)]
        argv += ['-i'] + files if files else []

        def process(log, name, paths, f):
            log.append((name, paths, f))
            if bad is not None and len(log) == bad:
                raise ProcessorException('cannot process')

        want, got = [], []

        def oracle(S, asks):
            if allc and c:
                raise Failed()
            v = cur_ws(S, w)
            x = cur_cfg(S, v, c)
            v = v or default_ws(S)
            if allc:
                xs = need(S.get_config_names(v))
            else:
                xs = [x or default_cfg(S, v)]
            ins = need(files or [os.path.join(wd, v, 'inputs', n) for n in S.get_input_names(v)])
            for x in xs:
                d = os.path.join(wd, v, 'configs', x)
                paths = tuple(os.path.join(d, k + '.json') for k in ('CNF', 'CST', 'CHD')) + (
                    out or os.path.join(d, 'outputs'), skip)
                for f in ins:
                    try:
                        process(want, x, paths, f)
                    except ProcessorException:
                        raise Failed()

        class Proc:
            def __init__(self, name, cnf_file=None, cst_file=None, chd_file=None, output_dir='.', skip_l1bs=True):
                self.name, self.paths = name, (cnf_file, cst_file, chd_file, output_dir, skip_l1bs)

            def process(self, f, monitor=None):
                expect((monitor is Monitor.NULL) == quiet, 'progress shown: %r, quiet: %r', monitor, quiet)
                process(got, self.name, self.paths, f)
        perform(argv, oracle, base, wd, False, 'yes', Proc)
        expect(got == want, '%s processed (configuration, files, input)\n  %s\ninstead of\n  %s', 'dedop ' + ' '.join(argv),
               '\n  '.join(map(repr, got[:8])), '\n  '.join(map(repr, want[:8])))


@case('C27', 'default-processor', 40, 400)
def default_processor(rng, scratch):
    """the processor built by default"""
    base, wd = world(rng, scratch)
    for w in ('w', 'v'):
        p = os.path.join(wd, w, 'configs', 'c')
        os.makedirs(p)
        for k in ('CHD', 'CNF', 'CST'):
            put(os.path.join(p, k + '.json'), '{}')
    p = os.path.join(wd, 'w', 'configs', 'c')
    made, sig = [], inspect.signature(L1BProcessor.__init__)

    class Proc:
        def __init__(self, *a, **k):
            b = sig.bind(None, *a, **k)
            b.apply_defaults()
            made.append(dict(b.arguments))

        def process(self, f, monitor=None):
            made[-1]['input'] = f
    skip, mode = bool(rng.integers(2)), int(rng.integers(3))
    argv = ['run', '-q', '-w', 'w', '-c', 'c', '-i', 'x.nc'] + (['-s'] if skip else [])
    used = []

    class Other(Proc):
        def __init__(self, name, cnf_file=None, cst_file=None, chd_file=None, output_dir='.', skip_l1bs=True):
            used.append((name, cnf_file, cst_file, chd_file, output_dir, skip_l1bs))

        def process(self, f, monitor=None):
            used.append(f)
    saved = dedop.proc.sar.L1BProcessor
    dedop.proc.sar.L1BProcessor = Proc
    try:
        with session(base, 'no') as (asked, out):
            dconfig._CONFIG = {'processor_factory': Other} if mode == 1 else {}
            given = rng.random() < .5
            if not given:
                dconfig._CONFIG['workspaces_dir'] = wd
            rc = cli.main(args=argv, workspace_manager=Manager(wd, False) if given else None, processor_factory=Other if mode == 2 else None)
    finally:
        dedop.proc.sar.L1BProcessor = saved
    expect(rc == 0, 'returned %r: %s', rc, out.getvalue()[-300:])
    path = lambda k: os.path.join(p, k + '.json')
    want = ['c', path('CNF'), path('CST'), path('CHD'), os.path.join(p, 'outputs'), skip]
    if mode:
        expect(used == [tuple(want), 'x.nc'] and not made, 'the %s factory got %r', 'configured' if mode == 1 else 'given', used)
        return
    expect(len(made) == 1, '%d processors', len(made))
    a = {k: v for k, v in made[0].items() if k != 'self'}
    got = [next((v for k, v in a.items() if k.startswith(x)), None) for x in ('name', 'cnf', 'cst', 'chd', 'out', 'skip')]
    expect(got == want and a['input'] == 'x.nc', 'processor of %r, expected %r', got, want)
