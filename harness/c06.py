from .util import *
from . import proc as pr
from .c04 import scene, execute, script


def summary(run, e):
    f = lambda xs: [x.j for x in xs]
    return dict(cal1=f(run.cal1), cal2=f(run.cal2), queued=f(run.queued), azimuth=f(run.azimuth), started=run.started,
                surfaces=[(s.surface_counter, s.under.j, f(s.stack_all_bursts)) for s in run.surfaces],
                l1b=[s.surface_counter for s in run.l1b], l1bs=[s.surface_counter for s in run.l1bs],
                steps=[(n, x.surface_counter) for n, x in run.steps], focus=run.focus[:1], state=run.angle_state,
                trend=[p.trend_args for p in run.azimuth if hasattr(p, 'trend_args')], error=repr(e))


@case('C06', 'again', 250, 8000)
def again(rng, scratch):
    p, recs, seen, size, looks, bri = scene(rng, scratch)
    ms = int(rng.integers(2, 14))
    fixed = {}

    def size2(x):
        n = len(x.stack_all_bursts)
        return fixed.setdefault((x.surface_counter, n), int(rng.integers(0, 2 * looks)) if n else 0)
    with pr.Run(p, recs, seen, size2, min_surfs=ms) as run:
        e = execute(run)
    want = summary(run, e)
    q = pr.make(scratch, not p.skip_l1bs, cnf={'n_looks_stack': looks})
    for _ in range(rng.integers(1, 3)):
        first = script(rng, bri, n=int(rng.integers(1, 40)))
        mode = rng.integers(3)
        k = int(rng.integers(0, 30))
        with pr.Run(q, first, seen, size, min_surfs=ms, cancel=k if mode == 1 else None,
                    fail=k if mode == 2 else None) as r1:
            try:
                execute(r1)
            except pr.Failure:
                pass
            except Violation:
                raise Skip('the first run is not good')
    with pr.Run(q, recs, seen, size2, min_surfs=ms) as run:
        e = execute(run)
    got = summary(run, e)
    for k in want:
        expect(got[k] == want[k], '%s after another run (%s): %r, with a new processor %r', k,
               ['complete', 'cancelled', 'failed'][mode], got[k], want[k])
    return '%d records, %d delivered, %d surfaces, %d + %d written' % (len(run.records), len(run.delivered), len(run.surfaces), len(run.l1b), len(run.l1bs))
