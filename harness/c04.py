from .util import *
from . import proc as pr


def script(rng, bri, gaps=True, skips=True, n=None):
    n = n or int(rng.integers(1, 60))
    t, out = float(rng.uniform(1e8, 5e8)), []
    pg, ps = (rng.choice([0, 0, .03, .1]) if gaps else 0), (rng.choice([0, 0, .1, .4]) if skips else 0)
    pw = rng.choice([.3, .7, 1.])
    cont = rng.random() < .5       # skipped records do not take up time, so that they leave no gap behind
    for i in range(n):
        if rng.random() < ps:
            out.append(None)
            if not cont:
                t += bri
            continue
        t += bri * (rng.choice([1.6, 2., 5., 500.]) if rng.random() < pg else rng.uniform(.9, 1.2))
        out.append((t, bool(rng.random() < pw)))
    return out


def scene(rng, scratch, **kw):
    looks = int(rng.integers(2, 12))
    p = pr.make(scratch, bool(rng.integers(2)), cnf={'n_looks_stack': looks})
    bri = p.chd.bri_sar
    recs = script(rng, bri, **kw)
    w = rng.uniform(.5, 12) * bri
    sizes = {}

    def size(x):
        n = len(x.stack_all_bursts)
        if n == 0:
            return 0
        if x.surface_counter not in sizes:
            sizes[x.surface_counter] = int(rng.integers(0, 2 * looks)) if rng.random() < .5 else n
        return sizes[x.surface_counter]
    seen = lambda b, x: abs(b.time_sar_ku - x.under.time_sar_ku) <= w
    return p, recs, seen, size, looks, bri


def gaps_of(run, thr):
    ts = [p.time_sar_ku for p in run.delivered]
    return [j for j in range(1, len(ts)) if ts[j] - ts[j - 1] > thr]


def complete(run, min_surfs, thr, e):
    """may the run have stopped with this exception?"""
    if e is None:
        return True
    expect(run.ended and not gaps_of(run, thr) and len(run.surfaces) < min_surfs,
           'the run stopped with %r (%d of %d records read, %d surfaces, gaps %r)', e, run.pos, len(run.records),
           len(run.surfaces), gaps_of(run, thr))
    return False


def execute(run):
    try:
        run.go()
        return None
    except (Violation, pr.Failure):
        raise
    except Exception as e:
        return e


def one(rng, scratch):
    p, recs, seen, size, looks, bri = scene(rng, scratch)
    ms = int(rng.integers(2, 14))
    with pr.Run(p, recs, seen, size, min_surfs=ms) as run:
        e = execute(run)
    return run, ms, looks, 1.5 * bri, e


@case('C04', 'bursts', 400, 12000)
def bursts(rng, scratch):
    run, ms, looks, thr, e = one(rng, scratch)
    done = complete(run, ms, thr, e)
    js = [x.j for x in run.delivered]
    expect(run.ended and run.pos == len(run.records), 'the run ended after %d of %d records', run.pos, len(run.records))
    for what in ('cal1', 'cal2'):
        got = [x.j for x in getattr(run, what)]
        expect(got == js, '%s applied to bursts %r, delivered %r (records %r)', what, got, js, run.records)
    got = [x.j for x in run.queued]
    expect(got == js, 'queued bursts %r, delivered %r', got, js)
    az = [x.j for x in run.azimuth]
    expect(len(az) == len(set(az)) and az == sorted(az), 'azimuth processing of %r', az)
    g = gaps_of(run, thr)
    for j, first, pending in run.started:
        if j in g:
            expect(first and pending == 0, 'after a gap at burst %d: new surface %r, pending surfaces %d', j, first, pending)
        elif j:
            expect(not first, 'a surface is started below burst %d although there is no gap', j)
    return '%d records, %d delivered, %d surfaces, %d + %d written' % (len(run.records), len(run.delivered), len(run.surfaces), len(run.l1b), len(run.l1bs))
