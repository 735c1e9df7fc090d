from .util import *
from . import proc as pr
from .c04 import one, complete


@case('C05', 'surfaces', 400, 12000)
def surfaces(rng, scratch):
    run, ms, looks, thr, e = one(rng, scratch)
    if not complete(run, ms, thr, e):
        expect(not run.l1b and not run.l1bs, 'records written by a run that was given up')
        return
    sc = [s.surface_counter for s in run.surfaces]
    expect(sc == list(range(len(sc))), 'surface numbers %r', sc)
    taken = [x.surface_counter for n, x in run.steps if n == 'gathering']
    expect(taken == sc, 'surfaces taken up %r of %r', taken, sc)
    want = [s.surface_counter for s in run.surfaces if s.data_stack_size >= looks // 2]
    got = [s.surface_counter for s in run.l1b]
    expect(got == want, 'L1B records %r, expected %r (half of %d looks)', got, want, looks)
    got = [s.surface_counter for s in run.l1bs]
    expect(got == ([] if run.proc.skip_l1bs else want), 'L1B-S records %r, expected %r', got, want)
    for s in run.l1b:
        st = [n for n, x in run.steps if x is s]
        expect(st == ['gathering', 'geometry_corrections', 'range_compression', 'stack_masking', 'multilooking',
                      'sigma_zero'], 'steps %r', st)
    expect(sorted(run.closed) == (['l1b'] if run.proc.skip_l1bs else ['l1b', 'l1bs']), 'closed %r', run.closed)
    return '%d records, %d delivered, %d surfaces, %d + %d written' % (len(run.records), len(run.delivered), len(run.surfaces), len(run.l1b), len(run.l1bs))
