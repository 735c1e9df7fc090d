"""the real processor with scripted input and recording stand-ins for the algorithms and writers"""
import contextlib
import io
from .util import *
import dedop.proc.sar.processor as P
from dedop.proc.sar import L1BProcessor
from dedop.util.monitor import Monitor

BRI = None


def conffiles(scratch, chd=None, cst=None, cnf=None):
    out = {}
    for which, cls, over in (('CHD', CharacterisationFile, chd), ('CST', ConstantsFile, cst), ('CNF', ConfigurationFile, cnf)):
        d = json.load(open(os.path.join(REPO, 'test_data', 'common', which + '.json')))
        for k, v in (over or {}).items():
            n = param_name(cls, k)
            d.setdefault(n, {'value': None, 'units': None, 'description': ''})['value'] = v
        out[which] = os.path.join(scratch, which + '.json')
        with open(out[which], 'w') as f:
            json.dump(d, f)
    return out


def make(scratch, l1bs, **over):
    c = conffiles(scratch, **over)
    with contextlib.redirect_stdout(io.StringIO()):
        return L1BProcessor('p', c['CNF'], c['CST'], c['CHD'], scratch, skip_l1bs=not l1bs)


class Failure(Exception):
    pass


class Globals:
    def __getattr__(self, n):
        if n.startswith('get_'):
            return lambda *a, **k: n
        return n


class Packet:
    """one delivered burst"""

    def __init__(self, j, index, time):
        self.j, self.counter, self.source_seq_count, self.time_sar_ku = j, index, index, time
        self.burst_processed = False
        self.beam_angles_list, self.surfaces_seen_list, self.beam_angles_trend = [], [], 0

    def calculate_beam_angles_trend(self, a, b):
        self.trend_args = (a, b)
        self.beam_angles_trend = 1

    def __repr__(self):
        return 'burst %d' % self.j


class Surf:
    def __init__(self, counter, under):
        self.surface_counter, self.under = counter, under
        self.stack_all_bursts = []
        self.focus_target_distance = None
        self.steps = []

    def __repr__(self):
        return 'surface %d' % self.surface_counter

    def add_stack_burst(self, p):
        self.stack_all_bursts.append(p)

    def add_stack_beam_index(self, *a):
        pass

    def compute_surf_sat_vector(self, *a):
        pass

    def compute_angular_azimuth_beam_resolution(self, *a):
        pass


class Results:
    """algorithm outputs: anything"""

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return n


class Run:
    """events of one run of `proc` over the records: None (skipped by the reader) or (time, surface wanted)"""

    def __init__(self, proc, records, seen, size, min_surfs=None, cancel=None, fail=None):
        self.proc, self.records, self.seen, self.size = proc, records, seen, size
        self.cancel, self.fail = cancel, fail
        self.cal1, self.cal2, self.queued, self.azimuth, self.taken = [], [], [], [], []
        self.surfaces, self.l1b, self.l1bs, self.started = [], [], [], []
        self.delivered, self.pos, self.ended, self.closed, self.steps = [], 0, False, [], []
        self.iterations = 0
        self.focus = []
        self.angle_state = []
        self.held = []
        self.globals, self.times = [], (123.25, 456.5)
        if min_surfs is not None:
            proc.min_surfs = min_surfs

    def __enter__(self):
        run, proc = self, self.proc
        self.saved = {k: getattr(P, k) for k in ('L1ADataset', 'L1BWriter', 'L1BWriterExtended', 'L1BSWriter', 'SurfaceData')}
        self.algs = {k: v for k, v in vars(proc).items() if k.endswith('_algorithm')}

        class Input:
            file_path = 'input'

            def __init__(self, *a, **k):
                pass

            def __len__(self):
                return len(run.records)

            def __iter__(self):
                return self

            def __next__(self):
                run.iterations += 1
                if run.iterations > 20 * len(run.records) + 2000:
                    raise Violation('the run does not end')
                if run.pos >= len(run.records):
                    run.ended = True
                    raise StopIteration()
                r = run.records[run.pos]
                run.pos += 1
                if r is None:
                    return None
                p = Packet(len(run.delivered), run.pos - 1, r[0])
                p.wants = r[1]
                run.delivered.append(p)
                return p

            def read_globals(self):
                return Globals()

            def first_time(self):
                return run.times[0]

            def last_time(self):
                return run.times[1]

        class Writer:
            def __init__(self, filename=None, **k):
                self.file_path = filename
                self.is_open = False

            def open(self):
                self.is_open = True

            def write_record(self, s):
                expect(self.is_open, 'record written to a product that is not open')
                getattr(run, self.which).append(s)
                run.held.append((self.which, s, frozenset(vars(s)), [n for n, x in run.steps if x is s]))

            def write_globals(self, **k):
                run.globals.append((self.which, dict(k)))

            def close(self):
                self.is_open = False
                run.closed.append(self.which)

        class SurfaceStub(Surf):
            def __init__(self, cst, chd, counter, **loc):
                Surf.__init__(self, counter, loc['under'])
                run.surfaces.append(self)

        P.L1ADataset = Input
        P.L1BWriter = P.L1BWriterExtended = type('W', (Writer,), {'which': 'l1b'})
        P.L1BSWriter = type('W', (Writer,), {'which': 'l1bs'})
        P.SurfaceData = SurfaceStub

        proc.cal1_algorithm = lambda p: run.cal1.append(p)
        proc.cal2_algorithm = lambda p: run.cal2.append(p)

        class Locs:
            focus_found = getattr(self.algs.get('surface_locations_algorithm'), 'focus_found', False)

            def __call__(s, surfaces, bursts, force_new=False):
                p = bursts[-1]
                run.queued.append(p)
                run.focus.append(s.focus_found)
                run.angle_state.append((proc.beam_angles_list_size_prev, proc.beam_angles_trend_prev))
                expect(list(b.j for b in bursts) == sorted(set(b.j for b in bursts)), 'order of the bursts in the queue')
                s.first = (not surfaces) or force_new
                run.started.append((p.j, s.first, len(surfaces)))
                s.under = p
                if not s.first and len(bursts) < 2:
                    raise Violation('the previous burst is no longer available')
                if run.fail == p.j:
                    s.focus_found = True
                    raise Failure()
                return s.first or p.wants

            def get_surface(s):
                return {'under': s.under}

        class Angles:
            def __call__(s, surfaces, packet, working):
                expect(not packet.burst_processed, '%r is processed twice', packet)
                see = [x for x in surfaces if run.seen(packet, x)]
                s.work_location_seen = working in see
                s.surfaces_seen = [x.surface_counter for x in see]
                s.beam_angles = [0.] * len(see)
        proc.surface_locations_algorithm = Locs()
        proc.beam_angles_algorithm = Angles()

        class Alg(Results):
            def __init__(s, name):
                s.name = name

            def __call__(s, x, *a):
                if s.name == 'azimuth':
                    run.azimuth.append(x)
                else:
                    run.steps.append((s.name, x))
                if s.name == 'gathering':
                    s.data_stack_size = run.size(x)
                    s.stack_bursts = x.stack_all_bursts
                return 0.

        for k in ('azimuth_processing', 'stack_gathering', 'geometry_corrections', 'range_compression', 'stack_masking',
                  'multilooking', 'sigma_zero'):
            setattr(proc, k + '_algorithm', Alg({'azimuth_processing': 'azimuth', 'stack_gathering': 'gathering'}.get(k, k)))
        return self

    def __exit__(self, *a):
        for k, v in self.saved.items():
            setattr(P, k, v)
        return False

    def go(self):
        run = self

        class Mon(Monitor):
            n = 0

            def start(self, label, total_work):
                pass

            def progress(self, work=None, msg=None):
                pass

            def done(self):
                pass

            def is_cancelled(s):
                s.n += 1
                if s.n > 50 * len(run.records) + 5000:
                    raise Violation('the run does not end')
                return run.cancel is not None and run.pos > run.cancel

            def cancel(self):
                pass

            def child(self, *a, **k):
                return Monitor.NULL
        with contextlib.redirect_stdout(io.StringIO()):
            return self.proc.process('x.nc', Mon())
