A = 'dedop/proc/sar/algorithms/'
L1A = '''
import shutil, warnings
warnings.simplefilter('ignore')
import netCDF4 as nc
from dedop.data.input.l1a import L1ADataset
SRC = 'test_data/data/test_l1a/inputs/l1a_test.nc'
T = '_l1a_echo_sar_ku'
tmp = tempfile.mkdtemp()
def l1a(cnf=None, chd=None, **vals):
    p = os.path.join(tmp, 'l1a_%d.nc' % len(os.listdir(tmp))); shutil.copy(SRC, p)
    d = nc.Dataset(p, 'r+')
    for k, v in vals.items(): d.variables[k + T][:] = v
    d.close()
    a, b, c = mkconf(cnf=dict(dict(min_lat=None, max_lat=None, min_lon=None, max_lon=None), **(cnf or {})), chd=chd)
    return L1ADataset(p, b, a, c)
'''
PROC = '''
import contextlib, io
import dedop.proc.sar.processor as P
from dedop.util.monitor import Monitor
class Any:
    def __getattr__(s, n):
        if n.startswith('__'): raise AttributeError(n)
        return (lambda *a, **k: n) if n.startswith('get_') else n
class Pk:
    burst_processed = False; beam_angles_trend = 0
    def __init__(s, j, t): s.counter = s.source_seq_count = s.j = j; s.time_sar_ku = t
    def calculate_beam_angles_trend(s, a, b): pass
class Sf:
    focus_target_distance = None
    def __init__(s, cst, chd, n, under=None): s.surface_counter = n; s.under = under; s.stack_all_bursts = []; LOG['surf'].append(s)
    def add_stack_burst(s, p): s.stack_all_bursts.append(p)
    def add_stack_beam_index(s, *a): pass
    compute_surf_sat_vector = compute_angular_azimuth_beam_resolution = lambda s, *a: None
LOG = {}
def proc(times, every, seen, size, min_surfs=3, looks=4, l1bs=True, old=None, cancel=None):
    """run the processor on bursts at `times`; a surface every `every` bursts; seen(packet, surface); size(surface)"""
    LOG.clear(); LOG.update(surf=[], cal1=[], azimuth=[], l1b=[], l1bs=[], steps=[], new=[])
    d = tempfile.mkdtemp()
    if old is None:
        f = {}
        for w in ('CHD', 'CNF', 'CST'):
            c = json.load(open('test_data/common/%s.json' % w))
            if w == 'CNF': c.setdefault(vars(ConfigurationFile)['n_looks_stack'].name, {})['value'] = looks
            f[w] = os.path.join(d, w + '.json'); json.dump(c, open(f[w], 'w'))
        p = P.L1BProcessor('p', f['CNF'], f['CST'], f['CHD'], d, skip_l1bs=not l1bs)
    else: p = old
    p.min_surfs = min_surfs
    it = iter([Pk(j, t) for j, t in enumerate(times)])
    class In(Any):
        def __init__(s, *a, **k): pass
        def __len__(s): return len(times)
        def __iter__(s): return s
        def __next__(s): return next(it)
        def read_globals(s): return Any()
        def first_time(s): return 0.
        last_time = first_time
    def writer(which):
        class W(Any):
            def __init__(s, **k): pass
            def open(s): pass
            def write_record(s, x): LOG[which].append(x.surface_counter)
            def write_globals(s, **k): pass
            def close(s): pass
        return W
    P.L1ADataset, P.L1BWriter, P.L1BWriterExtended, P.L1BSWriter, P.SurfaceData = In, writer('l1b'), writer('l1b'), writer('l1bs'), Sf
    class Loc:
        focus_found = False; n = 0
        def __call__(s, surfaces, bursts, force_new=False):
            b = bursts[-1]; s.under = b
            LOG['new'].append((b.j, force_new))
            return not surfaces or force_new or b.j % every == 0
        def get_surface(s): return dict(under=s.under)
    class Ang:
        def __call__(s, surfaces, b, work):
            see = [x for x in surfaces if seen(b, x)]
            s.surfaces_seen = [x.surface_counter for x in see]; s.beam_angles = [0.] * len(see); s.work_location_seen = work in see
    class Alg(Any):
        def __init__(s, n): s.n_ = n
        def __call__(s, x, *a):
            if s.n_ == 'azimuth_processing': LOG['azimuth'].append(x.j)
            else: LOG['steps'].append((s.n_, x.surface_counter))
            if s.n_ == 'stack_gathering': s.data_stack_size = size(x)
            return 0.
    p.cal1_algorithm = lambda b: LOG['cal1'].append(b.j)
    p.cal2_algorithm = lambda b: None
    p.surface_locations_algorithm, p.beam_angles_algorithm = Loc(), Ang()
    for n in 'azimuth_processing stack_gathering geometry_corrections range_compression stack_masking multilooking sigma_zero'.split():
        setattr(p, n + '_algorithm', Alg(n))
    class M(Monitor):
        k = 0
        def start(s, *a, **k): pass
        progress = done = start
        def is_cancelled(s): s.k += 1; return cancel is not None and s.k > cancel
        def child(s, *a): return Monitor.NULL
    with contextlib.redirect_stdout(io.StringIO()): p.process('x.nc', M())
    return p
near = lambda r: (lambda b, s: abs(b.j - s.under.j) <= r)
'''
SEEDS = [
 dict(id='C01-zero-limit', property='C01', edits=[('dedop/data/input/l1a/l1a_dataset.py', '''            if self.cnf.min_lat is not None:
                roi_filter''', '''            if self.cnf.min_lat:
                roi_filter''')], needs='a region of interest limited by the equator (minimum latitude 0)',
   breaks='a minimum latitude of zero is ignored', demo=L1A + '''
lat = np.array([-3., -2., -1., 0., 1., 2., 3., 2., 1., -1.])
d = l1a(dict(min_lat=0., max_lat=2.5), lat=lat, lon=10.)
got = [d._dset.get_value and None if p is None else p.counter for p in iter(lambda: next(d, 'end'), 'end')]
same([i for i in got if i is not None], [3, 4, 5, 7, 8], 'bursts inside the region')
'''),
 dict(id='C01-filter-offset', property='C01', edits=[('dedop/data/input/l1a/l1a_dataset.py',
   'return self._roi_filter[index]', 'return self._roi_filter[max(index - self._start_index, 0) if index > 2 * self._start_index else index]')],
   needs='a track leaving and re-entering the region of interest, which starts after the first record', breaks='later records are selected by the position of other records',
   demo=L1A + '''
lat = np.array([50., 5, 5, 50, 5, 50, 5, 5, 50, 5])
d = l1a(dict(min_lat=0., max_lat=10.), lat=lat, lon=10.)
got = [p.counter for p in iter(lambda: next(d, 'end'), 'end') if p is not None]
same(got, [1, 2, 4, 6, 7, 9], 'bursts inside the region')
'''),
 dict(id='C02-forward-only', property='C02', edits=[('dedop/data/input/netcdf_reader.py',
   'if chunk_start != self.chunk_index:', 'if self.chunk_index is None or chunk_start > self.chunk_index:')],
   needs='reading a record of an earlier block after a later one', breaks='values of the wrong record are returned when going back',
   demo=L1A + '''
from dedop.data.input.netcdf_reader import NetCDFReader
from dedop.data.input.l1a.enums import L1AVariables
p = os.path.join(tmp, 'a.nc'); shutil.copy(SRC, p)
d = nc.Dataset(p, 'r+'); d.variables['lat' + T][:] = np.arange(10.); d.close()
r = NetCDFReader(p, chunk_size=4)
same([r.get_value(L1AVariables.lat_l1a_echo_sar_ku, i) for i in (9, 2, 5, 0)], [9, 2, 5, 0], 'latitudes', 1e-5)
'''),
 dict(id='C02-last-block', property='C02', edits=[('dedop/data/input/netcdf_reader.py',
   'if chunk_start >= varlen:', 'if chunk_start + 1 >= varlen:')],
   needs='a last block of exactly one record', breaks='the last record is read from the previous block',
   demo=L1A + '''
from dedop.data.input.netcdf_reader import NetCDFReader
from dedop.data.input.l1a.enums import L1AVariables
p = os.path.join(tmp, 'a.nc'); shutil.copy(SRC, p)
d = nc.Dataset(p, 'r+'); d.variables['lat' + T][:] = np.arange(10.); d.close()
r = NetCDFReader(p, chunk_size=3)
same([r.get_value(L1AVariables.lat_l1a_echo_sar_ku, i) for i in range(10)], np.arange(10.), 'latitudes', 1e-5)
'''),
 dict(id='C03-table-index', property='C03', edits=[('dedop/data/input/l1a/l1a_dataset.py',
   '[self.cnf.flag_cal2_table_index, :]', '[self.cnf.flag_cal2_table_index and 1, :]')],
   needs='a gain table index of 2 or more', breaks='the CAL2 gains are taken from table 1',
   demo=L1A + '''
d = l1a(dict(flag_cal2_table_index=2), gprw_meas_ku=np.broadcast_to(np.array([1., 2., 3.])[None, :, None], (10, 3, 128)), lat=5., lon=5.)
same(np.unique(d[0].cal2_array), [3.], 'gain table', 1e-3)
'''),
 dict(id='C03-agc-even', property='C03', edits=[('dedop/data/input/l1a/l1a_dataset.py',
   'scale_factor = pow(10., -agc / 20.)', 'scale_factor = pow(10., -round(agc, 1) / 20.)')],
   needs='a gain that is no multiple of a tenth of a dB', breaks='the waveform is scaled with a rounded gain',
   demo=L1A + '''
d = l1a(i_meas_ku=10., q_meas_ku=0., agc_ku=30.04, lat=5., lon=5.)
same(abs(d[0].waveform_cor_sar[0, 0]), 10. * 10 ** (30.04 / 20), 'amplitude', 1e-4)
'''),
 dict(id='C04-unseen-twice', property='C04', edits=[('dedop/proc/sar/processor.py', '''                        processed_packet.burst_processed = True

                        if not self.beam_angles_algorithm.work_location_seen:
                            break
''', '''                        if not self.beam_angles_algorithm.work_location_seen:
                            break

                        processed_packet.burst_processed = True
''')], needs='a queued burst that does not see the working surface', breaks='such a burst is processed and attributed again for the next surface',
   demo=PROC + '''
proc(0.01 * np.arange(40), 2, near(3), lambda s: 4, min_surfs=8)
same(LOG['azimuth'], sorted(set(LOG['azimuth'])), 'azimuth processed bursts')
'''),
 dict(id='C04-gap-exact', property='C04', edits=[('dedop/proc/sar/processor.py', '''                    if prev_time is None or input_packet.time_sar_ku - prev_time < self.gap_threshold:
''', '''                    if prev_time is None or input_packet.time_sar_ku - prev_time < self.gap_threshold or \\
                            len(self.surf_locs) < 2:
''')], needs='a gap while at most one surface is queued', breaks='the gap is not noticed',
   demo=PROC + '''
t = np.concatenate([0.01 * np.arange(3), 50 + 0.01 * np.arange(30)])
proc(t, 50, near(5), lambda s: 4, min_surfs=2)
same([s.under.j for s in LOG['surf']][:2], [0, 3], 'a surface is created below the first burst after a gap')
'''),
 dict(id='C05-thin-boundary', property='C05', edits=[('dedop/proc/sar/processor.py',
   'if working_loc.data_stack_size < (self.cnf.n_looks_stack // 2):', 'if 2 * working_loc.data_stack_size < self.cnf.n_looks_stack:')],
   needs='an odd number of looks and a stack of exactly half of it rounded down', breaks='such a surface is rejected',
   demo=PROC + '''
proc(0.01 * np.arange(40), 2, near(5), lambda s: 2, looks=5)
same(LOG['l1b'], [s.surface_counter for s in LOG['surf']], 'surfaces written')
'''),
 dict(id='C05-stale-l1bs', property='C05', edits=[('dedop/proc/sar/processor.py', '''                    if self.l1bs_file is not None:
                        self.l1bs_file.write_record(working_loc)

''', '''                    if self.l1bs_file is not None and (not gap_processing or len(self.surf_locs) > 1):
                        self.l1bs_file.write_record(working_loc)

''')], needs='a gap, with the L1B-S product', breaks='the last surface before a gap is missing from the L1B-S product',
   demo=PROC + '''
t = np.concatenate([0.01 * np.arange(20), 50 + 0.01 * np.arange(20)])
proc(t, 2, near(5), lambda s: 4)
same(LOG['l1bs'], LOG['l1b'], 'records of the two products')
'''),
 dict(id='C06-trend-state', property='C06', edits=[('dedop/proc/sar/processor.py', '''        status = -1
        self.beam_angles_list_size_prev = -1
        self.beam_angles_trend_prev = -1
        self.surfaces_count = 0
''', '''        status = -1
        if not self.surfaces_count:
            self.beam_angles_list_size_prev = -1
            self.beam_angles_trend_prev = -1
        self.surfaces_count = 0
''')], needs='a processor object used for a second run', breaks='the beam angle trend state of the previous run enters the next one',
   demo=PROC + '''
p = proc(0.01 * np.arange(40), 2, near(5), lambda s: 4)
seen = []
Pk.calculate_beam_angles_trend = lambda s, a, b: seen.append(a)
proc(0.01 * np.arange(40), 2, near(5), lambda s: 4, old=p)
same(seen[0], -1, 'list size before the first burst')
'''),
 dict(id='C06-count-kept', property='C06', edits=[('dedop/proc/sar/processor.py', '''        self.beam_angles_trend_prev = -1
        self.surfaces_count = 0
''', '''        self.beam_angles_trend_prev = -1
        if self.l1b_file is None or self.skip_l1bs:
            self.surfaces_count = 0
'''), ('dedop/proc/sar/processor.py', '''        self.l1a_file = None

''', '''        self.l1a_file = None
        self.l1b_file = None

''')], needs='a second run with the L1B-S product', breaks='surfaces are numbered on from the previous run',
   demo=PROC + '''
p = proc(0.01 * np.arange(40), 2, near(5), lambda s: 4)
proc(0.01 * np.arange(40), 2, near(5), lambda s: 4, old=p)
same(LOG['l1b'][0], 0, 'number of the first surface')
'''),
]
