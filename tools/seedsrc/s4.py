import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from s3 import TRK
W = '''
import shutil
from dedop.data.output import netcdf_writer
tmp = tempfile.mkdtemp()
class Stub:
    def __init__(s, **k): s.__dict__.update(k)
    def __getattr__(s, n):
        if n.startswith('__'): raise AttributeError(n)
        return 1.
def record(writer, cst, **k):
    log = []
    netcdf_writer.NetCDFWriter.write_record = lambda self, **kw: log.append(kw)
    w = writer.__new__(writer); w.cst = cst; w.__dict__.update(L=2, M=2)
    w.write_record(Stub(closest_burst=Stub(), waveform_multilooked=np.ones(4), surface_type=Stub(value=0), **k))
    return log[0]
'''
WM = '''
import shutil
from dedop.ui.workspace_manager import WorkspaceManager, WorkspaceError
from dedop.util.monitor import Monitor
tmp = tempfile.mkdtemp()
wm = WorkspaceManager(os.path.join(tmp, 'ws'))
def tree(d=tmp):
    return {os.path.relpath(os.path.join(r, f), d): os.path.islink(os.path.join(r, f)) or open(os.path.join(r, f)).read() for r, _, fs in os.walk(d) for f in fs}
def check(c, what):
    if not c:
        print('WRONG', what); sys.exit(1)
'''
U = 'dedop/ui/workspace_manager.py'
SEEDS = [
 dict(id='C19-midnight', property='C19', edits=[('dedop/proc/sar/algorithms/surface_locations.py', '''        self.prev_utc_days = isp_prev.days
''', '''        self.prev_utc_days = isp_curr.days
''')], needs='two bursts on different days with a surface between them', breaks='the day of the later burst is combined with the seconds of the earlier one', demo=TRK + '''
chd, cst, cnf = mkconf(cnf=dict(flag_surface_focusing=False))
for off in np.linspace(.1, .2, 40):
    bs = []
    for k in range(40):
        t = 86400 - off + k * .013
        bs.append(burst(k, chd, cst, days=5000 + (t >= 86400), seconds=t % 86400))
    for s in chain(chd, cst, cnf, bs):
        same((s.prev_utc_days - 5000) * 86400. + s.prev_utc_secs - 86400 + off, s.prev_tai - 2e8, 'UTC of the burst before the surface', 1e-5)
'''),
 dict(id='C19-leap-day', property='C19', edits=[('dedop/data/output/l1bs_writer.py', 'utc_secs -= surface_location_data.curr_day_length', 'utc_secs -= self.cst.sec_in_day')],
   needs='a surface right after a leap second', breaks='the second of day in the L1B-S product is one too large', demo=W + '''
from dedop.data.output import L1BSWriter
cst = mkconf()[1]
r = record(L1BSWriter, cst, time_surf=100.5, prev_tai=100., prev_utc_secs=86400.7, prev_utc_days=6000, curr_day_length=86401, beams_range_compr_iq=np.ones((2, 2), complex))
same(r['UTC_sec_l1bs_echo_sar_ku'], .2, 'second of day', 1e-6)
same(r['UTC_day_l1bs_echo_sar_ku'], 6001, 'day')
'''),
 dict(id='C19-first-time', property='C19', edits=[('dedop/util/time.py', 'dt.timedelta(seconds=utc_secs)', 'dt.timedelta(seconds=utc_secs % 86400, days=int(utc_secs / 86400))')],
   needs='a time before 2000', breaks='times before the reference epoch are shifted by a day', demo='''
from dedop.util.time import iso_format
if iso_format(-3600.) != '1999-12-31T23:00:00+00:00':
    print('WRONG', iso_format(-3600.)); sys.exit(1)
'''),
 dict(id='C20-iq-scale', property='C20', edits=[('dedop/data/output/l1bs_writer.py', 'max_iq = max(np.max(np.abs(stack_i)), np.max(np.abs(stack_q)))', 'max_iq = np.max(np.abs(stack_i))')],
   needs='a stack whose largest quadrature sample exceeds the largest in-phase one', breaks='the quadrature samples do not fit into the stored byte', demo=W + '''
from dedop.data.output import L1BSWriter
cst = mkconf()[1]
r = record(L1BSWriter, cst, time_surf=100.5, prev_tai=100., prev_utc_secs=5., prev_utc_days=6000, curr_day_length=86400, beams_range_compr_iq=np.array([[1 + 5j, 2 - 3j]]))
same(np.max(np.abs(r['q_echoes_ku_l1bs_echo_sar_ku'])), 127., 'largest scaled sample', 1e-6)
'''),
 dict(id='C20-zero-look', property='C20', edits=[('dedop/data/output/netcdf_writer.py', '''            if value is None:
                continue
            try:''', '''            if value is None or ndims > 1 and np.ndim(value) > 1 and not np.any(value):
                continue
            try:''')], needs='a record with a stack of zeros', breaks='arrays of zeros are not written and read back as fill values', demo='''
import netCDF4 as nc
from dedop.data.output.netcdf_writer import NetCDFWriter
class Wr(NetCDFWriter):
    def write_record(self, **k): super().write_record(**k)
p = os.path.join(tempfile.mkdtemp(), 'x', 'a.nc')
w = Wr(p); w.define_dimension('t', None); w.define_dimension('n', 3); w.define_dimension('m', 2); w.define_variable('v', np.int32, ('t', 'm', 'n'), long_name='v'); w.open()
o = np.ones((2, 3))
w.write_record(v=o); w.write_record(v=0 * o); w.write_record(v=o); w.close()
same(np.ma.filled(nc.Dataset(p)['v'][1], -1), 0 * o, 'second record')
'''),
 dict(id='C20-look-shift', property='C20', edits=[('dedop/data/output/netcdf_writer.py', 'var[self.output_index, :len(value)] = value[:]', 'var[self.output_index, var.shape[1] - len(value):] = value[:]')],
   needs='fewer looks than the stack dimension', breaks='the values of a short stack are stored at the end of the dimension', demo='''
import netCDF4 as nc
from dedop.data.output.netcdf_writer import NetCDFWriter
class Wr(NetCDFWriter):
    def write_record(self, **k): super().write_record(**k)
p = os.path.join(tempfile.mkdtemp(), 'x', 'a.nc')
w = Wr(p); w.define_dimension('t', None); w.define_dimension('n', 3); w.define_variable('v', np.int32, ('t', 'n'), long_name='v'); w.open()
w.write_record(v=np.array([1, 2])); w.close()
same(np.ma.filled(nc.Dataset(p)['v'][0], -1)[:2], [1, 2], 'short record')
'''),
 dict(id='C21-override', property='C21', edits=[('dedop/conf/auxiliary_file_reader.py', 'self._data.update(kwargs)', 'self._data = dict(kwargs, **self._data)')],
   needs='a value given both in the file and as an argument', breaks='the explicit value is ignored', demo='''
c = ConfigurationFile('test_data/common/CNF.json', zp_fact_range_cnf=7)
same(c.zp_fact_range, 7, 'zero padding factor')
'''),
 dict(id='C21-default-shape', property='C21', edits=[('dedop/conf/auxiliary_parameter.py', 'value = np.reshape(value, self.shape)', 'value = np.resize(value, self.shape)')],
   needs='an antenna table of the wrong length', breaks='the table is silently repeated to the expected length', demo='''
chd = mkconf(chd=dict(antenna_angles=[1., 2., 3.]))[0]
try:
    print('WRONG', chd.antenna_angles.shape); sys.exit(1)
except ValueError: pass
'''),
 dict(id='C21-newer-version', property='C21', edits=[('dedop/conf/auxiliary_file_reader.py', 'if version != cls._fileversion:', 'if version < cls._fileversion:')],
   needs='a file of a newer version than supported', breaks='the file is accepted', demo='''
from dedop.conf.auxiliary_errors import IncompatibleAuxiliaryFileError
d = json.load(open('test_data/common/CST.json')); d['__metainf__'] = {'version': 9}
p = os.path.join(tempfile.mkdtemp(), 'c.json'); json.dump(d, open(p, 'w'))
try:
    ConstantsFile(p); print('WRONG accepted'); sys.exit(1)
except IncompatibleAuxiliaryFileError: pass
'''),
 dict(id='C21-falsy-default', property='C21', edits=[('dedop/conf/auxiliary_parameter.py', 'self.optional = optional or (default_value is not None)\n        self.default = default_value\n        self._cache = {}',
   'self.optional = optional or bool(default_value)\n        self.default = default_value\n        self._cache = {}')], needs='a parameter with default False or 0 that is absent from the file', breaks='it is reported as missing', demo='''
from dedop.conf.auxiliary_parameter import AuxiliaryParameter
from dedop.conf.auxiliary_file_reader import AuxiliaryFileReader
class F(AuxiliaryFileReader):
    a = AuxiliaryParameter('a_x', param_type=int, default_value=0)
same(F().a, 0, 'default')
'''),
 dict(id='C22-diamond', property='C22', edits=[('dedop/util/parameter.py', 'annotated_class.parameters = dict()', "annotated_class.parameters = dict(getattr(annotated_class, 'parameters', {}))")],
   needs='a class with two bases of which the second redeclares an inherited parameter', breaks='the inherited declaration wins over the more derived one', demo='''
from dedop.util.parameter import Parameter
@Parameter('p', default_value=1)
class A: pass
@Parameter('q', default_value=5)
class B(A): pass
@Parameter('p', default_value=2)
class C(A): pass
class D(B, C): pass
same(Parameter.get_parameters(D)['p'].default_value, 2, 'declaration of p')
same(Parameter.get_parameter(D, 'p').default_value, 2, 'declaration of p')
'''),
 dict(id='C22-zero-value', property='C22', edits=[('dedop/proc/sar/base_algorithm.py', 'setattr(self, param.name, getattr(self.cnf, param.name))', 'setattr(self, param.name, getattr(self.cnf, param.name) or param.default_value)')],
   needs='a parameter set to zero or False whose default is not', breaks='the default is used instead of the configured value', demo='''
from dedop.proc.sar.base_algorithm import BaseAlgorithm
from dedop.util.parameter import Parameter
@Parameter('flag_avoid_zeros_in_multilooking', default_value=True)
class Alg(BaseAlgorithm): pass
same(Alg(*mkconf(cnf=dict(flag_avoid_zeros_in_multilooking=False))).flag_avoid_zeros_in_multilooking, False, 'flag')
'''),
 dict(id='C23-readded', property='C23', edits=[(U, 'removed_list.remove(parameter_key) if parameter_key in removed_list else None', 'pass')],
   needs='a parameter removed in one version and added again in a later one', breaks='it is missing after the upgrade', demo=WM + '''
new = {'__metainf__': {'version': 2, 'changelog': [{'version': 1, 'parameters': [['p', '-']]}, {'version': 2, 'parameters': [['p', '+']]}]}, 'p': {'value': 5}}
r = wm._do_upgrade_config({'__metainf__': {'version': 0}, 'p': {'value': 1}, 'q': {'value': 2}}, new)
check(r.get('p') == {'value': 5} and r['q'] == {'value': 2}, r)
'''),
 dict(id='C23-shorter-file', property='C23', edits=[(U, '            f.write(configuration)\n            f.truncate()\n', '            f.write(configuration)\n')],
   needs='an upgraded configuration that is shorter than the old file', breaks='the end of the old file remains behind the new content', demo=WM + '''
wm.create_workspace('a'); wm.create_config('a', 'c')
p = wm.get_config_file('a', 'c', 'CST'); d = json.load(open(p)); open(p, 'w').write(json.dumps(d, indent=12) + ' ' * 5000)
wm.upgrade_config('a', 'c', 'CST')
check(json.load(open(p)) == d, 'upgraded file')
'''),
 dict(id='C23-skip-stops', property='C23', edits=[(U, '''            if change['version'] <= current_version:
                continue''', '''            if change['version'] <= current_version or change['version'] > current_version + 2:
                continue''')], needs='an upgrade across more than two versions', breaks='changes of the later versions are not applied', demo=WM + '''
new = {'__metainf__': {'version': 4, 'changelog': [{'version': i, 'parameters': [['p%d' % i, '+']]} for i in (1, 2, 3, 4)]}}
new.update({'p%d' % i: {'value': i} for i in (1, 2, 3, 4)})
r = wm._do_upgrade_config({'q': {'value': 2}}, new)
check(sorted(r) == ['__metainf__', 'p1', 'p2', 'p3', 'p4', 'q'], sorted(r))
'''),
 dict(id='C24-output-link', property='C24', edits=[(U, '''            if os.path.exists(output_path):
                try:
                    os.remove(output_path)''', '''            if os.path.exists(output_path):
                try:
                    os.remove(os.path.realpath(output_path))''')], needs='a symbolic link among the outputs', breaks='removing outputs deletes the file that the link points to', demo=WM + '''
wm.create_workspace('a'); wm.create_config('a', 'c'); d = wm.get_outputs_path('a', 'c'); os.makedirs(d)
k = os.path.join(tmp, 'keep.nc'); open(k, 'w').write('x'); os.symlink(k, os.path.join(d, 'l.nc')); open(os.path.join(d, 'o.nc'), 'w').write('y')
wm.remove_outputs('a', 'c')
check(os.path.exists(k) and os.listdir(d) == [], 'files after removing the outputs')
'''),
 dict(id='C24-rename-into', property='C24', edits=[(U, 'os.rename(dir_path, dir_path_new)', 'shutil.move(dir_path, dir_path_new)')],
   needs='renaming a configuration to the name of an existing one', breaks='it is moved into the other configuration', demo=WM + '''
wm.create_workspace('a'); wm.create_config('a', 'c'); wm.create_config('a', 'd'); t = tree()
try: wm.rename_config('a', 'c', 'd'); check(False, 'no error')
except WorkspaceError: check(tree() == t, 'changed by the failed renaming')
'''),
 dict(id='C24-partial-copy', property='C24', edits=[(U, 'shutil.copytree(dir_path, dir_path_new)', 'shutil.copytree(dir_path, dir_path_new, dirs_exist_ok=True)')],
   needs='copying a configuration to the name of an existing one', breaks='the other configuration is overwritten', demo=WM + '''
wm.create_workspace('a'); wm.create_config('a', 'c'); wm.create_config('a', 'd'); wm.write_config_file('a', 'd', 'CNF', '{}'); t = tree()
try: wm.copy_config('a', 'c', 'd'); check(False, 'no error')
except WorkspaceError: check(tree() == t, 'changed by the failed copy')
'''),
 dict(id='C25-tenth-notebook', property='C25', edits=[(U, '            if not os.path.exists(notebook_path):\n                break', '            if not os.path.exists(notebook_path) or index > 9:\n                break')],
   needs='more than ten notebooks for the same product', breaks='the tenth notebook is overwritten', demo=WM + '''
wm.create_workspace('a'); wm.launch_notebook = lambda *a, **k: None
seen = {}
for i in range(13):
    wm.inspect_l1b_product('a', '/x/y%d/p.nc' % i); t = tree(); check(all(t.get(k) == v for k, v in seen.items()) and len(t) == i + 1, 'notebook overwritten'); seen = t
'''),
 dict(id='C25-case', property='C25', edits=[(U, '''                    if fnmatch.fnmatch(fn, p):
                        new''', '''                    if fnmatch.fnmatch(fn, p) or p in fn:
                        new''')], needs='several patterns of which one is contained in the name of another file', breaks='files that match none of the patterns are listed', demo=WM + '''
wm.create_workspace('a'); d = wm.get_inputs_path('a'); os.makedirs(d)
for n in ('a.nc', 'ba.nc', 'c.nc'): open(os.path.join(d, n), 'w').write('x')
check(wm.get_input_names('a', ['a.nc', 'c*']) == ['a.nc', 'c.nc'], wm.get_input_names('a', ['a.nc', 'c*']))
'''),
 dict(id='C25-nested', property='C25', edits=[(U, '''            return sorted([name for name in os.listdir(configs_dir) if os.path.isdir(os.path.join(configs_dir, name))])''',
   '''            return sorted([name for name in os.listdir(configs_dir) if os.path.isdir(os.path.join(configs_dir, name))
                           and not name.startswith('.')])''')], needs='a configuration whose name starts with a dot', breaks='it is not listed', demo=WM + '''
wm.create_workspace('a'); wm.create_config('a', '.c'); wm.create_config('a', 'd')
check(wm.get_config_names('a') == ['.c', 'd'], wm.get_config_names('a'))
'''),
 dict(id='C26-cancelled-handler', property='C26', edits=[('dedop/util/monitor.py', '''        self._label = label
        self._worked = 0.
        self._percentage = None''', '''        self._label = label
        self._worked = 0.
        self._cancelled = False
        self._percentage = None''')], needs='a cancellation before a task starts', breaks='starting the task forgets the cancellation', demo='''
import io, contextlib
from dedop.util.monitor import ConsoleMonitor
m = ConsoleMonitor()
with contextlib.redirect_stdout(io.StringIO()):
    m.cancel(); m.start('x', 10)
same(m.is_cancelled(), True, 'cancelled')
'''),
 dict(id='C26-child-of-child', property='C26', edits=[('dedop/util/monitor.py', 'parent_work = self._partial_work * (work / self._total_work) if work is not None else None',
   'parent_work = self._partial_work * min(1., work / self._total_work) if work else work')], needs='a child that reports more than its total in one call', breaks='the progress is cut', demo='''
from dedop.util.monitor import ChildMonitor, Monitor
class M(Monitor):
    w = 0
    def start(s, *a, **k): pass
    def progress(s, work=None, msg=None): s.w += work or 0
    def done(s): pass
m = M(); c = m.child(10); c.start('c', 4); c.progress(6)
same(m.w, 15., 'work')
'''),
 dict(id='C26-percent-round', property='C26', edits=[('dedop/util/monitor.py', 'round(100. * self._worked / self._total_work)', 'round(100. * self._worked / max(self._worked, self._total_work))')],
   needs='more work reported than announced', breaks='the percentage stays at 100', demo='''
from dedop.util.monitor import ConsoleMonitor
m = ConsoleMonitor(); m._worked = 3.; m._total_work = 2.
same(m._calc_percentage(), 150, 'percentage')
'''),
]
