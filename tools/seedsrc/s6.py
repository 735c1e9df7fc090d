F = 'dedop/util/config.py'
PRE = '''
import dedop.util.config as cf, io, contextlib
tmp = tempfile.mkdtemp()
home, cwd = os.path.join(tmp, 'h'), os.path.join(tmp, 'c')
os.makedirs(os.path.join(home, '.dedop')); os.makedirs(cwd)
os.environ['HOME'] = home
os.chdir(cwd)
user, local = os.path.join(home, '.dedop', 'config.py'), os.path.join(cwd, 'dedop-config.py')
def put(p, t): open(p, 'w').write(t)
def load():
    cf._CONFIG = None
    with contextlib.redirect_stdout(io.StringIO()):
        return dict(cf.get_config())
def check(c, what):
    if not c:
        print('WRONG', what); sys.exit(1)
'''
SEEDS = [
 dict(id='C29-partial-local', property='C29', edits=[
   (F, "def read_python_config(file):", "def read_python_config(file, config=None):"),
   (F, "        config = {}\n", "        config = {} if config is None else config\n"),
   (F, "                local_config = read_python_config(local_config_file)\n                _CONFIG.update(local_config)\n",
       "                read_python_config(local_config_file, _CONFIG)\n")],
   needs='a local file that assigns something and then fails', breaks='a failing file contributes the assignments before its failure',
   demo=PRE + '''
put(user, "x = 1")
put(local, "x = 2\\n1 / 0")
check(load() == {'x': 1}, 'failing local file')
put(local, "x = 2")
check(load() == {'x': 2}, 'local file')
'''),
 dict(id='C29-none-default', property='C29', edits=[
   (F, "    return get_config().get(name, default)\n", "    value = get_config().get(name)\n    return default if value is None else value\n")],
   needs='a setting that is assigned None', breaks='the default is given instead of the assigned None',
   demo=PRE + '''
put(user, "x = None")
load()
check(cf.get_config_value('x', 'd') is None, 'assigned None')
check(cf.get_config_value('y', 'd') == 'd', 'default')
'''),
 dict(id='C29-reread-empty', property='C29', edits=[
   (F, "    if _CONFIG is None:\n", "    if not _CONFIG:\n")],
   needs='no setting at first use, a file changed later in the session', breaks='settings change during a session',
   demo=PRE + '''
put(user, "")
load()
c = cf.get_config()
put(local, "x = 1")
check(cf.get_config() is c and not c, 'same settings')
'''),
 dict(id='C29-one-try', property='C29', edits=[
   (F, """        if os.path.isfile(default_config_file):
            try:
                _CONFIG = read_python_config(default_config_file)
            except Exception as error:
                print('warning: failed to read %s: %s' % (default_config_file, str(error)))

        local_config_file = os.path.expanduser(_LOCAL_CONFIG_FILE)
        if os.path.isfile(local_config_file):
            try:
                local_config = read_python_config(local_config_file)
                _CONFIG.update(local_config)
            except Exception as e:
                print('warning: failed to read %s: %s' % (local_config_file, str(e)))
""", """        config_file = None
        try:
            for config_file in (default_config_file, os.path.expanduser(_LOCAL_CONFIG_FILE)):
                if os.path.isfile(config_file):
                    _CONFIG.update(read_python_config(config_file))
        except Exception as error:
            print('warning: failed to read %s: %s' % (config_file, str(error)))
""")],
   needs='a user file that fails and a local file', breaks='the local file is not read if the user file fails',
   demo=PRE + '''
put(user, "1 / 0")
put(local, "x = 2")
check(load() == {'x': 2}, 'local file')
'''),
 dict(id='C29-empty-file', property='C29', edits=[
   (F, "        if not os.path.exists(default_config_file):\n", "        if not os.path.exists(default_config_file) or os.path.getsize(default_config_file) < 16:\n")],
   needs='a very short user file', breaks='an existing user file is overwritten with the template',
   demo=PRE + '''
put(user, "x = 1")
check(load() == {'x': 1} and open(user).read() == 'x = 1', 'user file')
'''),
 dict(id='C29-user-updates', property='C29', edits=[
   (F, "                local_config = read_python_config(local_config_file)\n                _CONFIG.update(local_config)\n",
       "                local_config = read_python_config(local_config_file)\n                local_config.update(_CONFIG)\n                _CONFIG = local_config\n")],
   needs='both files assign the same setting', breaks='the user file wins over the local file',
   demo=PRE + '''
put(user, "x = 1\\ny = 1")
put(local, "x = 2\\nz = 2")
check(load() == {'x': 2, 'y': 1, 'z': 2}, 'local over user')
'''),
 dict(id='C29-unset-path', property='C29', edits=[
   (F, "if value is not None else None", "if value else None")],
   needs='a path setting that is an empty text', breaks='an empty path is reported as not set',
   demo=PRE + '''
put(user, "x = ''")
load()
check(cf.get_config_path('x') == '' and cf.get_config_path('y') is None, 'paths')
'''),
]
