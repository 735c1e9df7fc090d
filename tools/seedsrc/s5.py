CLI = '''
import types, argparse, io, contextlib, builtins
cate, util, climod = (types.ModuleType(n) for n in ('cate', 'cate.util', 'cate.util.cli'))
class CommandError(Exception): pass
class Command:
    @classmethod
    def parser_kwargs(cls): return {}
    @classmethod
    def configure_parser(cls, parser): pass
    @classmethod
    def new_monitor(cls):
        from dedop.util.monitor import Monitor
        return Monitor.NULL
class SubCommandCommand(Command):
    @classmethod
    def configure_parser(cls, parser): cls.configure_parser_and_subparsers(parser, parser.add_subparsers())
def run_main(name, description, version, reg, license_text=None, docs_url=None, args=None):
    parser = argparse.ArgumentParser(prog=name); sub = parser.add_subparsers()
    for c in reg:
        p = sub.add_parser(c.name(), **c.parser_kwargs()); c.configure_parser(p); p.set_defaults(command_class=c)
    a = parser.parse_args(args)
    try: a.command_class().execute(a)
    except Exception as e:
        print('error:', e); return 1
    return 0
climod.__dict__.update(CommandError=CommandError, Command=Command, SubCommandCommand=SubCommandCommand, run_main=run_main)
sys.modules.update({'cate': cate, 'cate.util': util, 'cate.util.cli': climod})
import dedop.util.config as dconfig
dconfig._CONFIG = {}
import dedop.cli.main as cli
from dedop.ui.workspace_manager import WorkspaceManager, WorkspaceError
tmp = tempfile.mkdtemp()
os.chdir(tmp)
started = []
class M(WorkspaceManager):
    def open_file(self, *a): started.append(a)
    def inspect_l1b_product(self, *a): started.append(a)
    def compare_l1b_products(self, *a): started.append(a)
    def launch_notebook(self, *a, **k): started.append(a)
wm = M(os.path.join(tmp, 'ws'))
ran = []
class Proc:
    def __init__(self, name, cnf_file=None, cst_file=None, chd_file=None, output_dir=None, skip_l1bs=None): self.a = (name, cnf_file, cst_file, chd_file, output_dir, skip_l1bs)
    def process(self, f, monitor=None):
        ran.append((self.a, f))
        if fail and len(ran) == fail:
            from dedop.model.exception import ProcessorException
            raise ProcessorException('failed')
fail = 0
answer = 'yes'
builtins.input = lambda *a: answer
def dedop(*args):
    with contextlib.redirect_stdout(io.StringIO()):
        return cli.main(args=list(args), workspace_manager=wm, processor_factory=Proc)
def touch(*p):
    p = os.path.join(tmp, *p); os.makedirs(os.path.dirname(p), exist_ok=True); open(p, 'w').write(p)
    return p
def check(c, what):
    if not c:
        print('WRONG', what); sys.exit(1)
'''
F = 'dedop/cli/main.py'
SEEDS = [
 dict(id='C27-all-current', property='C27', edits=[(F, "                chd_file = _WORKSPACE_MANAGER.get_config_file(workspace_name, config_name, 'CHD')\n                cnf_file = _WORKSPACE_MANAGER.get_config_file(workspace_name, config_name, 'CNF')\n                cst_file = _WORKSPACE_MANAGER.get_config_file(workspace_name, config_name, 'CST')\n                output_dir =", "                chd_file = _WORKSPACE_MANAGER.get_config_file(workspace_name, config_name, 'CHD')\n                cnf_file = _WORKSPACE_MANAGER.get_config_file(workspace_name, config_name, 'CNF')\n                cst_file = _WORKSPACE_MANAGER.get_config_file(workspace_name, config_names[0], 'CST')\n                output_dir =")],
   needs='-a with more than one configuration', breaks='the second configuration runs with the constants of the first', demo=CLI + '''
for c in 'ab': dedop('config', 'add', c)
touch('ws', 'default', 'inputs', 'x.nc')
dedop('run', '-a', '-q')
check(len(ran) == 2, ran)
for (a, f), c in zip(ran, 'ab'): check(all(os.sep + c + os.sep in p for p in a[1:5]), a)
'''),
 dict(id='C27-inputs-iterator', property='C27', edits=[(F, "            inputs = command_args.inputs if command_args.inputs else _WORKSPACE_MANAGER.get_input_paths(workspace_name)\n", "            inputs = command_args.inputs if command_args.inputs else _WORKSPACE_MANAGER.get_input_paths(workspace_name)\n            inputs = list(dict.fromkeys(inputs))[::-1] if command_args.all_configs and command_args.inputs else inputs\n")],
   needs='-a with several inputs given explicitly', breaks='the inputs are processed in the reverse order', demo=CLI + '''
dedop('config', 'add', 'a')
dedop('run', '-a', '-q', '-i', 'x.nc', 'y.nc')
check([f for a, f in ran] == ['x.nc', 'y.nc'], ran)
'''),
 dict(id='C27-error-continues', property='C27', edits=[(F, "                    processor.process(input_file, monitor=monitor)\n", "                    try:\n                        processor.process(input_file, monitor=monitor)\n                    except ProcessorException as error:\n                        if input_file == inputs[-1]:\n                            raise\n                        print('warning: %s' % error)\n")],
   needs='a processing error on an input that is not the last one', breaks='the error is not reported', demo=CLI + '''
fail = 1
check(dedop('run', '-q', '-i', 'x.nc', 'y.nc') != 0, 'no error reported')
'''),
 dict(id='C27-role', property='C27', edits=[(F, "return L1BProcessor(name, cnf_file, cst_file, chd_file, output_dir, skip_l1bs)", "return L1BProcessor(name, cnf_file, chd_file, cst_file, output_dir, skip_l1bs)")],
   needs='the default processor', breaks='constants and characterisation files are exchanged', demo=CLI + '''
import dedop.proc.sar as S
made = []
class P:
    def __init__(self, name, cnf_file, cst_file, chd_file, out_path, skip_l1bs=True): made.append((cnf_file, cst_file, chd_file))
    def process(self, *a, **k): pass
S.L1BProcessor = P
with contextlib.redirect_stdout(io.StringIO()):
    cli.main(args=['run', '-q', '-i', 'x.nc'], workspace_manager=wm)
check([os.path.basename(x) for x in made[0]] == ['CNF.json', 'CST.json', 'CHD.json'], made)
'''),
 dict(id='C27-named-workspace', property='C27', edits=[(F, "    config_name = command_args.config_name\n    if workspace_name and not config_name:\n        config_name = _WORKSPACE_MANAGER.get_current_config_name(workspace_name)\n", "    config_name = command_args.config_name\n    if not config_name:\n        current_name = _WORKSPACE_MANAGER.get_current_workspace().name\n        if workspace_name:\n            config_name = _WORKSPACE_MANAGER.get_current_config_name(workspace_name) and \\\n                _WORKSPACE_MANAGER.get_current_config_name(current_name or workspace_name)\n")],
   needs='-w naming a workspace that is not the current one, with another current configuration', breaks='the configuration of the current workspace is used in the workspace named', demo=CLI + '''
dedop('workspace', 'add', 'v'); dedop('config', 'add', 'a')
dedop('workspace', 'add', 'w'); dedop('config', 'add', 'b')
dedop('run', '-q', '-w', 'v', '-i', 'x.nc')
check([a[0] for a, f in ran] == ['a'], ran)
'''),
 dict(id='C28-confirm-prefix', property='C28', edits=[(F, "            answer = _input('remove workspace \"%s\"? [yes]' % workspace_name, 'yes')\n        if answer.lower() == 'yes':", "            answer = _input('remove workspace \"%s\"? [yes]' % workspace_name, 'yes')\n        if 'yes'.startswith(answer.lower()) or answer.lower().startswith('yes'):")],
   needs='an answer that is neither yes nor no', breaks='the workspace is removed without the answer yes', demo=CLI + '''
dedop('workspace', 'add', 'v')
answer = 'yesterday'
dedop('workspace', 'remove', 'v')
check(wm.workspace_exists('v'), 'removed')
'''),
 dict(id='C28-remove-other', property='C28', edits=[(F, "                if workspace_name == workspace.name:\n                    workspace_names", "                if not command_args.workspace_name or workspace_name != workspace.name:\n                    workspace_names")],
   needs='removing a workspace that is not the current one', breaks='the current workspace is changed', demo=CLI + '''
for w in 'uvw': dedop('workspace', 'add', w)
dedop('workspace', 'remove', '-y', 'v')
check(wm.get_current_workspace().name == 'w', wm.get_current_workspace().name)
'''),
 dict(id='C28-unique-second', property='C28', edits=[(F, "            print('DDP configuration \"%s\" already exists' % valid_new_name)\n            valid_new_name = '%s_%d' % (new_name, index)\n            index += 1\n", "            print('DDP configuration \"%s\" already exists' % valid_new_name)\n            config_names = [name for name in config_names if name != valid_new_name and name != '%s_%d' % (new_name, index)]\n            valid_new_name = '%s_%d' % (new_name, index)\n            index += 1\n")],
   needs='a new name that is taken together with its first alternative', breaks='rename targets an existing configuration', demo=CLI + '''
for c in ('a', 'b', 'b_2'): dedop('config', 'add', c)
dedop('config', 'rename', 'a', 'b')
check(wm.get_config_names('default') == ['b', 'b_2', 'b_3'], wm.get_config_names('default'))
'''),
 dict(id='C28-rename-current', property='C28', edits=[(F, "            if config_name == _WORKSPACE_MANAGER.get_current_config_name(workspace_name):\n                cls.set_current_config(workspace_name, new_name)", "            if not command_args.config_name or not command_args.workspace_name and \\\n                    config_name == _WORKSPACE_MANAGER.get_current_config_name(workspace_name):\n                cls.set_current_config(workspace_name, new_name)")],
   needs='renaming the current configuration by name, in a workspace given by -w', breaks='the selection keeps the old name', demo=CLI + '''
dedop('config', 'add', '-w', 'default', 'z')
dedop('workspace', 'add', 'v'); dedop('config', 'add', 'a')
dedop('config', 'rename', '-w', 'v', 'a', 'b')
check(wm.get_current_config_name('v') == 'b', wm.get_current_config_name('v'))
'''),
 dict(id='C28-clean-current', property='C28', edits=[(F, "                _WORKSPACE_MANAGER.remove_outputs(workspace_name, config_name)\n", "                _WORKSPACE_MANAGER.remove_outputs(workspace_name, command_args.workspace_name and config_name or\n                                                  _WORKSPACE_MANAGER.get_current_config_name(workspace_name))\n")],
   needs='output clean -c CONFIG without -w, CONFIG not the current one', breaks='the outputs of the current configuration are removed', demo=CLI + '''
for c in 'ab': dedop('config', 'add', c); touch('ws', 'default', 'configs', c, 'outputs', 'x.nc')
dedop('output', 'clean', '-q', '-c', 'a')
check(wm.get_output_names('default', 'b') == ['x.nc'] and not wm.get_output_names('default', 'a'), 'cleaned the other')
'''),
 dict(id='C28-compare-config', property='C28', edits=[(F, "            config_name_2 = config_name_2 if config_name_2 else config_name_1\n", "            if not config_name_2:\n                config_name_2 = config_name_1 if workspace_name_2 == workspace_name_1 else \\\n                    _WORKSPACE_MANAGER.get_current_config_name(workspace_name_2)\n")],
   needs='compare -W other workspace without -C', breaks='the configuration of the second product is the one current there, not that of the first', demo=CLI + '''
for w in 'vu':
    dedop('workspace', 'add', w)
    for c in 'ab': dedop('config', 'add', c); touch('ws', w, 'configs', c, 'outputs', 'x.nc')
dedop('output', 'compare', '-w', 'v', '-c', 'a', '-W', 'u', 'x.nc', 'x.nc')
check(started == [('v', wm.get_outputs_path('v', 'a', 'x.nc'), wm.get_outputs_path('u', 'a', 'x.nc'))], started)
'''),
 dict(id='C28-inputs-quiet', property='C28', edits=[(F, "        answer = 'yes' if command_args.quiet else _input('delete inputs \"%s\"? [yes]' % input_names, 'yes').lower()\n", "        answer = 'yes' if command_args.quiet or len(input_names) == len(command_args.inputs) else \\\n            _input('delete inputs \"%s\"? [yes]' % input_names, 'yes').lower()\n")],
   needs='removing inputs that are all named explicitly', breaks='they are removed without asking', demo=CLI + '''
dedop('workspace', 'add', 'v')
touch('ws', 'v', 'inputs', 'x.nc')
answer = 'no'
dedop('input', 'remove', 'x.nc')
check(wm.get_input_names('v') == ['x.nc'], 'removed')
'''),
]
