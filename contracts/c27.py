"""The run command over arbitrary workspaces, configurations and inputs; the processor it builds by default."""
from .cli import *
from .c28 import default_workspace, default_config, DEFAULT
import inspect as _inspect
from dedop.model.exception import ProcessorException
from dedop.proc.sar import L1BProcessor


class Processor(Ext):
    """a processor of configuration number `at`"""
    def __init__(self, R, at):
        self.R, self.at = R, at

    def attr(self, I, name):
        if name == 'process':
            return Native(lambda *a, **k: self.R.process(self, *a, **k), name)
        raise Unsupported('processor.%s' % name)


class Run:
    """what has been done so far: `ci` configurations completely, `ii` inputs of the next one"""

    def __init__(self, E, I, W, configs, inputs, out, skip, w, quiet):
        self.E, self.I, self.W = E, I, W
        self.configs, self.inputs, self.out, self.skip, self.w, self.quiet = configs, inputs, out, skip, w, quiet
        self.ci, self.ii, self.proc, self.failed = tm.const(0), tm.const(0), None, False

    def at(self, names, i):
        if isinstance(names, list):
            c = tm.as_const(tm.t(i))
            return names[int(c)] if c is not None and 0 <= c < len(names) else None
        return names.item(i)

    def n(self, names):
        return tm.const(len(names)) if isinstance(names, list) else tm.t(names.n)

    def roll(self):
        """a configuration is finished when its last input is"""
        if self.proc is not None and self.E.branch(tm.eq(self.ii, self.n(self.inputs))):
            self.ci, self.ii, self.proc = tm.add(self.ci, 1), tm.const(0), None

    def factory(self, I, a, k):
        E, W = self.E, self.W
        sig = _inspect.Signature([_inspect.Parameter(x, _inspect.Parameter.POSITIONAL_OR_KEYWORD, default=d) for x, d in (
            ('name', _inspect.Parameter.empty), ('cnf_file', None), ('cst_file', None), ('chd_file', None), ('output_dir', '.'),
            ('skip_l1bs', True))])
        b = sig.bind(*a, **k)
        b.apply_defaults()
        b = b.arguments
        E.prove('one-after-another', self.proc is None)
        E.prove('one-processor-per-configuration', tm.And(tm.lt(self.ci, self.n(self.configs)), tm.eq(self.ii, 0)))
        c = self.at(self.configs, self.ci)
        if c is None:
            return Processor(self, self.ci)
        E.prove('configuration', eqs(b['name'], c))
        for key in ('CHD', 'CNF', 'CST'):
            E.prove('own-' + key, eqs(b[key.lower() + '_file'], W.path('get_config_file', self.w, c, key)))
        E.prove('output-directory', eqs(b['output_dir'], self.out if self.out is not None else W.path('get_outputs_path', self.w, c)))
        E.prove('skip-option', eqs(b['skip_l1bs'], self.skip))
        self.proc = Processor(self, self.ci)
        return self.proc

    def process(self, p, input_file, monitor=None):
        E = self.E
        E.prove('of-this-configuration', self.proc is not None and tm.eq(p.at, self.ci))
        E.prove('every-input-once', tm.lt(self.ii, self.n(self.inputs)))
        f = self.at(self.inputs, self.ii)
        if f is not None:
            E.prove('input-in-order', eqs(input_file, f))
        self.ii = tm.add(self.ii, 1)
        if self.W.faults and E.choice(E.fresh('processing.fails')):
            self.failed = True
            raise PyRaise(ProcessorException, 'failed')
        return Recorder(E, 'result')


def setup(E, I):
    """the command, its arguments and what they select; loops over configurations and inputs by contract"""
    R = []
    st = {}

    def inputs_havoc(L):
        R[0].ii = L.k
        R[0].proc = Processor(R[0], R[0].ci)

    def inputs_inv(L):
        r = R[0]
        return [('inputs-done', tm.eq(r.ii, L.k)), ('no-error-passed-over', not r.failed), ('of-one-configuration', r.proc is not None and tm.eq(r.proc.at, r.ci))]

    def configs_havoc(L):
        R[0].ci, R[0].ii, R[0].proc = L.k, tm.const(0), None

    def configs_inv(L):
        r = R[0]
        return [('configurations-done', tm.eq(r.ci, L.k)), ('no-error-passed-over', not r.failed), ('none-half-done', r.proc is None)]
    step = lambda L: R[0].roll()
    E.ghost['loop.input.paths'] = LoopSpec(inputs_havoc, inputs_inv, assume=lambda L: [])
    E.ghost['loop.configs'] = LoopSpec(configs_havoc, configs_inv, assume=lambda L: [], step=step)
    return R


def variant(title, allc, select, options):
    """one contract per part of the argument space: which of the selection and of the options are arbitrary"""
    @contract('C27', title)
    def check(E, I):
        run_command(E, I, allc, select, options)
    return check


def run_command(E, I, allc, select, options):
    """every selected input exactly once, in order, with every selected configuration, in order"""
    R = setup(E, I)
    W = World(E, I)
    n = W.optional('name') if 'workspace' in select else W.named('name')
    c = W.optional('config') if 'config' in select else None if allc else W.named('config')
    out = W.optional('output') if options else None
    given = options and E.choice('inputs.given')
    files = Names(W, ('given',), E.ghost['loop.input.paths']) if given else None
    skip = tm.boolvar('skip')
    a = W.args(all_configs=allc, workspace_name=n, config_name=c, inputs=files, output_dir=out, skip_l1bs=skip,
               quiet=options and E.choice('quiet'))
    both = allc and W.given(c)
    # what is selected
    w = W.workspace(n)
    x, there = W.config(w, c)
    want = []
    if not both and there and w is None:
        want, w = default_workspace(E, W), DEFAULT
    if not both and there and not allc and x is None:
        want, x = want + default_config(E, W, w), DEFAULT
    nowhere = not both and there and allc and not (W.exists0(w) or any(o == 'create_workspace' for o, _ in want))
    configs = W.names('configs', code(w), tm.const(len(want))) if allc and not both and there and not nowhere else [x]
    inputs = None
    if not both and there and not nowhere:
        inputs = files if given and E.branch(tm.lt(0, files.n)) else W.names('input.paths', code(w), tm.const(len(want)))
    r = Run(E, I, W, configs, inputs, out if W.given(out) else None, skip, w, None)
    R.append(r)
    E.ghost['globals'][id(vars(cli)), '_PROCESSOR_FACTORY'] = Native(lambda *a, **k: r.factory(I, a, k), 'factory')
    e, _ = raises(E, I, cli.RunProcessorCommand.execute, SObj(E, cli.RunProcessorCommand, 'command'), a)
    if both or not there or nowhere:
        W.expect(e, [], ok=False)
        E.prove('nothing-processed', tm.And(tm.eq(r.ci, 0), tm.eq(r.ii, 0)))
        E.prove('reported', e is CommandError, detail='%r' % (e,))
        return
    bad = any(not ev[2] for ev in W.events)
    no_configs = allc and not E.branch(tm.lt(0, configs.n))
    no_inputs = not E.branch(tm.lt(0, inputs.n))
    if bad or no_configs or no_inputs:
        W.expect(e, want if not (allc and bad) else want, ok=False)
        E.prove('nothing-processed', r.proc is None and not r.failed and tm.And(tm.eq(r.ci, 0), tm.eq(r.ii, 0)))
        E.prove('reported', e is CommandError, detail='%r' % (e,))
        return
    W.expect(None if r.failed else e, want)
    if r.failed:
        E.prove('reported', e is CommandError, detail='%r' % (e,))
        return
    r.roll()
    E.prove('no-error', e is None, detail='%r' % (e,))
    E.prove('every-configuration', tm.eq(r.ci, r.n(configs)))
    E.prove('every-input', r.proc is None)


variant('run.all', True, ('workspace',), False)
variant('run.all-options', True, (), True)
variant('run.all-with-config', True, ('config',), False)
variant('run.one', False, ('workspace', 'config'), False)
variant('run.one-options', False, (), True)


@contract('C27', 'default-processor')
def main_(E, I):
    """the processor built by default gets every file in its own role; a configured or given factory takes precedence"""
    E.ghost['globals-modelled'] = True
    E.ghost['globals'] = {}
    conf = Native(lambda *a, **k: ('configured', a, k), 'configured') if E.choice('configured') else None
    E.contracts[cli.get_config_value] = lambda I, a, k: conf if a[0] == 'processor_factory' else None
    asked = []

    def paths(I, a, k):
        asked.append(a[0])
        return Str('path.%s' % a[0])
    E.contracts[cli.get_config_path] = paths
    ran = []

    def runner(I, a, k):
        ran.append((a, k, dict(E.ghost['globals'])))
        return 7
    E.contracts[cli.run_main] = runner
    made, mgr = [], []

    def build(I, a, k):
        made.append((a, k))
        return 'processor'
    E.contracts[L1BProcessor] = build

    def manager(I, a, k):
        b = _inspect.signature(WorkspaceManager.__init__).bind(None, *a, **k)
        mgr.append(b.arguments.get('workspaces_dir'))
        return 'manager'
    E.contracts[WorkspaceManager] = manager
    given = Native(lambda *a, **k: None, 'given') if E.choice('given') else None
    m = 'given manager' if E.choice('manager.given') else None
    args = SList(E, items=['run'])
    e, r = raises(E, I, cli.main, args=args, workspace_manager=m, processor_factory=given)
    E.prove('no-error', e is None, detail='%r' % (e,))
    E.prove('one-run', len(ran) == 1 and r == 7)
    if len(ran) != 1 or e is not None:
        return
    E.prove('arguments', ran[0][1].get('args') is args)
    E.prove('all-commands', any(x is cli.COMMAND_REGISTRY for x in ran[0][0]) or ran[0][1].get('command_registry') is cli.COMMAND_REGISTRY)
    g = ran[0][2]
    f = g.get((id(vars(cli)), '_PROCESSOR_FACTORY'))
    got = g.get((id(vars(cli)), '_WORKSPACE_MANAGER'))
    E.prove('manager', got == (m or 'manager'))
    if m is None:
        E.prove('workspaces-directory', len(mgr) == 1 and isinstance(mgr[0], Str) and mgr[0].name == 'path.workspaces_dir')
    if given is not None:
        return E.prove('given-factory', f is given)
    if conf is not None:
        return E.prove('configured-factory', f is conf)
    role = {k: Str(k) for k in ('cnf_file', 'cst_file', 'chd_file', 'output_dir')}
    skip = tm.boolvar('skip')
    e, p = raises(E, I, f, Str('run'), skip_l1bs=skip, **role)
    E.prove('no-error', e is None, detail='%r' % (e,))
    E.prove('one-processor', len(made) == 1 and p == 'processor')
    if len(made) != 1:
        return
    b = _inspect.signature(L1BProcessor.__init__).bind(None, *made[0][0], **made[0][1])
    for k, v in role.items():
        nm = [x for x in b.arguments if k[:3] in x.lower()] if k != 'output_dir' else [x for x in b.arguments if x.startswith('out')]
        E.prove('role.' + k, len(nm) == 1 and eqs(b.arguments[nm[0]], v), detail='%r' % (b.arguments,))
    E.prove('role.skip', eqs(b.arguments.get('skip_l1bs'), skip))
