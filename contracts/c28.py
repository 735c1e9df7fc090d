"""Management commands of the command line over an arbitrary workspace manager."""
from .cli import *
from pyvc.ext import text

W_, C_, I_, O_ = cli.ManageWorkspacesCommand, cli.ManageConfigsCommand, cli.ManageInputsCommand, cli.ManageOutputsCommand
DEFAULT = 'default'


def start(E, I, **fields):
    W = World(E, I)
    return W, W.args(**fields)


def command(E, I, cls, name, a):
    return raises(E, I, I.getattr(cls, 'execute_' + name), a)[0]


def unique_names(E, W):
    E.contracts[W_.ensure_unique_name.__func__] = unique(E, W, 'workspaces')
    E.contracts[C_.ensure_unique_name.__func__] = unique(E, W, 'configs')


def wnames(W, version=0):
    return W.names('workspaces', tm.const(version))


def cnames(W, w, version=0):
    return W.names('configs', code(w), tm.const(version))


def default_workspace(E, W):
    """the changes made when the default workspace is needed"""
    if E.branch(tm.boolvar('workspace.exists', code(DEFAULT))):
        return []
    return [('create_workspace', {'workspace_name': DEFAULT}), ('set_current_workspace_name', {'workspace_name': DEFAULT})]


def default_config(E, W, w):
    if E.branch(tm.boolvar('config.exists', code(w), code(DEFAULT))):
        return []
    return [('create_config', {'workspace_name': w, 'config_name': DEFAULT, 'cryosat': False}),
            ('set_current_config_name', {'workspace_name': w, 'config_name': DEFAULT})]


def nothing(W, E, e):
    W.expect(e, [], ok=False)


def quiet(W, E):
    """a command that only shows something: nothing changes, whether or not it can be shown"""
    E.prove('nothing-changed', not W.events)


# ------------------------------------------------------------------------------------------------ names
def unique_spec(E, nm, new):
    """any string the loop builds: the loop runs on only while the name is taken"""
    def strings(L):
        return sorted(n for n in L.assigned if n in L.kinds and L.kinds[n] is str)

    def entry(L):
        L.kinds = {n: (str if isinstance(v, (str, Str, Text)) else int if isinstance(v, (int, T)) else None)
                   for n, v in L.frame.loc.items() if n in L.assigned}

    def havoc(L):
        for n, k in L.kinds.items():
            if k is None:
                raise Unsupported('loop state')
            L.frame.loc[n] = Str(n, E.fresh_int(n)) if k is str else E.fresh_int(n)

    def inv(L):
        return [('kept-if-free.' + n, tm.Or(tm.eq(code(L.frame.loc[n]), code(new)), nm.member(new))) for n in strings(L)]
    return LoopSpec(havoc, inv, entry=entry)


@contract('C28', 'unique-name.workspace')
def unique_ws(E, I):
    W = World(E, I)
    new = Str('new')
    nm = wnames(W)
    E.loops[('ManageWorkspacesCommand.ensure_unique_name', 0)] = unique_spec(E, nm, new)
    e, r = raises(E, I, I.getattr(W_, 'ensure_unique_name'), new)
    E.prove('no-error', e is None)
    E.prove('free', tm.Not(nm.member(r)))
    E.prove('kept-if-free', tm.Or(nm.member(new), tm.eq(code(r), code(new))))
    quiet(W, E)


@contract('C28', 'unique-name.config')
def unique_cfg(E, I):
    W = World(E, I)
    w, new = Str('w'), Str('new')
    nm = cnames(W, w)
    E.loops[('ManageConfigsCommand.ensure_unique_name', 0)] = unique_spec(E, nm, new)
    e, r = raises(E, I, I.getattr(C_, 'ensure_unique_name'), w, new)
    if not W.exists(w):
        E.prove('error', e is not None)
        return quiet(W, E)
    E.prove('no-error', e is None)
    E.prove('free', tm.Not(nm.member(r)))
    E.prove('kept-if-free', tm.Or(nm.member(new), tm.eq(code(r), code(new))))
    quiet(W, E)


@contract('C28', 'question')
def question(E, I):
    """the answer without surrounding blanks; the default if that is empty"""
    ans = Str('typed')

    def strip(I, o, name):
        if name == 'strip':
            return Native(lambda: Str('stripped', tm.app('strip', 'Int', o.code)), name)
        raise Unsupported('str.%s' % name)
    I.str_attr = strip
    asked = []
    E.contracts[input] = lambda I, a, k: (asked.append(a), ans)[1]
    dflt = None if E.choice('no.default') else Str('default')
    e, r = raises(E, I, cli._input, Str('prompt'), dflt)
    E.prove('no-error', e is None)
    E.prove('asked-once', len(asked) == 1)
    s = Str('stripped', tm.app('strip', 'Int', ans.code))
    if E.branch(tm.streq(s, '')):
        E.prove('default', eqs(r, dflt))
    else:
        E.prove('answer', eqs(r, s))


# ------------------------------------------------------------------------------------------------ workspaces
@contract('C28', 'workspace-add')
def ws_add(E, I):
    n = Str('name')
    W, a = start(E, I, workspace_name=n)
    e = command(E, I, W_, 'add', a)
    W.expect(e, [('create_workspace', {'workspace_name': n}), ('set_current_workspace_name', {'workspace_name': n})])


@contract('C28', 'workspace-remove')
def ws_remove(E, I):
    yes = E.choice('yes')
    W = World(E, I)
    n = W.optional('name')
    e = command(E, I, W_, 'remove', W.args(workspace_name=n, yes=yes))
    w = W.workspace(n)
    if w is None:
        return nothing(W, E, e)
    if not W.confirmed(yes):
        return W.expect(e, [])
    want = [('delete_workspace', {'workspace_name': w})]
    if W.cur0 is not None and E.branch(tm.eq(code(w), code(W.cur0))):
        nm = wnames(W, 1)
        if E.branch(nm.member(DEFAULT)):
            s = DEFAULT
        elif E.branch(tm.lt(0, nm.n)):
            s = nm.item(0)
        else:
            s = ''
        want.append(('set_current_workspace_name', {'workspace_name': s}))
    W.expect(e, want)


@contract('C28', 'workspace-copy')
def ws_copy(E, I):
    W = World(E, I)
    n, new = W.optional('name'), W.optional('new')
    unique_names(E, W)
    e = command(E, I, W_, 'copy', W.args(workspace_name=n, new_name=new))
    w = W.workspace(n)
    if w is None:
        return nothing(W, E, e)
    v = W.free(wnames(W), new if W.given(new) else text([w, '_1']))
    W.expect(e, [('copy_workspace', {'workspace_name': w, 'new_workspace_name': v})])


@contract('C28', 'workspace-rename')
def ws_rename(E, I):
    W = World(E, I)
    n, new = W.optional('name'), Str('new')
    E.assume(tm.Not(tm.streq(new, '')))
    unique_names(E, W)
    e = command(E, I, W_, 'rename', W.args(workspace_name=n, new_name=new))
    w = W.workspace(n)
    if w is None:
        return nothing(W, E, e)
    v = W.free(wnames(W), new)
    want = [('rename_workspace', {'workspace_name': w, 'new_workspace_name': v})]
    if W.cur0 is not None and E.branch(tm.eq(code(w), code(W.cur0))):
        want.append(('set_current_workspace_name', {'workspace_name': v}))
    W.expect(e, want)


@contract('C28', 'workspace-current')
def ws_current(E, I):
    W = World(E, I)
    n = W.optional('name')
    e = command(E, I, W_, 'current', W.args(workspace_name=n))
    W.expect(e, [('set_current_workspace_name', {'workspace_name': n})] if W.given(n) else [])


def shows(title, cls, name, fields, configs=False):
    @contract('C28', title)
    def check(E, I):
        W = World(E, I)
        command(E, I, cls, name, W.args(**{k: W.optional(k) for k in fields}))
        quiet(W, E)
    return check


shows('workspace-list', W_, 'list', ())
shows('config-list', C_, 'list', ('workspace_name',))
shows('config-version', C_, 'version', ('workspace_name', 'config_name'))
shows('config-info', C_, 'info', ('workspace_name', 'config_name'))
shows('input-list', I_, 'list', ('workspace_name', 'pattern'))
shows('output-list', O_, 'list', ('workspace_name', 'config_name', 'pattern'))


@contract('C28', 'status')
def status(E, I):
    W = World(E, I)
    raises(E, I, cli.ShowStatusCommand.execute, SObj(E, cli.ShowStatusCommand, 'command'), W.args(long=E.choice('long')))
    quiet(W, E)


@contract('C28', 'notebook')
def notebook(E, I):
    W = World(E, I)
    e, _ = raises(E, I, cli.OpenNotebookCommand.execute, SObj(E, cli.OpenNotebookCommand, 'command'), W.args())
    d = Str('workspaces_dir')
    want = [] if E.branch(tm.boolvar('fs.exists', d.code)) else [('makedirs', {'path': d})]
    W.expect(e, want + [('launch_notebook', {'notebook_dir': d})])


# ------------------------------------------------------------------------------------------------ configurations
def selected(E, I, cls, name, **fields):
    """run a command that needs a workspace and a configuration; None if there is none (then nothing may happen)"""
    W = World(E, I)
    n, c = W.optional('name'), W.optional('config')
    unique_names(E, W)
    e = command(E, I, cls, name, W.args(workspace_name=n, config_name=c, **{k: f(W) for k, f in fields.items()}))
    w = W.workspace(n)
    x, there = W.config(w, c)
    if w is None or x is None:
        nothing(W, E, e)
        return None
    return W, e, w, x


def unnamed(E, W, e, w):
    """new names are only made up in a workspace that exists"""
    if W.exists0(w):
        return False
    nothing(W, E, e)
    return True


@contract('C28', 'config-add')
def cfg_add(E, I):
    W = World(E, I)
    n, c, cryo = W.optional('name'), Str('config'), E.choice('cryosat')
    E.assume(tm.Not(tm.streq(c, '')))
    e = command(E, I, C_, 'add', W.args(workspace_name=n, config_name=c, cryosat_adapted=cryo))
    w = W.workspace(n)
    want = []
    if w is None:
        want, w = default_workspace(E, W), DEFAULT
    W.expect(e, want + [('create_config', {'workspace_name': w, 'config_name': c, 'cryosat': cryo}),
                        ('set_current_config_name', {'workspace_name': w, 'config_name': c})])


@contract('C28', 'config-remove')
def cfg_remove(E, I):
    yes = E.choice('yes')
    r = selected(E, I, C_, 'remove', yes=lambda W: yes)
    if r is None:
        return
    W, e, w, x = r
    if not W.confirmed(yes):
        return W.expect(e, [])
    want = [('delete_config', {'workspace_name': w, 'config_name': x})]
    if not W.exists0(w):
        # the manager refuses (C24); if it did not, asking for the current configuration does
        E.prove('nothing-else', len(W.events) <= 1 and e is not None)
        return
    cur = W.current0(w)
    if cur is not None and E.branch(tm.eq(code(x), code(cur))):
        nm = cnames(W, w, 1)
        if E.branch(nm.member(DEFAULT)):
            s = DEFAULT
        elif E.branch(tm.lt(0, nm.n)):
            s = nm.item(0)
        else:
            s = ''
        want.append(('set_current_config_name', {'workspace_name': w, 'config_name': s}))
    W.expect(e, want)


@contract('C28', 'config-copy')
def cfg_copy(E, I):
    new = []
    r = selected(E, I, C_, 'copy', new_name=lambda W: new.append(W.optional('new')) or new[0])
    if r is None:
        return
    W, e, w, x = r
    if unnamed(E, W, e, w):
        return
    v = W.free(cnames(W, w), new[0] if W.given(new[0]) else text([x, '_copy']))
    W.expect(e, [('copy_config', {'workspace_name': w, 'config_name': x, 'new_config_name': v})])


@contract('C28', 'config-rename')
def cfg_rename(E, I):
    new = Str('new')
    E.assume(tm.Not(tm.streq(new, '')))
    r = selected(E, I, C_, 'rename', new_name=lambda W: new)
    if r is None:
        return
    W, e, w, x = r
    if unnamed(E, W, e, w):
        return
    v = W.free(cnames(W, w), new)
    want = [('rename_config', {'workspace_name': w, 'config_name': x, 'new_config_name': v})]
    cur = W.current0(w)
    if cur is not None and E.branch(tm.eq(code(x), code(cur))):
        want.append(('set_current_config_name', {'workspace_name': w, 'config_name': v}))
    W.expect(e, want)


def target(E, W, n, c):
    """workspace and configuration of a command that falls back to the defaults: (changes, workspace, configuration), or None
    if the workspace named does not exist"""
    w = W.workspace(n)
    x, there = W.config(w, c)
    if not there:
        return None
    want = []
    if w is None:
        want, w = default_workspace(E, W), DEFAULT
    if x is None:
        want, x = want + default_config(E, W, w), DEFAULT
    return want, w, x


@contract('C28', 'config-edit')
def cfg_edit(E, I):
    W = World(E, I)
    n, c = W.optional('name'), W.optional('config')
    e = command(E, I, C_, 'edit', W.args(workspace_name=n, config_name=c))
    t = target(E, W, n, c)
    if t is None:
        return nothing(W, E, e)
    want, w, x = t
    W.expect(e, want + [('open_file', {'path': W.path('get_config_file', w, x, k)}) for k in ('CHD', 'CNF', 'CST')])


@contract('C28', 'config-current')
def cfg_current(E, I):
    W = World(E, I)
    n, c = W.optional('name'), W.optional('config')
    e = command(E, I, C_, 'current', W.args(workspace_name=n, config_name=c))
    w = W.workspace(n)
    x, there = W.config(w, c)
    if not there:
        return nothing(W, E, e)
    if x is None:
        return quiet(W, E)
    W.expect(e, [('set_current_config_name', {'workspace_name': DEFAULT if w is None else w, 'config_name': x})])


@contract('C28', 'config-upgrade')
def cfg_upgrade(E, I):
    W = World(E, I)
    n, c = W.optional('name'), W.optional('config')
    e = command(E, I, C_, 'upgrade', W.args(workspace_name=n, config_name=c))
    w = W.workspace(n)
    x, there = W.config(w, c)
    if w is None or x is None:
        E.prove('refused', e is not None)
        return quiet(W, E)
    newer = tm.Or(*[tm.lt(W.ver('get_all_config_version', j, {'workspace_name': w, 'config_name': x}),
                          W.ver('get_all_default_config_version', j, {})) for j in range(3)])
    W.expect(e, [('upgrade_all_config', {'workspace_name': w, 'config_name': x})] if E.branch(newer) else [])


# ------------------------------------------------------------------------------------------------ inputs
@contract('C28', 'input-add')
def in_add(E, I):
    W = World(E, I)
    n = W.optional('name')
    files = Names(W, ('given',))
    E.assume(tm.lt(0, files.n))
    found = Names(W, ('found',))
    passed = []
    E.contracts[cli._expand_wildcard_paths] = lambda I, a, k: (passed.append(a[0]), found)[1]
    e = command(E, I, I_, 'add', W.args(workspace_name=n, inputs=files, quiet=E.choice('quiet')))
    E.prove('expanded', len(passed) == 1 and passed[0] is files)
    if not E.branch(tm.lt(0, found.n)):
        return nothing(W, E, e)
    w = W.workspace(n)
    want = []
    if w is None:
        want, w = default_workspace(E, W), DEFAULT
    W.expect(e, want + [('add_inputs', {'workspace_name': w, 'input_paths': found})])


@contract('C28', 'input-remove')
def in_remove(E, I):
    W = World(E, I)
    q = E.choice('quiet')
    n = W.optional('name')
    files = Names(W, ('given',))
    e = command(E, I, I_, 'remove', W.args(workspace_name=n, inputs=files, quiet=q))
    w = W.workspace(n)
    if w is None:
        return nothing(W, E, e)
    pat = files if E.branch(tm.lt(0, files.n)) else '*.nc'
    found = W.names('input.names', code(w), W.pattern(pat), tm.const(0))
    if not E.branch(tm.lt(0, found.n)):
        return nothing(W, E, e)
    if not W.confirmed(q):
        return W.expect(e, [])
    W.expect(e, [('remove_inputs', {'workspace_name': w, 'input_names': found})])


@contract('C28', 'wildcards')
def wildcards(E, I):
    """every file that matches one of the patterns, in the order of the patterns"""
    import glob
    W = World(E, I)
    n = 3
    pats = [Str('p%d' % i) for i in range(n)]
    found = {}

    def g(I, a, k):
        if a[0] not in pats or k.get('recursive') is not True:
            raise Unsupported('glob')
        i = pats.index(a[0])
        found[i] = [Str('f%d.%d' % (i, j)) for j in range(i + 1 if not E.choice('none.%d' % i) else 0)]
        return SList(E, items=list(found[i]))
    E.contracts[glob.glob] = g
    e, r = raises(E, I, cli._expand_wildcard_paths, SList(E, items=list(pats)))
    E.prove('no-error', e is None)
    want = [f for i in range(n) for f in found.get(i, [])]
    E.prove('complete', isinstance(r, SList) and r.st[0] == 'c' and list(r.st[1]) == want)


# ------------------------------------------------------------------------------------------------ outputs
@contract('C28', 'output-clean')
def out_clean(E, I):
    q = E.choice('quiet')
    r = selected(E, I, O_, 'clean', quiet=lambda W: q)
    if r is None:
        return
    W, e, w, x = r
    found = W.names('output.names', code(w), code(x), W.pattern(None), tm.const(0))
    if not E.branch(tm.lt(0, found.n)):
        return nothing(W, E, e)
    if not W.confirmed(q):
        return W.expect(e, [])
    W.expect(e, [('remove_outputs', {'workspace_name': w, 'config_name': x})])


@contract('C28', 'output-open')
def out_open(E, I):
    r = selected(E, I, O_, 'open')
    if r is None:
        return
    W, e, w, x = r
    p = W.path('get_outputs_path', w, x)
    W.expect(e, [('open_file', {'path': p})] if E.branch(tm.boolvar('fs.exists', p.code)) else [])


def located(E, W, f, w, x):
    """the product named: a path as it is, a bare name below the outputs of the configuration; None: no configuration"""
    if not E.branch(tm.streq(Str('dirname', tm.app('dirname', 'Int', code(f))), '')):
        return Str('abspath', tm.app('abspath', 'Int', code(f)))
    return W.path('get_outputs_path', w, x, f) if x is not None else None


def there(E, p):
    return E.branch(tm.boolvar('fs.exists', p.code))


@contract('C28', 'output-inspect')
def out_inspect(E, I):
    W = World(E, I)
    n, c, f = W.optional('name'), W.optional('config'), Str('file')
    e = command(E, I, O_, 'inspect', W.args(workspace_name=n, config_name=c, l1b_filename=f))
    w = W.workspace(n)
    x, ok = W.config(w, c)
    if not ok:
        return nothing(W, E, e)
    want = []
    if w is None:
        want, w = default_workspace(E, W), DEFAULT
    p = located(E, W, f, w, x)
    if p is None or not there(E, p):
        return W.expect(e, want, ok=False)
    W.expect(e, want + [('inspect_l1b_product', {'workspace_name': w, 'l1b_path': p})])


def compare(title, first, second):
    """the products compared are those named; what of the first and second selection varies, by contract"""
    @contract('C28', title)
    def out_compare(E, I):
        W = World(E, I)
        n, c = (W.optional('name'), W.optional('config')) if first == 'any' else (W.named('name'), W.named('config')) \
            if first == 'named' else (W.named('name'), None)
        n2, c2 = (W.optional('name2'), W.optional('config2')) if second else (None, None)
        f, f2 = W.named('file'), W.optional('file2')
        if first == 'unset':
            E.assume([tm.boolvar('no.current.config', code(n)), tm.boolvar('workspace.exists', code(n))])
        e = command(E, I, O_, 'compare', W.args(workspace_name=n, config_name=c, l1b_filename_1=f,
                                                 workspace_name_2=n2, config_name_2=c2, l1b_filename_2=f2))
        w = W.workspace(n)
        x, ok = W.config(w, c)
        if not ok:
            return nothing(W, E, e)
        want = []
        if w is None:
            want, w = default_workspace(E, W), DEFAULT
        p = located(E, W, f, w, x)
        if p is None or not there(E, p):
            return W.expect(e, want, ok=False)
        p2 = located(E, W, f2 if W.given(f2) else f, n2 if W.given(n2) else w, c2 if W.given(c2) else x)
        if p2 is None or not there(E, p2):
            return W.expect(e, want, ok=False)
        W.expect(e, want + [('compare_l1b_products', {'workspace_name': w, 'l1b_path_1': p, 'l1b_path_2': p2})])
    return out_compare


compare('output-compare.first', 'any', False)
compare('output-compare.second', 'named', True)
compare('output-compare.unset', 'unset', True)
