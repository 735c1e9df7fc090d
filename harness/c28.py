from .climain import *
import glob

ANSWERS = ['yes', '', 'YES', ' Yes ', 'no', 'y', 'n', 'yess', 'x', '   ', 'No', 'yes please']


def agreed(a):
    return (a.strip() or 'yes').lower() == 'yes'


def unique(names, new):
    n, i = new, 2
    while n in (names or []):
        n, i = '%s_%d' % (new, i), i + 1
    return n


def reselect(names, select):
    select('default' if 'default' in names else names[0] if names else '')


def opts(**k):
    return [y for x, v in k.items() if v for y in ('-' + x, v)]


def workspace(rng, answer, wd):
    w, new = pickws(rng, wd), pickws(rng, wd, 0) if rng.random() < .5 else pick(rng, WS + ['a_1', 'a_2', 'n'], .3)
    yes = rng.random() < .5
    op = ('add', 'remove', 'copy', 'rename', 'current', 'list')[int(rng.integers(6))]

    def oracle(S, asks):
        if op == 'list':
            return
        if op == 'add':
            S.create_workspace(w)
            S.set_current_workspace_name(w)
            return
        if op == 'current':
            if w:
                S.set_current_workspace_name(w)
            return
        v = need(cur_ws(S, w))
        cur = S.get_current_workspace().name
        if op == 'remove':
            if not yes:
                asks.append(1)
            if yes or agreed(answer):
                S.delete_workspace(v)
                if v == cur:
                    reselect(S.get_workspace_names(), S.set_current_workspace_name)
        elif op == 'copy':
            S.copy_workspace(v, unique(S.get_workspace_names(), new or v + '_1'))
        else:
            n = unique(S.get_workspace_names(), new)
            S.rename_workspace(v, n)
            if v == cur:
                S.set_current_workspace_name(n)
    if op == 'add':
        w = w or 'zz'
    if op == 'rename':
        new = new or 'n'
    if op == 'copy' and w is None:
        new = None
    alias = {'remove': 'rm', 'copy': 'cp', 'rename': 'rn', 'current': 'cur', 'list': 'ls'}
    nm = alias[op] if op in alias and rng.random() < .3 else op
    argv = ['workspace' if rng.random() < .8 else 'w', nm] + (['-y'] if op == 'remove' and yes else []) + (
        [w] if w and op != 'list' else []) + ([new] if op in ('copy', 'rename') and new else [])
    return argv, oracle


def config(rng, answer, wd):
    w = pickws(rng, wd, .5)
    c, new = pickcfg(rng, wd, w), pickcfg(rng, wd, w, 0) if rng.random() < .5 else pick(rng, CS + ['c_copy', 'c_copy_2', 'n'], .3)
    yes, cryo = rng.random() < .5, rng.random() < .4
    op = ('add', 'remove', 'copy', 'rename', 'current', 'list', 'edit', 'info', 'upgrade', 'version')[int(rng.integers(10))]
    if op == 'add':
        c = c or 'zz'
    if op == 'rename':
        new = new or 'n'
    if op == 'copy' and c is None:
        new = None

    def oracle(S, asks):
        v = cur_ws(S, w)
        if op == 'add':
            v = v or default_ws(S)
            S.create_config(v, c, cryosat=cryo)
            S.set_current_config_name(v, c)
            return
        if op == 'list':
            S.get_config_names(need(v))
            return
        x = cur_cfg(S, v, c)
        if op == 'edit':
            v = v or default_ws(S)
            x = x or default_cfg(S, v)
            for k in ('CHD', 'CNF', 'CST'):
                S.open_file(os.path.join(S.workspaces_dir, v, 'configs', x, k + '.json'))
            return
        if op == 'current':
            v = v or 'default'
            if x:
                S.set_current_config_name(v, x)
            else:
                S.get_current_config_name(v)
            return
        need(v)
        if op in ('upgrade', 'version'):
            if not x:
                raise Failed()
            vs, ds = S.get_all_config_version(v, x), S.get_all_default_config_version()
            if op == 'upgrade' and any(d > k for d, k in zip(ds, vs)):
                S.upgrade_all_config(v, x)
            return
        need(x)
        if op == 'info':
            return
        cur = S.get_current_config_name(v) if S.workspace_exists(v) else None
        if op == 'remove':
            if not yes:
                asks.append(1)
            if yes or agreed(answer):
                S.delete_config(v, x)
                if x == cur:
                    reselect(S.get_config_names(v), lambda n: S.set_current_config_name(v, n))
            return
        names = S.get_config_names(v)
        if names is None:
            raise Failed()
        n = unique(names, new or x + '_copy')
        if op == 'copy':
            S.copy_config(v, x, n)
        else:
            S.rename_config(v, x, n)
            if x == cur:
                S.set_current_config_name(v, n)
    argv = ['config' if rng.random() < .8 else 'c', op] + opts(w=w) + (['-y'] if op == 'remove' and yes else []) + (
        ['--cryosat-adapted'] if op == 'add' and cryo else []) + ([c] if c and op != 'list' else []) + (
        [new] if op in ('copy', 'rename') and new else [])
    return argv, oracle


def inputs(rng, answer, wd):
    w, quiet = pickws(rng, wd, .5), rng.random() < .6
    op = ('add', 'remove', 'list')[int(rng.integers(3))]
    pats = [['src/n1.nc'], ['src/*.nc'], ['src/**/*.nc'], ['src/n?.nc', 'src/m1.nc', 'nothing*'], ['zz*.nc']] if op == 'add' else \
        [[], ['i1.nc'], ['i*.nc', 'j1.nc'], ['zz']]
    p = pats[int(rng.integers(len(pats)))]
    if op == 'list':
        p = p[:1]

    def oracle(S, asks):
        v = cur_ws(S, w)
        if op == 'list':
            need(v)
            return
        if op == 'add':
            fs = need([f for q in p for f in glob.glob(q, recursive=True)])
            S.add_inputs(v or default_ws(S), fs, Monitor.NULL)
            return
        need(v)
        fs = need(S.get_input_names(v, p or '*.nc'))
        if not quiet:
            asks.append(1)
        if quiet or agreed(answer):
            S.remove_inputs(v, fs, Monitor.NULL)
    argv = ['input' if rng.random() < .8 else 'i', op] + opts(w=w) + (['-q'] if quiet and op != 'list' else []) + p
    return argv, oracle


def outputs(rng, answer, wd):
    w = pickws(rng, wd, .5)
    c, quiet = pickcfg(rng, wd, w), rng.random() < .6
    op = ('clean', 'list', 'open', 'inspect', 'compare', 'compare')[int(rng.integers(6))]
    files = ['L1B_x.nc', 'L1BS_y.nc', 'src/L1B_x.nc', './src/n1.nc', 'nothing.nc', 'src/nothing.nc']
    f, g = (files[int(rng.integers(6))] for _ in range(2))
    if rng.random() < .3:
        g = None
    w2 = pickws(rng, wd, .6)
    c2 = pickcfg(rng, wd, w2, .6)

    def product(S, v, x, name):
        p = os.path.abspath(name) if os.path.dirname(name) else os.path.join(S.workspaces_dir, v, 'configs', need(x), 'outputs', name)
        if not os.path.exists(p):
            raise Failed()
        return p

    def oracle(S, asks):
        v = cur_ws(S, w)
        x = cur_cfg(S, v, c)
        if op in ('inspect', 'compare'):
            v = v or default_ws(S)
            p = product(S, v, x, f)
            if op == 'inspect':
                S.inspect_l1b_product(v, p)
            else:
                S.compare_l1b_products(v, p, product(S, w2 or v, c2 or x, g or f))
            return
        need(v), need(x)
        if op == 'list':
            return
        if op == 'open':
            d = os.path.join(S.workspaces_dir, v, 'configs', x, 'outputs')
            if os.path.exists(d):
                S.open_file(d)
            return
        need(S.get_output_names(v, x))
        if not quiet:
            asks.append(1)
        if quiet or agreed(answer):
            S.remove_outputs(v, x)
    argv = ['output' if rng.random() < .8 else 'o', op] + opts(w=w, c=c) + (['-q'] if quiet and op == 'clean' else [])
    if op == 'compare':
        argv += opts(W=w2, C=c2)
    argv += [f] if op in ('inspect', 'compare') else []
    argv += [g] if op == 'compare' and g else []
    return argv, oracle


def other(rng, answer, wd):
    op = ('status', 'notebook', 'copyright', 'license')[int(rng.integers(4))]

    def oracle(S, asks):
        if op == 'notebook':
            os.makedirs(S.workspaces_dir, exist_ok=True)
            S.launch_notebook('Notebook', S.workspaces_dir)
        if op == 'status' and os.path.exists(S.workspaces_dir):
            v = cur_ws(S, None)
            if v and not S.workspace_exists(v):
                raise Failed()          # the selection is stale: reported in place of the status
    return [op], oracle


@case('C28', 'commands', 180, 5000)
def commands(rng, scratch):
    base, wd = world(rng, scratch)
    for step in range(int(rng.integers(1, 6))):
        answer = ANSWERS[int(rng.integers(len(ANSWERS)))]
        fam = (workspace, config, config, inputs, outputs, outputs, other)[int(rng.integers(7))]
        argv, oracle = fam(rng, answer, wd)
        perform(argv, oracle, base, wd, rng.random() < .1, answer)
