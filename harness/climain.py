"""the command line on scratch workspaces: run a command on the real manager, and what it should do on a copy"""
import builtins
import contextlib
import io
import json
import os
import shutil
import sys
STUBS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'stubs')
if STUBS not in sys.path:
    sys.path.insert(0, STUBS)
from .util import *
from .fstree import build, guarded, put, snapshot
import subprocess
import dedop.util.config as dconfig
import dedop.cli.main as cli
from dedop.ui.workspace_manager import WorkspaceManager
from dedop.ui.exception import WorkspaceError
from dedop.util.monitor import Monitor

LAUNCH = ('open_file', 'inspect_l1b_product', 'compare_l1b_products', 'launch_notebook')
WS = ['a', 'b', 'c', 'default', 'zz']
CS = ['c', 'd', 'e', 'default', 'zz']


class Failed(Exception):
    """the command must report an error"""


class Manager(WorkspaceManager):
    """the real manager; what would start another program is recorded instead"""

    def __init__(self, wd, fail):
        super().__init__(wd)
        self.launched, self.fail = [], fail

    def launch(self, *what):
        if self.fail:
            raise WorkspaceError('cannot start')
        self.launched.append(what)

    def open_file(self, path):
        self.launch('open', path)

    def inspect_l1b_product(self, workspace_name, l1b_path):
        self.launch('inspect', workspace_name, l1b_path)

    def compare_l1b_products(self, workspace_name, l1b_path_1, l1b_path_2):
        self.launch('compare', workspace_name, l1b_path_1, l1b_path_2)

    def launch_notebook(self, title, notebook_dir, notebook_path=None):
        self.launch('notebook', notebook_dir)


def world(rng, scratch):
    base = os.path.join(scratch, 'fs')
    shutil.rmtree(base, ignore_errors=True)
    wd = build(rng, base)
    if os.path.isdir(wd):
        for w in os.listdir(wd):
            p = os.path.join(wd, w)
            if rng.random() < .15 and not os.path.exists(os.path.join(wd, 'default')):
                os.rename(p, os.path.join(wd, 'default'))
                p = os.path.join(wd, 'default')
            c = os.path.join(p, 'configs')
            if os.path.isdir(c):
                for x in sorted(os.listdir(c)):
                    if x == 'c' and rng.random() < .4:
                        os.rename(os.path.join(c, x), os.path.join(c, 'default'))
                        x = 'default'
                    if rng.random() < .5:
                        for k in ('CHD', 'CNF', 'CST'):
                            d = json.load(open(os.path.join(REPO, 'dedop', 'ui', 'data', 'config', k + '.json')))
                            v = d.get('__metainf__', {}).get('version', 0)
                            r = rng.random()
                            if r < .3:
                                d.pop('__metainf__', None)
                            elif '__metainf__' in d and r < .5:
                                d['__metainf__']['version'] = v - 1
                            put(os.path.join(c, x, k + '.json'), json.dumps(d))
                if rng.random() < .8:
                    put(os.path.join(c, '.current'), CS[int(rng.integers(len(CS)))] if rng.random() < .9 else '')
        for d in [wd] + [os.path.join(wd, w, 'configs') for w in sorted(os.listdir(wd))]:
            for x in sorted(os.listdir(d)) if os.path.isdir(d) else ():
                if rng.random() < .2 and os.path.isdir(os.path.join(d, x)):
                    for i in range(2, 2 + int(rng.integers(1, 4))):
                        os.makedirs(os.path.join(d, '%s_%d' % (x, i)), exist_ok=True)
        if rng.random() < .8:
            put(os.path.join(wd, '.current'), WS[int(rng.integers(len(WS)))] if rng.random() < .9 else '')
    os.makedirs(os.path.join(base, 'src', 'sub'), exist_ok=True)
    for f in ('n1.nc', 'n2.nc', 'm1.nc', 'x.txt', 'sub/n3.nc', 'L1B_x.nc', 'i1.nc'):
        if rng.random() < .7:
            put(os.path.join(base, 'src', f), f)
    return base, wd


@contextlib.contextmanager
def session(base, answers):
    """input() answers from the list; current directory inside the scratch tree; nothing launched; no user configuration"""
    asked = []

    def ask(prompt=''):
        asked.append(prompt)
        return answers
    saved = os.getcwd(), dconfig._CONFIG, builtins.input, subprocess.check_call
    os.chdir(base)
    dconfig._CONFIG = {}
    builtins.input = ask
    subprocess.check_call = lambda *a, **k: 0
    out = io.StringIO()
    try:
        with guarded(base), contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            yield asked, out
    finally:
        os.chdir(saved[0])
        dconfig._CONFIG, builtins.input, subprocess.check_call = saved[1:]


def expectation(oracle, base, wd, fail):
    """run the oracle on the tree, remember the result, put the tree back"""
    keep = base + '.keep'
    shutil.rmtree(keep, ignore_errors=True)
    shutil.copytree(base, keep, symlinks=True)
    S = Manager(wd, fail)
    err, asks = None, []
    cwd = os.getcwd()
    os.chdir(base)
    saved = Monitor.NULL
    try:
        with guarded(base):
            try:
                oracle(S, asks)
            except (Failed, WorkspaceError, OSError, ValueError) as e:
                err = e
    finally:
        os.chdir(cwd)
    after = snapshot(base)
    shutil.rmtree(base)
    os.rename(keep, base)
    return S.launched, err, len(asks), after


def perform(argv, oracle, base, wd, fail, answer, factory=None):
    before = snapshot(base)
    launched, err, asks, after = expectation(oracle, base, wd, fail)
    m = Manager(wd, fail)
    with session(base, answer) as (asked, out):
        rc = cli.main(args=argv, workspace_manager=m, processor_factory=factory or (lambda *a, **k: 1 / 0))
    what = 'dedop ' + ' '.join(map(str, argv))
    if not argv:
        what = 'dedop'
    got = snapshot(base)
    diff = sorted(k for k in set(got) | set(after) if got.get(k, 0) != after.get(k, 0))
    if before == after:
        expect(not diff, '%s (answer %r) must not change anything but changed %s', what, answer, diff[:4])
    expect(not diff, '%s (answer %r) left %s', what, answer,
           ['%s: %r instead of %r' % (k, got.get(k, 'absent'), after.get(k, 'absent')) for k in diff[:4]])
    expect(m.launched == launched, '%s launched %r instead of %r', what, m.launched, launched)
    expect((rc != 0) == (err is not None), '%s returned %r; %s; output %r', what, rc, 'error expected: %r' % (err,) if err else 'no error expected',
           out.getvalue()[-300:])
    expect(len(asked) == asks, '%s asked %d times instead of %d', what, len(asked), asks)
    return out.getvalue()


def pick(rng, pool, none=.4):
    return None if rng.random() < none else pool[int(rng.integers(len(pool)))]


def pickws(rng, wd, none=.4):
    """a workspace: mostly one that exists, often the current one"""
    S = WorkspaceManager(wd)
    r = rng.random()
    if r < none:
        return None
    cur, names = S.get_current_workspace().name, S.get_workspace_names()
    if r < none + (1 - none) * .3 and cur:
        return cur
    return pick(rng, names if names and rng.random() < .7 else WS, 0)


def pickcfg(rng, wd, w, none=.4):
    """a configuration: mostly one that exists in the workspace, often the current one"""
    S = WorkspaceManager(wd)
    r = rng.random()
    if r < none:
        return None
    w = w or S.get_current_workspace().name
    if not w or not S.workspace_exists(w):
        return pick(rng, CS, 0)
    cur, names = S.get_current_config_name(w), S.get_config_names(w)
    if r < none + (1 - none) * .3 and cur:
        return cur
    return pick(rng, names if names and rng.random() < .7 else CS, 0)


def cur_ws(S, w):
    w = w or S.get_current_workspace().name
    return w or None


def need(x):
    if not x:
        raise Failed()
    return x


def cur_cfg(S, w, c):
    if c or not w:
        return c
    return S.get_current_config_name(w) or None


def default_ws(S):
    if not S.workspace_exists('default'):
        S.create_workspace('default')
        S.set_current_workspace_name('default')
    return 'default'


def default_cfg(S, w):
    if not S.config_exists(w, 'default'):
        S.create_config(w, 'default')
        S.set_current_config_name(w, 'default')
    return 'default'
