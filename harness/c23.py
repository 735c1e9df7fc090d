from .util import *
from .fstree import guarded
import copy
import json
import pkgutil
import shutil
from dedop.ui.workspace_manager import WorkspaceManager

META = '__metainf__'
KEYS = ['a', 'b', 'c', 'd', 'e_cnf', 'f']


def reference(cur, default):
    v = cur.get(META, {}).get('version', -1)
    if v >= default[META]['version']:
        return copy.deepcopy(cur)
    state = {}
    for ch in default[META]['changelog']:
        if ch['version'] > v:
            for p in ch['parameters']:
                if p[1] in ('+', '*', '-'):
                    state[p[0]] = p[1]
    out = {k: x for k, x in cur.items() if state.get(k) is None}
    out.update({k: default[k] for k, op in state.items() if op != '-'})
    out[META] = default[META]
    return out


def gen(rng):
    nv = int(rng.integers(0, 6))
    log = []
    vers = sorted(int(x) for x in rng.integers(0, nv + 1, rng.integers(0, 7)))
    last = {}
    for v in vers:
        ps = []
        for _ in range(rng.integers(0, 5)):
            k, op = KEYS[rng.integers(len(KEYS))], '+*-'[rng.integers(3)]
            ps.append([k, op, 'why'])
            last[k] = op
        log.append({'version': v, 'parameters': ps, 'comment': ''})
    d = {META: {'version': nv, 'changelog': log, 'description': 'x'}}
    for k in KEYS:
        if last.get(k, '') in ('+', '*') or (k not in last and rng.random() < .6):
            d[k] = {'value': int(rng.integers(100)), 'units': None, 'description': 'default'}
    # keys added at an old version and removed later have no definition: only files older than the removal list them
    for k, op in last.items():
        if op == '-' and rng.random() < .2:
            d[k] = {'value': -1}
    cur = {k: {'value': int(rng.integers(1000, 2000)), 'description': 'user'} for k in KEYS if rng.random() < .6}
    r = rng.random()
    if r < .8:
        cur[META] = {'version': int(rng.integers(-1, nv + 2)), 'description': 'user'}
    elif r < .9:
        cur[META] = {'description': 'user'}
    return cur, d


@case('C23', 'upgrade', 1500, 40000)
def upgrade(rng, scratch):
    cur, d = gen(rng)
    before, dbefore = copy.deepcopy(cur), copy.deepcopy(d)
    got = WorkspaceManager._do_upgrade_config(cur, d)
    expect(d == dbefore, 'the defaults were changed: %r', dbefore)
    want = reference(before, dbefore)
    expect(got == want, 'upgrade of %r with log %r gives %r, expected %r', before, dbefore[META], got, want)
    return '%r by %r' % (before, dbefore[META])


@case('C23', 'file', 60, 1500)
def upgradefile(rng, scratch):
    wd = os.path.join(scratch, 'w')
    shutil.rmtree(wd, ignore_errors=True)
    with guarded(scratch):
        m = WorkspaceManager(wd)
        m.create_workspace('w')
        m.create_config('w', 'c')
        want = {}
        for key in ('CHD', 'CNF', 'CST'):
            d = json.loads(pkgutil.get_data('dedop.ui.data.config', key + '.json').decode())
            p = m.get_config_file('w', 'c', key)
            with open(p) as f:
                expect(json.load(f) == d, 'a new configuration is not the shipped default')
            v = int(rng.integers(-1, d[META]['version'] + 2))
            cur = {k: {'value': 'user %d' % rng.integers(1000)} for k in d if k != META and rng.random() < .8}
            for ch in d[META]['changelog']:
                for prm in ch['parameters']:
                    if rng.random() < .5:
                        cur[prm[0]] = {'value': 'old'}
            if v >= 0:
                cur[META] = {'version': v, 'filler': 'x' * int(rng.integers(0, 4000))}
            if rng.random() < .3:
                cur['filler'] = 'y' * 5000
            with open(p, 'w') as f:
                json.dump(cur, f, indent=int(rng.integers(0, 8)))
            expect(m.get_config_version('w', 'c', key) == v, 'version of %r', cur.get(META))
            expect(m.get_default_config_version(key) == d[META]['version'], 'default version')
            want[key] = (reference(cur, d), cur.get(META, {}).get('version', -1), d)
        vs = m.upgrade_all_config('w', 'c')
        for key, v in zip(('CHD', 'CNF', 'CST'), vs):
            w, old, d = want[key]
            with open(m.get_config_file('w', 'c', key)) as f:
                text = f.read()
            try:
                got = json.loads(text)
            except ValueError:
                raise Violation('the upgraded %s file is not readable' % key)
            expect(got == w, '%s upgraded from version %d is %r, expected %r', key, old, got, w)
            expect(v == w.get(META, {}).get('version', -1), 'reported version %r', v)
            expect(json.loads(pkgutil.get_data('dedop.ui.data.config', key + '.json').decode()) == d, 'defaults changed')
        return sorted(want['CNF'][0])


@case('C23', 'readable', 3, 6)
def readable(rng, scratch):
    """an upgraded file is accepted by the reader of the current version"""
    from dedop.conf import CharacterisationFile, ConfigurationFile, ConstantsFile
    wd = os.path.join(scratch, 'r')
    shutil.rmtree(wd, ignore_errors=True)
    with guarded(scratch):
        m = WorkspaceManager(wd)
        m.create_workspace('w')
        m.create_config('w', 'c')
        for key, cls in (('CHD', CharacterisationFile), ('CNF', ConfigurationFile), ('CST', ConstantsFile)):
            p = m.get_config_file('w', 'c', key)
            d = json.load(open(p))
            if rng.random() < .8:
                del d[META]
                for ch in json.loads(pkgutil.get_data('dedop.ui.data.config', key + '.json').decode())[META]['changelog']:
                    for prm in ch['parameters']:
                        d.pop(prm[0], None)
                with open(p, 'w') as f:
                    json.dump(d, f)
            m.upgrade_config('w', 'c', key)
            cls(p)
