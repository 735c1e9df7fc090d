#!/usr/bin/env python3
"""lab.py: development aid (no check uses it).  Mechanically refactors or mutates a scratch copy of /repo and runs
checks on it in a private mount namespace (the copy is bind-mounted over /repo there only).
  lab.py refactor MODE[,MODE] [file-substring...]   behaviour-preserving edits: checks must stay quiet
  lab.py mutate FILE-SUBSTRING [--n N] [--seed S]   one-token bugs: which survive the checks (and the tests)?
  lab.py seeds ID-PREFIX...                         planted bugs of tools/seedsrc: build, confirm, check
  lab.py dir DIR PROP...                            checks against a copy prepared by hand
"""
import ast, copy, json, os, random, shutil, subprocess, sys, tempfile, re
from concurrent.futures import ThreadPoolExecutor
ROOT = '/tmp/lab'
D = 'dedop/'
FILES = {
 D+'data/input/l1a/l1a_dataset.py': 'C01 C02 C03', D+'data/input/netcdf_reader.py': 'C01 C02', D+'data/input/input_dataset.py': 'C01 C02',
 D+'proc/sar/processor.py': 'C04 C05 C06 C09 C20 C19', D+'proc/sar/algorithms/surface_locations.py': 'C07 C08 C19',
 D+'proc/sar/algorithms/beam_angles.py': 'C09', D+'proc/sar/algorithms/stack_gathering.py': 'C10',
 D+'proc/sar/algorithms/azimuth_processing.py': 'C11', D+'proc/sar/algorithms/geometry_corrections.py': 'C12',
 D+'proc/sar/algorithms/range_compression.py': 'C13', D+'proc/sar/algorithms/stack_masking.py': 'C14',
 D+'proc/sar/algorithms/multilooking.py': 'C15', D+'proc/sar/algorithms/sigma_zero_scaling.py': 'C16',
 D+'proc/sar/cal/cal1_algorithm.py': 'C17', D+'proc/sar/cal/cal2_algorithm.py': 'C17',
 D+'proc/geo/lla2ecef.py': 'C18', D+'proc/geo/ecef2lla.py': 'C18', D+'proc/geo/normalize.py': 'C18',
 D+'proc/functions/vectors.py': 'C09 C03', D+'util/time.py': 'C19',
 D+'data/output/netcdf_writer.py': 'C20 C19 C05', D+'data/output/l1b_writer.py': 'C20 C19', D+'data/output/l1bs_writer.py': 'C20 C19',
 D+'conf/auxiliary_file_reader.py': 'C21', D+'conf/auxiliary_parameter.py': 'C21', D+'conf/configuration.py': 'C21 C23', D+'conf/characterization.py': 'C21',
 D+'conf/constants.py': 'C21', D+'conf/auxiliary_errors.py': 'C21',
 D+'util/parameter.py': 'C22', D+'proc/sar/base_algorithm.py': 'C22', D+'util/config.py': 'C29',
 D+'ui/workspace_manager.py': 'C23 C24 C25 C28', D+'cli/main.py': 'C28 C27', D+'util/monitor.py': 'C26',
 D+'model/l1a_processing_data.py': 'C03 C04 C07 C09', D+'model/surface_data.py': 'C07 C08 C10 C20', D+'model/processor.py': 'C06',
}


def copy_repo(name):
    d = os.path.join(ROOT, name)
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d + '/ev')
    subprocess.run(['cp', '-a', '/repo', d + '/repo'], check=True)
    subprocess.run(['git', '-C', d + '/repo', 'checkout', '-q', '--', '.'], check=True)
    return d


def inns(d, cmd, timeout=900):
    s = 'mount --bind %s/repo /repo && mount --bind %s/ev /verif/evidence && cd /verif && %s' % (d, d, cmd)
    try:
        r = subprocess.run(['unshare', '-Urm', 'bash', '-c', s], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 99, 'TIMEOUT'


def check(d, p):
    return inns(d, 'VERIF_SEED=1 VERIF_TIER=quick ./check.py ' + p)


def tests(d):
    rc, out = inns(d, 'bash /opt/vp/test.sh %s/t.json' % d)
    try: t = json.load(open(d + '/t.json'))
    except Exception: return ['no result']
    st = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    return sorted(st - set(t['passed']))


def summ(p, rc, out):
    und = re.findall(r'\((\d+) undecided', out)
    L = [l for l in out.splitlines() if 'VIOLATION' in l or 'undecided' in l.lower() and 'obligations' not in l or 'Error' in l]
    tail = out.strip().splitlines()[-1] if out.strip() else ''
    return '%s rc=%s %s | %s' % (p, rc, tail[:120], ' ;; '.join(l[:160] for l in L[:4]))


# ---------------------------------------------------------------- refactorings
class FnEdit(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        return self.fn(n) or n

    def fn(self, n): return None


class Rename(FnEdit):
    """alpha-rename every local variable (not parameters)"""
    def fn(self, n):
        if any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.Global, ast.Nonlocal, ast.ClassDef)) and x is not n for x in ast.walk(n)): return
        loc = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        a = n.args
        loc -= {x.arg for x in a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else [])}
        loc -= {'__class__'}
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id in loc: x.id = x.id + '_rn'
            if isinstance(x, ast.ExceptHandler) and x.name in loc: x.name += '_rn'


class Wrap(FnEdit):
    """extract the body of every method into a helper `_impl_<name>`"""
    def visit_ClassDef(self, c):
        out = []
        for n in c.body:
            if isinstance(n, ast.FunctionDef) and not n.decorator_list and n.name != '__init__' and (n.name == '__call__' or not n.name.startswith('__')) and not n.args.vararg and not n.args.kwarg \
               and not n.args.kwonlyargs and n.args.args and n.args.args[0].arg == 'self' \
               and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(n)) \
               and not any(isinstance(x, ast.Name) and x.id == 'super' for x in ast.walk(n)):
                h = copy.deepcopy(n); h.name = '_impl_' + n.name.replace('__', ''); h.args.defaults = []
                doc = n.body[:1] if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else []
                if doc: h.body = h.body[1:] or [ast.Pass()]
                n.body = doc + [ast.Return(ast.Call(ast.Attribute(ast.Name('self', ast.Load()), h.name, ast.Load()),
                          [ast.Name(x.arg, ast.Load()) for x in n.args.args[1:]], []))]
                out += [n, h]
            else: out.append(n)
        c.body = out
        return c


class IfSwap(ast.NodeTransformer):
    """if c: A else: B  ->  if not c: B else: A"""
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        return ast.IfExp(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)


class CmpFlip(ast.NodeTransformer):
    M = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.M:
            return ast.Compare(n.comparators[0], [self.M[type(n.ops[0])]()], [n.left])
        return n


class Temps(FnEdit):
    """x = f(a + b)  ->  t = a + b; x = f(t)   (arguments of the outermost call / operands of the outermost operator)"""
    def fn(self, n):
        self.k = 0
        n.body = self.block(n.body)

    def block(self, b):
        out = []
        for s in b:
            for f in ('body', 'orelse', 'finalbody'):
                if isinstance(getattr(s, f, None), list) and not isinstance(s, (ast.FunctionDef, ast.ClassDef)): setattr(s, f, self.block(getattr(s, f)))
            if isinstance(s, ast.Try):
                for h in s.handlers: h.body = self.block(h.body)
            if isinstance(s, (ast.Assign, ast.Return, ast.AugAssign)) and s.value is not None:
                v = s.value
                def tmp(e):
                    if isinstance(e, (ast.Constant, ast.Name, ast.Starred, ast.Lambda)): return e
                    self.k += 1; nm = 'tmp_%d' % self.k
                    out.append(ast.Assign([ast.Name(nm, ast.Store())], e)); return ast.Name(nm, ast.Load())
                if isinstance(v, ast.BinOp): v.left = tmp(v.left); v.right = tmp(v.right)
                elif isinstance(v, ast.Call):
                    v.args = [tmp(a) for a in v.args]
                    for kw in v.keywords: kw.value = tmp(kw.value)
                if isinstance(s, ast.Return): s.value = tmp(v)
            out.append(s)
        return out


class Enum(FnEdit):
    """for x in it: -> for i, x in enumerate(it):"""
    def fn(self, n):
        k = [0]
        for s in ast.walk(n):
            if isinstance(s, ast.For) and isinstance(s.target, ast.Name):
                k[0] += 1
                s.iter = ast.Call(ast.Name('enumerate', ast.Load()), [s.iter], [])
                s.target = ast.Tuple([ast.Name('idx_%d' % k[0], ast.Store()), s.target], ast.Store())


class ForWhile(FnEdit):
    """for i in range(n): B -> i_ = 0; while i_ < n: i = i_; i_ += 1; B"""
    def fn(self, n):
        self.k = 0
        n.body = self.block(n.body)

    def block(self, b):
        out = []
        for s in b:
            for f in ('body', 'orelse', 'finalbody'):
                if isinstance(getattr(s, f, None), list) and not isinstance(s, (ast.FunctionDef, ast.ClassDef)): setattr(s, f, self.block(getattr(s, f)))
            if isinstance(s, ast.For) and isinstance(s.target, ast.Name) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) \
               and s.iter.func.id == 'range' and len(s.iter.args) == 1 and not s.orelse:
                self.k += 1; c = 'cnt_%d' % self.k; e = 'end_%d' % self.k
                N = lambda x, c=ast.Load: ast.Name(x, c())
                out += [ast.Assign([N(c, ast.Store)], ast.Constant(0)), ast.Assign([N(e, ast.Store)], s.iter.args[0]),
                        ast.While(ast.Compare(N(c), [ast.Lt()], [N(e)]),
                                  [ast.Assign([s.target], N(c)), ast.AugAssign(N(c, ast.Store), ast.Add(), ast.Constant(1))] + s.body, [])]
            else: out.append(s)
        return out


class CompLoop(FnEdit):
    """x = [e for v in it if c]  ->  explicit loop with append"""
    def fn(self, n):
        self.k = 0
        n.body = self.block(n.body)

    def block(self, b):
        out = []
        for s in b:
            for f in ('body', 'orelse', 'finalbody'):
                if isinstance(getattr(s, f, None), list) and not isinstance(s, (ast.FunctionDef, ast.ClassDef)): setattr(s, f, self.block(getattr(s, f)))
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.ListComp) and len(s.value.generators) == 1:
                self.k += 1; nm = 'acc_%d' % self.k; g = s.value.generators[0]
                body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(nm, ast.Load()), 'append', ast.Load()), [s.value.elt], []))]
                for c in reversed(g.ifs): body = [ast.If(c, body, [])]
                out += [ast.Assign([ast.Name(nm, ast.Store())], ast.List([], ast.Load())), ast.For(g.target, g.iter, body, [])]
                s.value = ast.Name(nm, ast.Load())
            out.append(s)
        return out


class AugSplit(ast.NodeTransformer):
    """x += e -> x = x + e   for plain names and self attributes"""
    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Name) or isinstance(n.target, ast.Attribute):
            t = copy.deepcopy(n.target); t.ctx = ast.Load()
            return ast.Assign([n.target], ast.BinOp(t, n.op, n.value))
        return n


class Noop(FnEdit):
    def fn(self, n):
        i = 1 if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else 0
        n.body[i:i] = ast.parse('_unused = 0\nif _unused: pass').body


class EarlyRet(FnEdit):
    """f(): ...; if c: A   (last statement, no else, value-less) -> if not c: return; A"""
    def fn(self, n):
        s = n.body[-1]
        if isinstance(s, ast.If) and not s.orelse and not any(isinstance(x, ast.Return) and x.value for x in ast.walk(n)) \
           and not any(isinstance(x, (ast.Yield,)) for x in ast.walk(n)):
            n.body[-1:] = [ast.If(ast.UnaryOp(ast.Not(), s.test), [ast.Return(None)], [])] + s.body


class MulComm(ast.NodeTransformer):
    """a * b -> b * a for number-like operands"""
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mult) and not any(isinstance(x, (ast.List, ast.Constant, ast.Tuple, ast.JoinedStr)) and not (isinstance(x, ast.Constant) and isinstance(x.value, (int, float, complex))) for x in (n.left, n.right)):
            n.left, n.right = n.right, n.left
        return n


class SelfAlias(FnEdit):
    """cache self.cnf / self.chd / self.cst in a local at the top of the method"""
    def fn(self, n):
        if n.name == '__init__' or not n.args.args or n.args.args[0].arg != 'self': return
        for a in ('cnf', 'chd', 'cst'):
            hit = [x for x in ast.walk(n) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == 'self' and x.attr == a]
            if not hit or any(isinstance(x.ctx, ast.Store) for x in hit): continue
            class R(ast.NodeTransformer):
                def visit_Attribute(s, x):
                    s.generic_visit(x)
                    if isinstance(x.value, ast.Name) and x.value.id == 'self' and x.attr == a: return ast.Name(a + '_loc', ast.Load())
                    return x
            b = [R().visit(x) for x in n.body]
            i = 1 if isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) else 0
            b[i:i] = ast.parse('%s_loc = self.%s' % (a, a)).body
            n.body = b


class Cond(FnEdit):
    """if c: -> cond = c; if cond:   (never elif)"""
    def fn(self, n):
        self.k = 0
        n.body = self.block(n.body)

    def block(self, b):
        out = []
        for s in b:
            for f in ('body', 'orelse', 'finalbody'):
                x = getattr(s, f, None)
                if isinstance(x, list) and not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    if f == 'orelse' and isinstance(s, ast.If) and len(x) == 1 and isinstance(x[0], ast.If): continue
                    setattr(s, f, self.block(x))
            if isinstance(s, ast.Try):
                for h in s.handlers: h.body = self.block(h.body)
            if isinstance(s, ast.If):
                self.k += 1; nm = 'cond_%d' % self.k
                out.append(ast.Assign([ast.Name(nm, ast.Store())], s.test)); s.test = ast.Name(nm, ast.Load())
            out.append(s)
        return out


PURE = {'sqrt', 'cos', 'sin', 'acos', 'asin', 'abs', 'len', 'array', 'asarray', 'norm', 'dot', 'zeros', 'ones', 'empty', 'arange', 'exp', 'float', 'int', 'max', 'min', 'log10'}


def pure(e):
    for x in ast.walk(e):
        if isinstance(x, ast.Call):
            f = x.func
            if not ((isinstance(f, ast.Name) and f.id in PURE) or (isinstance(f, ast.Attribute) and f.attr in PURE)): return False
        elif isinstance(x, (ast.Yield, ast.Await, ast.NamedExpr, ast.Lambda, ast.ListComp, ast.DictComp, ast.SetComp, ast.GeneratorExp)): return False
    return True


class Swap(FnEdit):
    """swap adjacent independent assignments with pure right-hand sides"""
    def fn(self, n):
        for s in ast.walk(n):
            for f in ('body', 'orelse'):
                b = getattr(s, f, None)
                if isinstance(b, list) and not isinstance(s, ast.ClassDef): self.block(b)

    def block(self, b):
        i = 0
        while i + 1 < len(b):
            p, q = b[i], b[i + 1]
            if self.ok(p) and self.ok(q):
                tp, tq = ast.unparse(p.targets[0]), ast.unparse(q.targets[0])
                if tp != tq and tp not in ast.unparse(q) and tq not in ast.unparse(p):
                    b[i], b[i + 1] = q, p; i += 1
            i += 1

    def ok(self, s):
        return isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], (ast.Name, ast.Attribute)) and pure(s.value) \
            and (isinstance(s.targets[0], ast.Name) or isinstance(s.targets[0].value, ast.Name))


class WhileTrue(ast.NodeTransformer):
    def visit_While(self, n):
        self.generic_visit(n)
        if n.orelse or (isinstance(n.test, ast.Constant)): return n
        return ast.While(ast.Constant(True), [ast.If(ast.UnaryOp(ast.Not(), n.test), [ast.Break()], [])] + n.body, [])


class RangeIdx(FnEdit):
    """for x in xs (plain name/attribute) -> for i in range(len(xs)): x = xs[i]; only where xs[...] is indexable by name heuristics"""
    def fn(self, n):
        k = 0
        for s in ast.walk(n):
            if isinstance(s, ast.For) and isinstance(s.iter, (ast.Name, ast.Attribute)) and isinstance(s.target, ast.Name) \
                    and re.search(r'(surfaces|packets|bursts|beams|angles|lists?|names|lines)$', ast.unparse(s.iter)):
                k += 1; i = 'ix_%d' % k
                s.body.insert(0, ast.Assign([s.target], ast.Subscript(copy.deepcopy(s.iter), ast.Name(i, ast.Load()), ast.Load())))
                s.iter = ast.Call(ast.Name('range', ast.Load()), [ast.Call(ast.Name('len', ast.Load()), [s.iter], [])], [])
                s.target = ast.Name(i, ast.Store())


class Inline(FnEdit):
    """x = e (pure); next statement uses x exactly once and nothing later does -> inline"""
    def fn(self, n):
        for s in ast.walk(n):
            for f in ('body', 'orelse'):
                b = getattr(s, f, None)
                if not isinstance(b, list) or isinstance(s, ast.ClassDef): continue
                i = 0
                while i + 1 < len(b):
                    p, q = b[i], b[i + 1]
                    if isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name) and pure(p.value) and isinstance(q, (ast.Assign, ast.Return)):
                        x = p.targets[0].id
                        uses = [y for y in ast.walk(n) if isinstance(y, ast.Name) and y.id == x]
                        here = [y for y in ast.walk(q) if isinstance(y, ast.Name) and y.id == x and isinstance(y.ctx, ast.Load)]
                        if len(uses) == 2 and len(here) == 1 and not any(isinstance(y, (ast.ListComp, ast.Lambda, ast.DictComp, ast.GeneratorExp)) for y in ast.walk(q)):
                            class R(ast.NodeTransformer):
                                def visit_Name(self, y): return p.value if y is here[0] else y
                            b[i + 1] = R().visit(q); del b[i]; continue
                    i += 1


def method_ok(n):
    return isinstance(n, ast.FunctionDef) and not n.decorator_list and n.args.args and n.args.args[0].arg == 'self' and not n.args.vararg and not n.args.kwarg \
        and not any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Lambda, ast.Global, ast.Nonlocal, ast.Try, ast.With)) for x in ast.walk(n)) \
        and not any(isinstance(x, ast.FunctionDef) and x is not n for x in ast.walk(n)) \
        and not any(isinstance(x, ast.Name) and x.id in ('super', 'locals') for x in ast.walk(n))


def localnames(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | {a.arg for a in n.args.args + n.args.kwonlyargs}


class ExtractBlk(ast.NodeTransformer):
    """bodies of ifs and loops without local assignments or jumps become helper methods"""
    def visit_ClassDef(self, c):
        new = []
        for n in c.body:
            if not method_ok(n): continue
            loc = localnames(n)
            for s in ast.walk(n):
                if isinstance(s, (ast.If, ast.For)) :
                    for f in (('body', 'orelse') if isinstance(s, ast.If) else ('body',)):
                        b = getattr(s, f)
                        if not b or (f == 'orelse' and isinstance(b[0], ast.If)): continue
                        inner = [x for t in b for x in ast.walk(t)]
                        if any(isinstance(x, (ast.Return, ast.Break, ast.Continue, ast.Raise, ast.ListComp, ast.DictComp, ast.GeneratorExp, ast.SetComp, ast.Delete)) for x in inner): continue
                        if any(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) for x in inner): continue
                        if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr.startswith('_hb_') for x in inner): continue
                        fr = sorted({x.id for x in inner if isinstance(x, ast.Name)} & loc - {'self'})
                        nm = '_hb_%s_%d' % (n.name.strip('_'), len(new))
                        new.append(ast.FunctionDef(nm, ast.arguments([], [ast.arg(a) for a in ['self'] + fr], None, [], [], None, []), b, [], None))
                        setattr(s, f, [ast.Expr(ast.Call(ast.Attribute(ast.Name('self', ast.Load()), nm, ast.Load()), [ast.Name(a, ast.Load()) for a in fr], []))])
        c.body += new
        return c


class ExtractExpr(ast.NodeTransformer):
    """right-hand sides (operators and calls) become helper methods"""
    def visit_ClassDef(self, c):
        new = []
        for n in c.body:
            if not method_ok(n): continue
            loc = localnames(n)
            for s in ast.walk(n):
                if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, (ast.BinOp, ast.Call)):
                    v = s.value
                    if any(isinstance(x, (ast.ListComp, ast.DictComp, ast.GeneratorExp, ast.SetComp, ast.Starred, ast.NamedExpr)) for x in ast.walk(v)): continue
                    fr = sorted({x.id for x in ast.walk(v) if isinstance(x, ast.Name)} & loc - {'self'})
                    nm = '_he_%s_%d' % (n.name.strip('_'), len(new))
                    new.append(ast.FunctionDef(nm, ast.arguments([], [ast.arg(a) for a in ['self'] + fr], None, [], [], None, []), [ast.Return(v)], [], None))
                    s.value = ast.Call(ast.Attribute(ast.Name('self', ast.Load()), nm, ast.Load()), [ast.Name(a, ast.Load()) for a in fr], [])
        c.body += new
        return c


class Guard(ast.NodeTransformer):
    """for/while: last statement `if c: B` without else -> if not c: continue; B"""
    def loop(self, n):
        self.generic_visit(n)
        s = n.body[-1]
        if isinstance(s, ast.If) and not s.orelse:
            n.body[-1:] = [ast.If(ast.UnaryOp(ast.Not(), s.test), [ast.Continue()], [])] + s.body
        return n
    visit_For = visit_While = loop


class Square(ast.NodeTransformer):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Pow) and isinstance(n.right, ast.Constant) and n.right.value in (2, 2.0) and isinstance(n.left, (ast.Name, ast.Attribute)):
            return ast.BinOp(n.left, ast.Mult(), copy.deepcopy(n.left))
        return n


class Ternary(ast.NodeTransformer):
    """if c: x = a else: x = b  <->  x = a if c else b"""
    def visit_If(self, n):
        self.generic_visit(n)
        if len(n.body) == len(n.orelse) == 1 and all(isinstance(s, ast.Assign) and len(s.targets) == 1 for s in (n.body[0], n.orelse[0])) \
                and ast.unparse(n.body[0].targets[0]) == ast.unparse(n.orelse[0].targets[0]):
            return ast.Assign(n.body[0].targets, ast.IfExp(n.test, n.body[0].value, n.orelse[0].value))
        return n

    def visit_Assign(self, n):
        if isinstance(n.value, ast.IfExp):
            v = n.value
            return ast.If(v.test, [ast.Assign(n.targets, v.body)], [ast.Assign(copy.deepcopy(n.targets), v.orelse)])
        return n

    def visit_Return(self, n):
        if isinstance(n.value, ast.IfExp):
            v = n.value
            return [ast.If(v.test, [ast.Return(v.body)], []), ast.Return(v.orelse)]
        return n


class Keyword(ast.NodeTransformer):
    """self.m(a, b) -> self.m(x=a, y=b) for methods of the same class"""
    def visit_ClassDef(self, c):
        sig = {n.name: [a.arg for a in n.args.args[1:]] for n in c.body if isinstance(n, ast.FunctionDef) and not n.decorator_list and not n.args.vararg}
        for x in ast.walk(c):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == 'self' \
                    and x.func.attr in sig and not any(isinstance(a, ast.Starred) for a in x.args) and len(x.args) <= len(sig[x.func.attr]):
                x.keywords = [ast.keyword(k, a) for k, a in zip(sig[x.func.attr], x.args)] + x.keywords; x.args = []
        return c


class AndSplit(ast.NodeTransformer):
    """if a and b: B  (no else) -> if a: if b: B"""
    def visit_If(self, n):
        self.generic_visit(n)
        if not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And):
            b = n.body
            for v in reversed(n.test.values): b = [ast.If(v, b, [])]
            return b[0]
        return n


MODES = dict(cond=Cond, swap=Swap, whiletrue=WhileTrue, rangeidx=RangeIdx, inline=Inline, extblk=ExtractBlk, extexpr=ExtractExpr, guard=Guard, square=Square,
             ternary=Ternary, keyword=Keyword, andsplit=AndSplit, rename=Rename, wrap=Wrap, ifswap=IfSwap, cmpflip=CmpFlip, temps=Temps, enum=Enum, forwhile=ForWhile, comploop=CompLoop,
             augsplit=AugSplit, noop=Noop, early=EarlyRet, mulcomm=MulComm, alias=SelfAlias)


def write(path, tree):
    ast.fix_missing_locations(tree)
    open(path, 'w').write(ast.unparse(tree) + '\n')


def refactor(modes, subs, jobs):
    out = []
    def one(job):
        mode, f = job
        name = 'rf_%s_%s' % (mode, f.replace('/', '_'))
        d = copy_repo(name); p = os.path.join(d, 'repo', f)
        src = open(p).read(); t = ast.parse(src); a = ast.unparse(t)
        for m in mode.split('+'): t = MODES[m]().visit(t)
        ast.fix_missing_locations(t)
        if ast.unparse(t) == a: shutil.rmtree(d); return
        write(p, t)
        bad = tests(d) if '--tests' in sys.argv else []
        for pr in FILES[f].split():
            rc, o = check(d, pr)
            print('%-9s %-60s %s%s' % (mode, f, 'TESTS-FAIL %s ' % bad[:2] if bad else '', summ(pr, rc, o)), flush=True)
        shutil.rmtree(d)
    js = [(m, f) for m in modes for f in FILES if not subs or any(s in f for s in subs)]
    with ThreadPoolExecutor(jobs) as ex: list(ex.map(one, js))


# ---------------------------------------------------------------- mutations
CMP = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt, ast.Lt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.FloorDiv: [ast.Div], ast.Mod: [ast.FloorDiv], ast.Pow: [ast.Mult]}
FUN = {'sin': 'cos', 'cos': 'sin', 'max': 'min', 'min': 'max', 'argmin': 'argmax', 'zeros': 'ones', 'any': 'all', 'all': 'any', 'fftshift': 'ifftshift', 'ifftshift': 'fftshift',
       'fft': 'ifft', 'ifft': 'fft', 'floor': 'ceil', 'append': 'insert0', 'abs': 'real', 'popleft': 'pop', 'degrees': 'radians', 'radians': 'degrees'}


def points(tree):
    """yield (description, apply) for every mutation point"""
    res = []
    fns = [n for n in ast.walk(tree) if isinstance(n, ast.FunctionDef)]
    seen = set()
    for fn in fns:
        for n in ast.walk(fn):
            if id(n) in seen: continue
            seen.add(id(n))
            L = '%s:%s' % (fn.name, getattr(n, 'lineno', 0))
            if isinstance(n, ast.Compare):
                for i, o in enumerate(n.ops):
                    for c in CMP.get(type(o), []): res.append((L, 'cmp %s->%s' % (type(o).__name__, c.__name__), n, ('ops', i, c)))
            elif isinstance(n, ast.BinOp):
                for c in BIN.get(type(n.op), []): res.append((L, 'bin %s->%s' % (type(n.op).__name__, c.__name__), n, ('op', c)))
            elif isinstance(n, ast.AugAssign):
                for c in BIN.get(type(n.op), []): res.append((L, 'aug', n, ('op', c)))
            elif isinstance(n, ast.BoolOp): res.append((L, 'boolop', n, ('op', ast.Or if isinstance(n.op, ast.And) else ast.And)))
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)): res.append((L, 'dropunary', n, ('unary',)))
            elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                res.append((L, 'const %r+1' % n.value, n, ('const', n.value + 1)))
                if n.value: res.append((L, 'const %r-1' % n.value, n, ('const', n.value - 1)))
            elif isinstance(n, ast.Constant) and isinstance(n.value, bool): res.append((L, 'bool', n, ('const', not n.value)))
            elif isinstance(n, ast.If): res.append((L, 'if True', n, ('test', True))); res.append((L, 'if False', n, ('test', False)))
            elif isinstance(n, ast.Call) and isinstance(n.func, (ast.Attribute, ast.Name)):
                nm = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id
                if nm in FUN and FUN[nm] != 'insert0': res.append((L, '%s->%s' % (nm, FUN[nm]), n, ('fun', FUN[nm])))
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load): res.append((L, 'attr?', n, ('attr',)))
            elif isinstance(n, ast.Slice) : 
                if n.lower is not None: res.append((L, 'slice lower dropped', n, ('lower',)))
                if n.upper is not None: res.append((L, 'slice upper dropped', n, ('upper',)))
            if isinstance(getattr(n, 'body', None), list):
                for fld in ('body', 'orelse'):
                    b = getattr(n, fld, None)
                    if isinstance(b, list):
                        for i, s in enumerate(b):
                            if isinstance(s, (ast.Assign, ast.AugAssign)) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
                                res.append(('%s:%s' % (fn.name, s.lineno), 'delete stmt', n, ('del', fld, i)))
                            if i and isinstance(s, (ast.Assign, ast.AugAssign)) and isinstance(b[i-1], (ast.Assign, ast.AugAssign)):
                                pass
    return res


def apply(n, op, rng, names):
    k = op[0]
    if k == 'ops': n.ops[op[1]] = op[2]()
    elif k == 'op': n.op = op[1]()
    elif k == 'unary': n.op = ast.UAdd() if isinstance(n.op, ast.USub) else ast.Not(); n.operand = n.operand if isinstance(n.op, ast.UAdd) else ast.UnaryOp(ast.Not(), n.operand)
    elif k == 'const': n.value = op[1]
    elif k == 'test': n.test = ast.Constant(op[1])
    elif k == 'fun':
        if isinstance(n.func, ast.Attribute): n.func.attr = op[1]
        else: n.func.id = op[1]
    elif k == 'attr':
        c = [x for x in names if x != n.attr and close(x, n.attr)]
        if not c: return False
        n.attr = rng.choice(c)
    elif k in ('lower', 'upper'): setattr(n, k, None)
    elif k == 'del': getattr(n, op[1])[op[2]] = ast.Pass()
    return True


def close(a, b):
    import difflib
    return difflib.SequenceMatcher(None, a, b).ratio() > .72


def mutate(sub, N, seed, jobs):
    files = [f for f in FILES if sub in f]
    allj = []
    for f in files:
        tree = ast.parse(open('/repo/' + f).read())
        allj += [(f, i) for i in range(len(points(tree)))]
    rng = random.Random(seed); rng.shuffle(allj); allj = allj[:N]
    def one(job):
        f, i = job
        src = open('/repo/' + f).read(); tree = ast.parse(src); base = ast.unparse(tree)
        names = sorted({x.attr for x in ast.walk(tree) if isinstance(x, ast.Attribute)})
        L, desc, n, op = points(tree)[i]
        if not apply(n, op, random.Random(i), names): return
        ast.fix_missing_locations(tree)
        new = ast.unparse(tree)
        if new == base: return
        d = copy_repo('mu_%s_%d' % (f.replace('/', '_'), i))
        open(os.path.join(d, 'repo', f), 'w').write(new + '\n')
        import difflib
        diff = [l for l in difflib.unified_diff(base.splitlines(), new.splitlines(), lineterm='', n=0) if l[:1] in '+-' and l[:3] not in ('+++', '---')]
        caught = None
        for pr in FILES[f].split():
            rc, o = check(d, pr)
            if rc == 1: caught = (pr, 'nofail' if 'no-failing-input' in o else 'input'); break
            if rc not in (0, 1): caught = (pr, 'RC%s' % rc, o[-300:])
        if caught is None:
            t = tests(d)
            print('%s %-40s %s %s\n     %s' % ('SURVIVED' if not t else 'tests-kill', L, desc, f.split('/')[-1], '\n     '.join(x[:150] for x in diff[:4])), flush=True)
        else: print('caught %s %-30s %s %s' % (caught, L, desc, diff[0][:90] if caught[1] == 'nofail' else ''), flush=True)
        shutil.rmtree(d)
    with ThreadPoolExecutor(jobs) as ex: list(ex.map(one, allj))


# ---------------------------------------------------------------- planted bugs
def seed(s):
    import mkseed
    name = s['id']
    d = copy_repo('seed_' + name)
    out = d + '/seeded'; os.makedirs(out)
    open(out + '/demo.py', 'w').write(mkseed.LIB + '\n' + s.get('demo', ''))
    open(out + '/demo.sh', 'w').write(mkseed.DEMO_SH); os.chmod(out + '/demo.sh', 0o755)
    json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(out + '/meta.json', 'w'), indent=1)
    try:
        if 'demo' in s:
            rc, o = inns(d, 'cd /repo && timeout 300 bash %s/demo.sh' % out)
            if rc: return 'demo fails on the clean tree: ' + o[-600:]
        for f, old, new in s['edits']:
            p = os.path.join(d, 'repo', f); b = open(p, 'rb').read()
            crlf = b.count(b'\r\n') > b.count(b'\n') / 2
            o, n = old.encode(), new.encode()
            if crlf: o, n = o.replace(b'\n', b'\r\n'), n.replace(b'\n', b'\r\n')
            if b.count(o) != 1: return 'edit matches %d times: %s' % (b.count(o), old)
            open(p, 'wb').write(b.replace(o, n))
        open(out + '/patch.diff', 'wb').write(subprocess.run(['git', '-C', d + '/repo', 'diff'], stdout=subprocess.PIPE).stdout)
        msg = ''
        if 'demo' in s:
            rc, o = inns(d, 'cd /repo && timeout 300 bash %s/demo.sh' % out)
            if rc == 0: return 'demo passes with the patch'
            msg = o.strip().splitlines()[-1][:150] if o.strip() else ''
        t = tests(d)
        rc, o = check(d, s['property'])
        r = summ(s['property'], rc, o)
        if t: return 'stable tests fail: %s; %s' % (t[:4], r)
        if 'demo' in s:
            dst = os.path.join(mkseed.SEEDED, name)
            shutil.rmtree(dst, ignore_errors=True); shutil.copytree(out, dst)
            res = json.load(open(ROOT + '/catch.json')) if os.path.exists(ROOT + '/catch.json') else {}
            res[name] = [s['property'], rc, 'no input' if 'no-failing-input' in o else 'input', s['needs']]
            json.dump(res, open(ROOT + '/catch.json', 'w'), indent=1)
        return '%s %s (demo: %s)' % ('OK    ' if rc == 1 else 'MISSED', r, msg)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def seeds(want, jobs):
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import mkseed
    L = [s for i, s in mkseed.load().items() if any(i.startswith(w) for w in want)]
    with ThreadPoolExecutor(jobs) as ex:
        for s, r in zip(L, ex.map(seed, L)): print(s['id'], r, flush=True)


if __name__ == '__main__':
    os.makedirs(ROOT, exist_ok=True)
    a = [x for x in sys.argv[1:] if not x.startswith('--')]
    opt = dict(x[2:].split('=') for x in sys.argv[1:] if x.startswith('--') and '=' in x)
    jobs = int(opt.get('jobs', 4))
    if a[0] == 'refactor': refactor(a[1].split(',') if a[1] != 'all' else list(MODES), a[2:], jobs)
    elif a[0] == 'mutate': mutate(a[1], int(opt.get('n', 20)), int(opt.get('seed', 0)), jobs)
    elif a[0] == 'seeds': seeds(a[1:], jobs)
    elif a[0] == 'dir':
        d = ROOT + '/dir_' + str(os.getpid()); os.makedirs(d + '/ev', exist_ok=True)
        if not os.path.islink(d + '/repo'): os.symlink(os.path.abspath(a[1]), d + '/repo')
        for p in a[2:]: print(summ(p, *check(d, p)))
