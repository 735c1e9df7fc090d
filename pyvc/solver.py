"""Discharging obligations: canonical-form identity, then z3 on a linear abstraction, then z3 with
nonlinear arithmetic and function axioms, then cvc5 on the same SMT-LIB text."""
import sys
import time
_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _VT not in sys.path:
    sys.path.append(_VT)
import z3
from fractions import Fraction
from . import terms as tm
from .terms import T, F, At

z3.set_param('smt.random_seed', 0)


class Conv:
    """term/formula -> z3, for one mode ('lin' or 'full')"""

    def __init__(self, mode):
        self.mode = mode
        self.at = {}
        self.tc = {}
        self.fc = {}
        self.ax = {}       # At/monomial -> list of axioms
        self.strs = {}

    def sort(self, s):
        return z3.IntSort() if s == 'Int' else z3.RealSort()

    def term(self, x):
        r = self.tc.get((x, x.sort))
        if r is not None:
            return r
        deps = set()
        real = x.sort != 'Int'
        parts = []
        for m, c in x.p:
            parts.append(self.mono(m, c, real, deps))
        if not parts:
            r = z3.RealVal(0) if real else z3.IntVal(0)
        elif len(parts) == 1:
            r = parts[0]
        else:
            r = z3.Sum(parts)
        self.tc[(x, x.sort)] = (r, frozenset(deps))
        return self.tc[(x, x.sort)]

    def num(self, c, real):
        if real:
            return z3.RealVal(str(c))
        return z3.IntVal(int(c))

    def mono(self, m, c, real, deps):
        if not m:
            return self.num(c, real)
        if self.mode == 'lin' and not (len(m) == 1 and m[0][1] == 1):
            name = 'mono!' + '*'.join('%d^%s' % (a.id, e) for a, e in m)
            allint = all(a.sort == 'Int' and Fraction(e).denominator == 1 and e > 0 for a, e in m)
            v = z3.Const(name, z3.IntSort() if allint else z3.RealSort())
            if len(m) == 1 and (m[0][1] == 2 or m[0][1] == -2):
                deps.add(('sq', name))
                self.ax[('sq', name)] = [v >= 0]
            elif len(m) == 1 and m[0][1] == -1:
                a0, ra = self.atom(m[0][0], deps)
                key = ('rcp', name)
                deps.add(key)
                self.ax[key] = [z3.Implies(a0 > 0, v > 0), z3.Implies(a0 < 0, v < 0)]
            elif len(m) == 2 and m[0][1] == 1 and m[1][1] == 1:
                a0, _ = self.atom(m[0][0], deps)
                b0, _ = self.atom(m[1][0], deps)
                key = ('prod', name)
                deps.add(key)
                if key not in self.ax:
                    self.ax[key] = [
                        z3.Implies(z3.And(a0 > 0, b0 > 0), v > 0), z3.Implies(z3.And(a0 >= 0, b0 >= 0), v >= 0),
                        z3.Implies(z3.And(a0 > 0, b0 < 0), v < 0), z3.Implies(z3.And(a0 < 0, b0 > 0), v < 0),
                        z3.Implies(z3.And(a0 < 0, b0 < 0), v > 0), z3.Implies(a0 == 0, v == 0),
                        z3.Implies(b0 == 0, v == 0), z3.Implies(a0 == 1, v == b0), z3.Implies(b0 == 1, v == a0),
                        z3.Implies(z3.And(a0 >= 1, b0 >= 0), v >= b0), z3.Implies(z3.And(b0 >= 1, a0 >= 0), v >= a0)]
            if real and allint:
                v = z3.ToReal(v)
            return self.num(c, real) * v if c != 1 else v
        r = None
        for a, e in m:
            z, isint = self.atom(a, deps)
            if real and isint:
                z = z3.ToReal(z)
            if e == 1:
                f = z
            elif Fraction(e).denominator == 1 and e > 0:
                f = z
                for _ in range(int(e) - 1):
                    f = f * z
            elif Fraction(e).denominator == 1:
                zz = z
                for _ in range(int(-e) - 1):
                    zz = zz * z
                f = z3.RealVal(1) / zz
            else:
                f = z3.Real('fpow!%d^%s' % (a.id, e))
                key = ('fpow', a, e)
                deps.add(key)
                self.ax[key] = [f > 0]
            r = f if r is None else r * f
        if c != 1:
            r = self.num(c, real) * r
        return r

    def T(self, x, deps):
        r, d = self.term(x)
        deps |= d
        return r

    def R(self, x, deps):
        r = self.T(x, deps)
        return z3.ToReal(r) if z3.is_int(r) else r

    def atom(self, a, deps):
        r = self.at.get(a)
        if r is None:
            d = set()
            z = self._atom(a, d)
            self.at[a] = r = (z, a.sort == 'Int', frozenset(d))
        deps |= r[2]
        return r[0], r[1]

    def _atom(self, a, d):
        if a.kind in ('var', 'bv'):
            z = z3.Const(a.name, self.sort(a.sort))
            if a.name == 'PI':
                d.add(a)
                self.ax[a] = [z > z3.RealVal('3.1415926'), z < z3.RealVal('3.1415927')]
            return z
        if a.kind == 'app':
            args = [self.T(x, d) if isinstance(x, T) else x for x in a.args]
            f = z3.Function(a.name, *([x.sort() for x in args] + [self.sort(a.sort)]))
            return f(*args)
        if a.kind == 'ite':
            c = self.form(a.args[0], d)
            x, y = self.T(a.args[1], d), self.T(a.args[2], d)
            if a.sort == 'Real':
                x = z3.ToReal(x) if z3.is_int(x) else x
                y = z3.ToReal(y) if z3.is_int(y) else y
            return z3.If(c, x, y)
        if a.kind == 'inv':
            z = z3.Real('inv!%d' % a.id)
            p = self.R(a.args[0], d)
            d.add(a)
            self.ax[a] = [z3.Implies(p > 0, z > 0), z3.Implies(p < 0, z < 0)] + \
                ([z3.Implies(p != 0, z * p == 1)] if self.mode == 'full' else [])
            return z
        if a.kind == 'fnl':
            return z3.Const('fnl!%d' % a.id, self.sort(a.sort))
        if a.kind == 'fn':
            n = a.name
            if n == 'idiv':
                x, y = self.T(a.args[0], d), self.T(a.args[1], d)
                if z3.is_int(x) and z3.is_int(y):
                    q = z3.Int('idiv!%d' % a.id)
                    d.add(a)
                    cb = tm.as_const(a.args[1])
                    if cb is not None and cb > 0:
                        self.ax[a] = [q * int(cb) <= x, x < q * int(cb) + int(cb)]
                    elif self.mode == 'full':
                        self.ax[a] = [z3.Implies(y > 0, z3.And(q * y <= x, x < q * y + y))]
                    else:
                        # q*y as the canonical product monomial, so that it meets other occurrences
                        self.at[a] = (q, True, frozenset([a]))
                        prod = self.T(tm.mul(tm.of_atom(a), a.args[1]), d)
                        self.ax[a] = [z3.Implies(z3.And(y > 0, x >= 0), z3.And(q >= 0, q <= x)),
                                      z3.Implies(y > 0, z3.And(prod <= x, x < prod + y))]
                    return q
            args = [self.T(x, d) for x in a.args]
            if n == 'abs':
                x = args[0]
                return z3.If(x >= 0, x, -x)
            args = [z3.ToReal(x) if z3.is_int(x) else x for x in args]
            f = z3.Function('f!' + n, *([z3.RealSort()] * len(args) + [self.sort(a.sort)]))
            z = f(*args)
            d.add(a)
            x = args[0]
            ax = []
            if n == 'sqrt':
                ax = [z3.Implies(x >= 0, z >= 0), z3.Implies(x > 0, z > 0)]
                if self.mode == 'full':
                    ax += [z3.Implies(x >= 0, z * z == x)]
            elif n in ('cos', 'sin'):
                ax = [z <= 1, z >= -1]
            elif n in ('exp', 'pow10'):
                ax = [z > 0]
            elif n == 'acos':
                pi = self.atom(list(tm.atoms_of(tm.PI))[0], d)[0]
                ax = [z >= 0, z <= pi]
            elif n == 'round':
                zr = z3.ToReal(z)
                ax = [2 * (zr - x) <= 1, 2 * (x - zr) <= 1,
                      z3.Implies(2 * (zr - x) == 1, z % 2 == 0), z3.Implies(2 * (x - zr) == 1, z % 2 == 0)]
            elif n == 'trunc':
                zr = z3.ToReal(z)
                ax = [z3.Implies(x >= 0, z3.And(zr <= x, x < zr + 1, zr >= 0)),
                      z3.Implies(x <= 0, z3.And(zr >= x, x > zr - 1, zr <= 0))]
            elif n == 'floor':
                zr = z3.ToReal(z)
                ax = [zr <= x, x < zr + 1]
            self.ax[a] = ax
            return z
        raise TypeError(a.kind)

    def form(self, f, deps):
        if isinstance(f, bool):
            return z3.BoolVal(f)
        r = self.fc.get(f)
        if r is None:
            d = set()
            z = self._form(f, d)
            self.fc[f] = r = (z, frozenset(d))
        deps |= r[1]
        return r[0]

    def _form(self, f, d):
        if f.k == 'le0':
            return self.T(f.a[0], d) <= 0
        if f.k == 'lt0':
            return self.T(f.a[0], d) < 0
        if f.k == 'eq0':
            return self.T(f.a[0], d) == 0
        if f.k == 'not':
            return z3.Not(self.form(f.a[0], d))
        if f.k == 'and':
            return z3.And([self.form(x, d) for x in f.a])
        if f.k == 'or':
            return z3.Or([self.form(x, d) for x in f.a])
        if f.k == 'b':
            if not f.a[1]:
                return z3.Bool('b!' + f.a[0])
            args = [self.T(x, d) for x in f.a[1]]
            fn = z3.Function('b!' + f.a[0], *([x.sort() for x in args] + [z3.BoolSort()]))
            return fn(*args)
        raise TypeError(f.k)

    def axioms(self, deps):
        out = []
        seen = set()
        todo = list(deps)
        while todo:
            k = todo.pop()
            if k in seen:
                continue
            seen.add(k)
            out.extend(self.ax.get(k, ()))
        return out


class Stats:
    def __init__(self):
        self.time = 0.0
        self.queries = 0
        self.by = {}

    def add(self, backend, dt):
        self.queries += 1
        self.time += dt
        self.by[backend] = self.by.get(backend, 0) + 1


class Solver:
    def __init__(self):
        self.lin = Conv('lin')
        self.full = Conv('full')
        self.stats = Stats()
        self.fcache = {}
        self.timeout_feas = 400
        self.timeout_lin = 3000
        self.timeout_full = 8000

    def _mk(self, conv, fs, timeout):
        s = z3.Solver()
        s.set('timeout', timeout)
        deps = set()
        zs = [conv.form(f, deps) for f in fs]
        s.add(*zs)
        s.add(*conv.axioms(deps))
        return s

    def feasible(self, pc, f):
        """False only if pc & f is unsatisfiable"""
        if f is False:
            return False
        key = (tuple(pc), f)
        r = self.fcache.get(key)
        if r is not None:
            return r
        t0 = time.time()
        s = self._mk(self.lin, list(pc) + ([] if f is True else [f]), self.timeout_feas)
        res = s.check()
        self.stats.time += time.time() - t0
        self.stats.queries += 1
        r = res != z3.unsat
        self.fcache[key] = r
        return r

    def sat(self, pc, timeout=3000):
        s = self._mk(self.full, list(pc), timeout)
        return str(s.check())

    def prove(self, pc, goal):
        """returns (status, backend, model) with status proved / refuted / unknown"""
        if goal is True:
            self.stats.add('normal-form', 0.0)
            return 'proved', 'normal-form', None
        if goal is not False and goal in pc:
            self.stats.add('normal-form', 0.0)
            return 'proved', 'normal-form', None
        cl = self.cleared(pc, goal)
        if cl:
            self.stats.add('normal-form', 0.0)
            return 'proved', 'normal-form', None
        ng = tm.Not(goal)
        t0 = time.time()
        s = self._mk(self.lin, list(pc) + ([] if ng is True else [ng]), self.timeout_lin)
        r = s.check()
        self.stats.add('z3-linear', time.time() - t0)
        if r == z3.unsat:
            return 'proved', 'z3-linear', None
        g2 = self.congruent(pc, goal)
        if g2 is not None:
            if g2 is True or self.cleared(pc, g2):
                return 'proved', 'z3-linear', None
            goal, ng = g2, tm.Not(g2)
        t0 = time.time()
        s = self._mk(self.full, list(pc) + ([] if ng is True else [ng]), self.timeout_full)
        r = s.check()
        self.stats.add('z3-full', time.time() - t0)
        if r == z3.unsat:
            return 'proved', 'z3-full', None
        if r == z3.sat:
            return 'refuted', 'z3-full', s.model()
        r2 = self.cvc5(s)
        if r2 == 'unsat':
            return 'proved', 'cvc5', None
        return 'unknown', 'z3-full/cvc5', None

    def congruent(self, pc, goal, limit=40):
        """the goal with function applications unified whose arguments are provably equal under pc; None if there
        are none"""
        if goal is False:
            return None
        groups = {}
        for a in tm.atoms_of(goal):
            if a.kind == 'app' and a.args and all(isinstance(x, tm.T) and x.sort == 'Int' for x in a.args) and \
                    not any(b.kind == 'bv' for x in a.args for b in tm.atoms_of(x)):
                groups.setdefault((a.name, len(a.args)), []).append(a)
        known, mp, n = {}, {}, 0
        for k in sorted(groups):
            g = sorted(groups[k], key=repr)
            for i, a in enumerate(g):
                for b in g[:i]:
                    if b in mp:
                        continue
                    same = True
                    for x, y in zip(a.args, b.args):
                        d = tm.eq(x, y)
                        if d is True:
                            continue
                        if d is False or n > limit:
                            same = False
                            break
                        if d not in known:
                            n += 1
                            known[d] = self._mk(self.lin, list(pc) + [tm.Not(d)], 1500).check() == z3.unsat
                        if not known[d]:
                            same = False
                            break
                    if same:
                        mp[a] = tm.of_atom(b)
                        break
        return tm.subst(goal, mp) if mp else None

    def cleared(self, pc, goal, depth=4):
        """an equation between rational expressions, decided by multiplying out the denominators (each of which
        must be provably nonzero under pc)"""
        if goal is False or goal.k != 'eq0':
            return False
        e = goal.a[0]
        used = []
        for _ in range(depth):
            if not e.p:
                break
            dens = {}
            for mono, c in e.p:
                for a, k in mono:
                    if a.kind == 'inv' and k > 0:
                        dens[a] = max(dens.get(a, 0), k)
            if not dens:
                return False
            a, k = sorted(dens.items(), key=lambda z: repr(z[0]))[0]
            used.append(a.args[0])
            q = a.args[0]
            out = tm.t(0)
            for mono, c in e.p:
                j = dict(mono).get(a, 0)
                rest = tm.T('Real', ((tuple((b, m) for b, m in mono if b is not a), c),))
                for _i in range(k - j):
                    rest = tm.mul(rest, q)
                out = tm.add(out, rest)
            e = out
        if e.p:
            return False
        return all(self._mk(self.full, list(pc) + [tm.eq(q, 0)], 4000).check() == z3.unsat for q in used)

    def cvc5(self, s, timeout=8000):
        import subprocess
        import tempfile
        import os
        t0 = time.time()
        txt = '(set-logic ALL)\n' + s.to_smt2()
        fd, path = tempfile.mkstemp(suffix='.smt2')
        os.write(fd, txt.encode())
        os.close(fd)
        try:
            out = subprocess.run(['cvc5', '--tlimit=%d' % timeout, path], capture_output=True, text=True,
                                 timeout=timeout / 1000 + 5).stdout.strip().splitlines()
            r = out[0] if out else 'unknown'
        except Exception:
            r = 'unknown'
        finally:
            os.unlink(path)
        self.stats.add('cvc5', time.time() - t0)
        return r if r in ('sat', 'unsat') else 'unknown'
