"""Abstract interpreter for the Python source of infi.asi.

The program is never executed: its syntax trees are evaluated over the
abstract values of num.py / values.py.  Branches whose outcome the abstract
state does not determine are partitioned (trace partitioning): every
alternative is explored, by deterministic replay of decision prefixes.
No constraint solver is involved; infeasible alternatives are pruned only by
interval, finite-domain and recorded-fact reasoning.
"""
import ast
import time
import os
import re
import string
import sys
import symtable

from .values import *

sys.setrecursionlimit(40000)

MAXENUM = 1 << 17


class FuncInfo(object):
    """Static scope facts of a function/lambda/comprehension/class body."""

    def __init__(self, node):
        self.locals, self.globals, self.nonlocals = set(), set(), set()
        self.is_gen = False
        self.bare_except = False
        if isinstance(node, (ast.FunctionDef, ast.Lambda)):
            a = node.args
            for x in a.posonlyargs + a.args + a.kwonlyargs:
                self.locals.add(x.arg)
            for x in (a.vararg, a.kwarg):
                if x:
                    self.locals.add(x.arg)
            body = node.body if isinstance(node.body, list) else [node.body]
        elif isinstance(node, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            body = [node.elt] if hasattr(node, 'elt') else [node.key, node.value]
            for g in node.generators:
                body += [g.target] + g.ifs
            body += [g.iter for g in node.generators[1:]]
        else:
            body = node.body
        for s in body:
            self.walk(s)
        self.locals -= self.globals | self.nonlocals

    def walk(self, n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            self.locals.add(n.name)
            for d in n.decorator_list:
                self.walk(d)
            if isinstance(n, ast.ClassDef):
                for b in n.bases:
                    self.walk(b)
            else:
                for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
                    self.walk(d)
            return
        if isinstance(n, ast.Lambda):
            for d in n.args.defaults:
                self.walk(d)
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            self.walk(n.generators[0].iter)
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            self.is_gen = True
        if isinstance(n, ast.Global):
            self.globals.update(n.names)
        if isinstance(n, ast.Nonlocal):
            self.nonlocals.update(n.names)
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            self.locals.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            self.locals.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                self.locals.add((al.asname or al.name).split('.')[0])
        for c in ast.iter_child_nodes(n):
            self.walk(c)


class Frame(object):
    __slots__ = ('module', 'locals', 'parent', 'info', 'func', 'kind', 'line', 'exc')

    def __init__(self, module, locs, parent, info, func, kind):
        self.module, self.locals, self.parent, self.info, self.func, self.kind = module, locs, parent, info, func, kind
        self.line = 0
        self.exc = []


class ValueNode(ast.AST):
    def __init__(self, v):
        self.v = v
        self.lineno = 0


def has_yield(node):
    r = getattr(node, '_hy', None)
    if r is None:
        r = False
        stack = [node]
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                r = True
                break
            if isinstance(n, (ast.Lambda, ast.GeneratorExp)) and n is not node:
                continue
            stack.extend(ast.iter_child_nodes(n))
        node._hy = r
    return r


BINOPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**',
          ast.LShift: '<<', ast.RShift: '>>', ast.BitOr: '|', ast.BitAnd: '&', ast.BitXor: '^', ast.MatMult: '@'}
CMPOPS = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>='}
DUNDER = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'truediv', '//': 'floordiv', '%': 'mod', '**': 'pow', '<<': 'lshift',
          '>>': 'rshift', '|': 'or', '&': 'and', '^': 'xor'}
CDUNDER = {'==': '__eq__', '!=': '__ne__', '<': '__lt__', '<=': '__le__', '>': '__gt__', '>=': '__ge__'}
CSWAP = {'==': '==', '!=': '!=', '<': '>', '<=': '>=', '>': '<', '>=': '<='}

import operator as _op
NATIVE_BIN = {'+': _op.add, '-': _op.sub, '*': _op.mul, '/': _op.truediv, '//': _op.floordiv, '%': _op.mod,
              '**': _op.pow, '<<': _op.lshift, '>>': _op.rshift, '|': _op.or_, '&': _op.and_, '^': _op.xor}
NATIVE_CMP = {'==': _op.eq, '!=': _op.ne, '<': _op.lt, '<=': _op.le, '>': _op.gt, '>=': _op.ge}

SCALAR = (int, float, str, bytes, bool, type(None), complex)


def is_concrete(v):
    if isinstance(v, SCALAR) or v is Ellipsis:
        return True
    if isinstance(v, (tuple, list, set, frozenset)):
        return all(is_concrete(x) for x in v)
    if isinstance(v, dict):
        return all(is_concrete(k) and is_concrete(x) for k, x in v.items())
    if isinstance(v, (range, slice)):
        return True
    return False


WINDOWS_ONLY = {'winreg', 'msvcrt', '_winapi', 'winsound', 'nt'}
POSIX_ONLY = {'fcntl', 'termios', 'resource', 'posix', 'pwd', 'grp', 'pty', 'tty', 'syslog', 'crypt', 'curses', 'readline'}
_STDLIB = {}


def stdlib_names(mod):
    """the names a standard library module offers (of the interpreter running the analysis), None if unknown"""
    if mod not in _STDLIB:
        import importlib
        r = None
        if mod.split('.')[0] in ('os', 'time', 'struct', 'binascii', 'logging', 'select', 'fcntl', 'functools', 'itertools', 'collections',
                                 'contextlib', 'math', 'array', 're', 'sys', 'io', 'errno', 'operator', 'threading', 'string', 'copy'):
            try:
                r = set(dir(importlib.import_module(mod)))
                r |= {'Mapping', 'maketrans', 'uppercase', 'letters'} if mod in ('collections', 'string') else set()
            except ImportError:
                pass
        _STDLIB[mod] = r
    return _STDLIB[mod]


class _ModuleScope(object):
    def __init__(self, module):
        self.locals = module.ns


class Engine(object):
    def __init__(self, repo='/repo', platform='linux', gevent=False, pointer_size=8):
        self.repo = repo
        self.src = os.path.join(repo, 'src')
        self.platform, self.gevent, self.pointer_size = platform, gevent, pointer_size
        self.modules = {}
        self.ext = {}
        self.ast_cache = {}
        self.steps = 0
        self.max_steps = 400000
        self.step_limit = 200
        self.deadline = None
        self.stack = []
        self.path_active = False
        self.touched = {}
        self.decisions, self.prefix = [], []
        self.doms, self.facts, self.relations = {}, {}, []
        self.fresh_n = {}
        self.events = []
        self.stats = {'paths': 0, 'steps': 0, 'calls': 0, 'functions': set(), 'choices': 0}
        self.handlers = {}
        self.driving = []
        self.on_call = None
        self.fork_ints = True
        self.opts = {}
        self.static_doms = {}
        self.reach_lines = set()
        from . import lib_py
        lib_py.install(self)
        from . import lib_ctypes, lib_instruct
        lib_ctypes.install(self)
        lib_instruct.install(self)

    # ---------------------------------------------------------------- paths
    def fresh(self, base, lo=None, hi=None, vals=None):
        n = self.fresh_n.get(base, 0)
        self.fresh_n[base] = n + 1
        name = base if n == 0 else '%s#%d' % (base, n)
        a = Atom('sym', name)
        if lo is not None or hi is not None or vals is not None:
            self.doms[a] = Dom(lo, hi, vals)
        return P(a)

    def choose(self, n, label=''):
        if n <= 1:
            return 0
        if not self.path_active:
            raise Unsupported('choice outside a path: %s at %s' % (label, self.where()))
        i = len(self.decisions)
        c = self.prefix[i] if i < len(self.prefix) else 0
        self.decisions.append((c, n))
        self.stats['choices'] += 1
        return c

    def tick(self):
        """every few hundred steps: is the budget of steps or of time used up"""
        if self.steps > self.max_steps:
            raise Diverges('step budget exceeded at %s' % self.where())
        if self.deadline and self.path_active and time.time() > self.deadline:
            raise Unsupported('time budget exhausted at %s' % self.where())
        self.step_limit = min(self.steps + 200, self.max_steps)

    def explore(self, fn, max_paths=50000, deadline=None):
        self.deadline = deadline
        prefix = []
        npaths = 0
        while True:
            self.prefix, self.decisions = prefix, []
            self.doms, self.facts, self.relations = {}, {}, []
            self.fresh_n, self.events, self.steps, self.stack = {}, [], 0, []
            self.step_limit = 200
            self.driving = []
            self.touched, self.path_active = {}, True
            saved_modules = dict(self.modules)
            try:
                try:
                    res = fn()
                except PathEnd as e:
                    res = ('wrecked' if isinstance(e, Wrecked) else 'end', str(e))
                self.stats['steps'] += self.steps
                self.stats['paths'] += 1
                npaths += 1
                yield res
            finally:
                for cont, copy in self.touched.values():
                    self._restore(cont, copy)
                self.modules = saved_modules
                self.touched, self.path_active = {}, False
            trace = list(self.decisions)
            while trace and trace[-1][0] + 1 >= trace[-1][1]:
                trace.pop()
            if not trace:
                return
            c, n = trace[-1]
            trace[-1] = (c + 1, n)
            prefix = [c for c, _ in trace]
            if npaths > max_paths:
                raise Unsupported('more than %d abstract paths' % max_paths)
            if self.deadline and time.time() > self.deadline:
                raise Unsupported('time budget exhausted after %d paths' % npaths)

    def _restore(self, cont, copy):
        if isinstance(cont, dict):
            cont.clear()
            cont.update(copy)
        elif isinstance(cont, list):
            cont[:] = copy
        elif isinstance(cont, set):
            cont.clear()
            cont.update(copy)
        elif isinstance(cont, BytesV):
            cont.segs = copy

    def touch(self, cont):
        if self.path_active and id(cont) not in self.touched:
            if isinstance(cont, BytesV):
                copy = list(cont.segs)
            else:
                copy = cont.copy()
            self.touched[id(cont)] = (cont, copy)

    def event(self, kind, **kw):
        kw['kind'] = kind
        kw['where'] = self.where()
        self.events.append(kw)
        return kw

    def where(self):
        for fr in reversed(self.stack):
            if fr.module.path and not getattr(fr.module, 'prelude', False):
                return '%s:%s (%s)' % (os.path.relpath(fr.module.path, self.repo), fr.line,
                                       fr.func.name if fr.func else '<module>')
        return '<driver>'

    def trace(self):
        out = []
        for fr in self.stack:
            if fr.module.path and not getattr(fr.module, 'prelude', False):
                out.append('%s:%s (%s)' % (os.path.relpath(fr.module.path, self.repo), fr.line,
                                           fr.func.name if fr.func else '<module>'))
        return out

    # ---------------------------------------------------------------- numbers
    def dom(self, a):
        d = self.doms.get(a) or self.static_doms.get(a)
        if d is None:
            if a.op == 'wb':
                return Dom(0, 255)
            return Dom()
        return d

    def atom_interval(self, a):
        d = self.doms.get(a)
        if d is not None:
            return (d.lo, d.hi)
        if a.op == 'bits':
            return (0, (1 << len(a.args[0])) - 1)
        if a.op == 'sbits':
            n = len(a.args[0])
            return (-(1 << (n - 1)), (1 << (n - 1)) - 1)
        if a.op == 'wb':
            return (0, 255)
        if a.op == 'and':
            m = a.args[1]
            if isinstance(m, int) and m >= 0:
                return (0, m)
            lo1, hi1 = self.interval(a.args[0])
            return (0, hi1) if lo1 is not None and lo1 >= 0 else (None, None)
        if a.op == 'mod':
            m = a.args[1]
            if isinstance(m, int) and m > 0:
                return (0, m - 1)
            lo, hi = self.interval(m)
            if lo is not None and lo > 0:
                return (0, None if hi is None else hi - 1)
        if a.op == 'shr':
            lo, hi = self.interval(a.args[0])
            k = a.args[1]
            if isinstance(k, int):
                return (None if lo is None else lo >> k, None if hi is None else hi >> k)
        if a.op == 'div':
            lo, hi = self.interval(a.args[0])
            dlo, dhi = self.interval(a.args[1])
            if lo is not None and lo >= 0 and dlo is not None and dlo > 0:
                return (0, None if hi is None else hi // dlo)
        if a.op in ('or', 'xor'):
            l1, h1 = self.interval(a.args[0])
            l2, h2 = self.interval(a.args[1])
            if l1 is not None and l2 is not None and l1 >= 0 and l2 >= 0:
                if h1 is None or h2 is None:
                    return (0, None)
                return (0, (1 << max(h1.bit_length(), h2.bit_length())) - 1)
        if a.op == 'min':
            ivs = [self.interval(x) for x in a.args]
            los, his = [i[0] for i in ivs], [i[1] for i in ivs if i[1] is not None]
            return (None if None in los else min(los), min(his) if his else None)
        if a.op == 'max':
            ivs = [self.interval(x) for x in a.args]
            los, his = [i[0] for i in ivs if i[0] is not None], [i[1] for i in ivs]
            return (max(los) if los else None, None if None in his else max(his))
        d = self.dom(a)
        return (d.lo, d.hi)

    def interval(self, v):
        if not isinstance(v, Poly):
            return (int(v), int(v))
        tot = (0, 0)
        for mono, c in v.terms:
            iv = (1, 1)
            for a in mono:
                iv = iv_mul(iv, self.atom_interval(a))
            tot = iv_add(tot, iv_scale(iv, c))
        return tot

    def base_syms(self, v, out=None):
        out = out if out is not None else []
        if isinstance(v, Poly):
            for a in v.atoms():
                self.base_syms_atom(a, out)
        elif isinstance(v, Cond):
            if v.op in ('ge', 'eq'):
                self.base_syms(v.arg, out)
            elif v.op in ('and', 'or'):
                for c in v.arg:
                    self.base_syms(c, out)
            else:
                out.append(None)
        return out

    def base_syms_atom(self, a, out):
        if a.op in ('sym', 'wb'):
            if a not in out:
                out.append(a)
        elif a.op in ('bits', 'sbits'):
            for b in a.args[0]:
                if b not in (0, 1):
                    self.base_syms_atom(b[0], out)
        else:
            for x in a.args:
                if isinstance(x, (Poly, Cond)):
                    self.base_syms(x, out)

    def evala(self, a, asg):
        if a in asg:
            return asg[a]
        if a.op in ('bits', 'sbits'):
            r = 0
            for i, b in enumerate(a.args[0]):
                if b in (0, 1):
                    r |= b << i
                else:
                    r |= ((self.evala(b[0], asg) >> b[1]) & 1) << i
            if a.op == 'sbits' and r >> (len(a.args[0]) - 1):
                r -= 1 << len(a.args[0])
            return r
        xs = [self.evalv(x, asg) for x in a.args]
        if a.op == 'shr':
            return xs[0] >> xs[1]
        if a.op == 'and':
            return xs[0] & xs[1]
        if a.op == 'or':
            return xs[0] | xs[1]
        if a.op == 'xor':
            return xs[0] ^ xs[1]
        if a.op == 'mod':
            return xs[0] % xs[1]
        if a.op == 'div':
            return xs[0] // xs[1]
        if a.op == 'min':
            return min(xs)
        if a.op == 'max':
            return max(xs)
        raise Unsupported('evaluate %r' % (a,))

    def evalv(self, v, asg):
        if isinstance(v, Poly):
            t = 0
            for mono, c in v.terms:
                for a in mono:
                    c = c * self.evala(a, asg)
                t += c
            return t
        if isinstance(v, Cond):
            if v.op == 'ge':
                r = self.evalv(v.arg, asg) >= 0
            elif v.op == 'eq':
                r = self.evalv(v.arg, asg) == 0
            elif v.op == 'and':
                r = all(self.evalv(c, asg) for c in v.arg)
            elif v.op == 'or':
                r = any(self.evalv(c, asg) for c in v.arg)
            else:
                raise Unsupported('evaluate %r' % (v,))
            return (not r) if v.neg else r
        return v

    def finite(self, a):
        d = self.dom(a)
        if d.vals is not None:
            return len(d.vals)
        if d.lo is not None and d.hi is not None and d.hi - d.lo < MAXENUM:
            return d.hi - d.lo + 1
        return None

    def values_of(self, a):
        d = self.dom(a)
        return sorted(d.vals) if d.vals is not None else range(d.lo, d.hi + 1)

    def decide(self, c, forced=None):
        """truth of a symbolic condition on this path; forks when undetermined"""
        if isinstance(c, Cond) and c.op in ('ge', 'eq'):
            c = self.simplify(c)
            if not isinstance(c, Cond):
                return bool(c)
        r = self.known(c)
        if r is not None:
            return r
        if c.op in ('and', 'or'):
            # decide members one by one (short-circuit), then combine
            r = c.op == 'and'
            for m in c.arg:
                if self.decide(m) != r:
                    r = not r
                    break
            return (not r) if c.neg else r
        val = self.choose(2, repr(c)) == 0
        self.assume(c, val)
        return val

    def known(self, c):
        if not isinstance(c, Cond):
            return bool(c)
        if c.neg:
            r = self.known(Cond(c.op, c.arg))
            return None if r is None else not r
        f = self.facts.get(c)
        if f is not None:
            return f
        if c.op in ('and', 'or'):
            rs = [self.known(m) for m in c.arg]
            stop = c.op == 'or'
            if stop in rs:
                return stop
            if None in rs:
                return None
            return not stop
        if c.op == 'b':
            return None
        if c.op == 'ge':
            n = c.negate()
            f = self.facts.get(n)
            if f is not None:
                return not f
        lo, hi = self.interval(c.arg)
        if c.op == 'ge':
            if lo is not None and lo >= 0:
                return True
            if hi is not None and hi < 0:
                return False
        else:
            if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                return False
            if lo == hi == 0:
                return True
        syms = self.base_syms(c)
        if None in syms:
            return None
        size = 1
        for s in syms:
            n = self.finite(s)
            if n is None:
                return self.known_linear(c)
            size *= n
            if size > MAXENUM:
                return self.known_linear(c)
        seen = self.enum(c, syms)
        if seen == {True}:
            return True
        if seen == {False}:
            return False
        if not seen:
            raise PathEnd('infeasible')
        return None

    def pinned(self, p):
        """p with the atoms that can have one value only on this path replaced by it"""
        if not isinstance(p, Poly):
            return p
        sub_ = {}
        for a in p.atoms():
            if a.op in ('sym', 'wb'):
                d = self.doms.get(a)
                if d is not None and d.lo is not None and d.lo == d.hi:
                    sub_[a] = d.lo
        if not sub_:
            return p
        out = 0
        for m, k in p.terms:
            rest = []
            for a in m:
                if a in sub_:
                    k *= sub_[a]
                else:
                    rest.append(a)
            out = add(out, mk({tuple(rest): k}))
        return out

    def simplify(self, c):
        """an equivalent condition: pinned atoms replaced, positive common factors of a comparison with 0 cancelled"""
        if c.neg:
            r = self.simplify(Cond(c.op, c.arg))
            return r.negate() if isinstance(r, Cond) else not r
        p = self.pinned(c.arg)
        if isinstance(p, Poly):
            k = p.const()
            monos = [m for m, _ in p.terms if m]
            if monos and (k == 0 or (k == -1 and c.op == 'ge')) and any(len(m) > 1 for m in monos):
                d = dict(p.terms)
                for a in list(monos[0]):
                    if all(a in m for m in monos):
                        lo, _ = self.atom_interval(a)
                        if lo is not None and lo > 0:
                            new = {}
                            for m in monos:
                                r = list(m)
                                r.remove(a)
                                new[tuple(r)] = d[m]
                            monos, d = list(new), new
                q = mk(d)
                if k == -1:
                    q = sub(q, 1)
                p = q
        if not isinstance(p, Poly):
            return p >= 0 if c.op == 'ge' else p == 0
        if p == c.arg:
            return c
        from .num import cond_ge, cond_eq
        return cond_ge(p) if c.op == 'ge' else cond_eq(p)

    def known_linear(self, c):
        """use recorded relational facts: p >= 0 follows from q >= 0 when p - q >= 0"""
        if c.op == 'ge':
            for f, v in list(self.facts.items()):
                g = f if v else f.negate()
                if isinstance(g, Cond) and g.op == 'ge' and not g.neg:
                    for p, res in ((c.arg, True), (c.negate().arg, False)):
                        lo, _ = self.interval(sub(p, g.arg))
                        if lo is not None and lo >= 0:
                            return res
        return None

    def rel_for(self, syms):
        ss = set(syms)
        return [(c, v) for c, v, s in self.relations if s <= ss]

    def enum(self, c, syms):
        import itertools
        rels = self.rel_for(syms)
        seen = set()
        for combo in itertools.product(*[self.values_of(s) for s in syms]):
            asg = dict(zip(syms, combo))
            if all(self.evalv(rc, asg) == rv for rc, rv in rels):
                seen.add(bool(self.evalv(c, asg)))
                if len(seen) == 2:
                    break
        return seen

    def assume(self, c, val):
        """record a condition's truth on this path and narrow domains"""
        if not isinstance(c, Cond):
            if bool(c) != val:
                raise PathEnd('infeasible')
            return
        if c.neg:
            return self.assume(Cond(c.op, c.arg), not val)
        if c.op in ('and', 'or'):
            if (c.op == 'and') == val:
                for m in c.arg:
                    self.assume(m, val)
            self.facts[c] = val
            return
        self.facts[c] = val
        if c.op == 'b':
            return
        syms = self.base_syms(c)
        if None in syms:
            return
        if len(syms) == 1:
            s = syms[0]
            n = self.finite(s)
            if n is not None:
                keep = [v for v in self.values_of(s) if bool(self.evalv(c, {s: v})) == val]
                if not keep:
                    raise PathEnd('infeasible')
                if len(keep) == keep[-1] - keep[0] + 1:
                    self.doms[s] = Dom(keep[0], keep[-1])
                else:
                    self.doms[s] = Dom(vals=keep)
                return
        else:
            self.relations.append((c, val, set(syms)))
        # interval narrowing: a*x + b  (single atom, linear)
        p = c.arg
        at = [m for m, _ in p.terms if m]
        if c.op == 'ge' and not val:
            p = c.negate().arg
            val = True
        if len(at) == 1 and len(at[0]) == 1:
            x, a, b = at[0][0], dict(p.terms)[at[0]], p.const()
            d = self.dom(x)
            lo, hi = d.lo, d.hi
            if c.op == 'ge':
                # a*x + b >= 0
                if a > 0:
                    k = -((b) // a)      # x >= ceil(-b/a)
                    lo = k if lo is None else max(lo, k)
                else:
                    k = b // (-a)        # x <= floor(b/-a)
                    hi = k if hi is None else min(hi, k)
            elif val:
                if (-b) % a:
                    raise PathEnd('infeasible')
                k = (-b) // a
                lo = hi = k
                if x.op in ('bits', 'sbits'):
                    self.assume_bits(x, k)
            else:
                k = (-b) // a if (-b) % a == 0 else None
                if k is not None:
                    if lo == k:
                        lo += 1
                    if hi == k:
                        hi -= 1
            if lo is not None and hi is not None and lo > hi:
                raise PathEnd('infeasible')
            if x.op in ('sym', 'wb'):
                self.doms[x] = Dom(lo, hi)
            elif (lo, hi) != (None, None) and x.op not in ('bits', 'sbits'):
                self.doms[x] = Dom(lo, hi)
        elif c.op == 'ge' and len(at) > 1 and all(len(m) == 1 for m in at):
            # propagate bounds to each atom of a linear relation
            td_ = dict(p.terms)
            for m in at:
                x, a = m[0], td_[m]
                if x.op != 'sym':
                    continue
                rest = sub(p, mk({m: a}))
                _, rhi = self.interval(rest)
                if rhi is None:
                    continue
                d = self.dom(x)
                lo, hi = d.lo, d.hi
                if d.vals is not None:
                    continue
                if a > 0:
                    k = -(rhi // a)
                    lo = k if lo is None else max(lo, k)
                else:
                    k = rhi // (-a)
                    hi = k if hi is None else min(hi, k)
                if lo is not None and hi is not None and lo > hi:
                    raise PathEnd('infeasible')
                self.doms[x] = Dom(lo, hi)

    def assume_bits(self, x, k):
        """the bit vector x has the value k: every finite atom it is made of is narrowed"""
        bits = x.args[0]
        n = len(bits)
        if not (-(1 << n - 1) <= k < 1 << n - 1 if x.op == 'sbits' else 0 <= k < 1 << n):
            raise PathEnd('infeasible')
        need = {}
        for i, b in enumerate(bits):
            v = (k >> i) & 1
            if isinstance(b, int):
                if b != v:
                    raise PathEnd('infeasible')
            elif isinstance(b, tuple) and isinstance(b[0], Atom):
                need.setdefault(b[0], []).append((b[1], v))
        for a, req in need.items():
            if a.op in ('sym', 'wb') and self.finite(a) is not None:
                keep = [v for v in self.values_of(a) if all((v >> i) & 1 == w for i, w in req)]
                if not keep:
                    raise PathEnd('infeasible')
                self.doms[a] = Dom(keep[0], keep[-1]) if len(keep) == keep[-1] - keep[0] + 1 else Dom(vals=keep)

    def bits_of(self, v, n):
        """the n low two's-complement bits of v, LSB first; None where unknown"""
        if not isinstance(v, Poly):
            return [(int(v) >> i) & 1 for i in range(n)]
        if len(v.terms) == 1:
            mono, c = v.terms[0]
            if len(mono) == 1 and c > 0 and c & (c - 1) == 0:
                k = c.bit_length() - 1
                return ([0] * k + self.atom_bits(mono[0], n - k))[:n] if n > k else [0] * n
        else:
            acc = [0] * n
            ok = all(c > 0 for _, c in v.terms)
            if ok:
                for mono, c in v.terms:
                    b = self.bits_of(mk({mono: c}), n)
                    if b is None:
                        ok = False
                        break
                    for i in range(n):
                        if b[i] != 0:
                            if acc[i] != 0:
                                ok = False
                            acc[i] = b[i]
                if ok:
                    return acc
        a = Atom('poly', v)
        lo, hi = self.interval(v)
        return self._clip([(a, i) for i in range(n)], lo, hi)

    def _clip(self, bits, lo, hi):
        if lo is not None and hi is not None and lo >= 0:
            w = hi.bit_length()
            return [b if i < w else 0 for i, b in enumerate(bits)]
        return bits

    def atom_bits(self, a, n):
        if a.op == 'bits':
            b = list(a.args[0])
            return (b + [0] * n)[:n]
        if a.op == 'sbits':
            b = list(a.args[0])
            return (b + [b[-1]] * n)[:n]
        if a.op == 'shr' and isinstance(a.args[1], int):
            return self.bits_of(a.args[0], n + a.args[1])[a.args[1]:]
        if a.op == 'poly':
            return self.bits_of(a.args[0], n)
        if a.op == 'mod' and isinstance(a.args[1], int) and a.args[1] & (a.args[1] - 1) == 0:
            k = a.args[1].bit_length() - 1
            b = self.bits_of(a.args[0], n)
            return [x if i < k else 0 for i, x in enumerate(b)]
        if a.op == 'div' and isinstance(a.args[1], int) and a.args[1] & (a.args[1] - 1) == 0:
            k = a.args[1].bit_length() - 1
            return self.bits_of(a.args[0], n + k)[k:]
        if a.op == 'and' and isinstance(a.args[1], int):
            b = self.bits_of(a.args[0], n)
            return [x if (a.args[1] >> i) & 1 else 0 for i, x in enumerate(b)]
        if a.op in ('or', 'xor'):
            x, y = self.bits_of(a.args[0], n), self.bits_of(a.args[1], n)
            if all(p == 0 or q == 0 for p, q in zip(x, y)):
                return [p if p != 0 else q for p, q in zip(x, y)]
        lo, hi = self.atom_interval(a)
        return self._clip([(a, i) for i in range(n)], lo, hi)

    def mk_bits(self, bits, signed=False):
        bits = list(bits)
        if signed and bits:
            if all(b in (0, 1) for b in bits):
                r = sum(b << i for i, b in enumerate(bits))
                return r - (1 << len(bits)) if bits[-1] else r
            if bits[-1] != 0:
                return P(Atom('sbits', tuple(bits)))
        while bits and bits[-1] == 0:
            bits.pop()
        if all(b in (0, 1) for b in bits):
            return sum(b << i for i, b in enumerate(bits))
        if bits[0] not in (0, 1):
            src = bits[0][0]
            if bits == [(src, i) for i in range(len(bits))]:
                lo, hi = self.atom_interval(src)
                if lo is not None and hi is not None and lo >= 0 and hi.bit_length() <= len(bits):
                    return src.args[0] if src.op == 'poly' else P(src)
        return P(Atom('bits', tuple(bits)))

    def int_bin(self, op, x, y):
        if not isinstance(x, Poly) and not isinstance(y, Poly):
            return self.native(NATIVE_BIN[op], x, y)
        if op == '+':
            return add(x, y)
        if op == '-':
            return sub(x, y)
        if op == '*':
            return mul(x, y)
        if op == '<<' and isinstance(y, int):
            return mul(x, 1 << y)
        if op == '**' and isinstance(y, int) and 0 <= y < 8:
            r = 1
            for _ in range(y):
                r = mul(r, x)
            return r
        if op == '>>' and isinstance(y, int):
            lo, hi = self.interval(x)
            if lo is not None and hi is not None and lo >= 0:
                return self.mk_bits(self.bits_of(x, max(hi.bit_length(), y + 1))[y:])
            return P(Atom('shr', x, y))
        if op in ('&', '|', '^'):
            if not isinstance(x, Poly):
                x, y = y, x
            if op == '&' and isinstance(y, int):
                if y >= 0:
                    b = self.bits_of(x, y.bit_length())
                    return self.mk_bits([q if (y >> i) & 1 else 0 for i, q in enumerate(b)])
                lo, hi = self.interval(x)
                if lo is not None and hi is not None and lo >= 0:
                    b = self.bits_of(x, hi.bit_length())
                    return self.mk_bits([q if (y >> i) & 1 else 0 for i, q in enumerate(b)])
            lx, hx = self.interval(x)
            ly, hy = self.interval(y)
            if None not in (lx, hx, ly, hy) and lx >= 0 and ly >= 0:
                n = max(hx.bit_length(), hy.bit_length())
                a, b = self.bits_of(x, n), self.bits_of(y, n)
                out = []
                for p, q in zip(a, b):
                    if op == '|':
                        r = 1 if 1 in (p, q) else (p if q == 0 else q if p == 0 else (p if p == q else None))
                    elif op == '&':
                        r = 0 if 0 in (p, q) else (p if q == 1 else q if p == 1 else (p if p == q else None))
                    else:
                        r = p if q == 0 else q if p == 0 else (0 if p == q else None)
                    if r is None:
                        break
                    out.append(r)
                else:
                    return self.mk_bits(out)
            if isinstance(y, Poly) and y.__repr__() < x.__repr__():
                x, y = y, x
            return P(Atom({'&': 'and', '|': 'or', '^': 'xor'}[op], x, y))
        if op in ('//', '%'):
            if isinstance(y, int):
                if y == 0:
                    self.throw('ZeroDivisionError', 'integer division or modulo by zero')
                if y > 0 and y & (y - 1) == 0:
                    if op == '//':
                        k = y.bit_length() - 1
                        q, r = split_div(x, y)
                        if not isinstance(r, Poly):
                            return q
                        return self.int_bin('>>', x, k) if k else x
            else:
                self.forbid_zero(y)
            sd = split_div(x, y)
            if sd is not None:
                q, r = sd
                if not isinstance(r, Poly) and r == 0:
                    return q if op == '//' else 0
                # 0 <= r < y  ?
                lo, hi = self.interval(r)
                ylo, _ = self.interval(y)
                inb = self.known(compare('>=', r, 0)) and self.known(compare('<', r, y))
                if inb:
                    return q if op == '//' else r
            if op == '%' and isinstance(y, int) and y > 0 and y & (y - 1) == 0:
                return self.int_bin('&', x, y - 1)
            lo, hi = self.interval(x)
            ylo, yhi = self.interval(y)
            if lo is not None and lo >= 0 and hi is not None and ylo is not None and hi < ylo:
                return 0 if op == '//' else x
            return P(Atom('div' if op == '//' else 'mod', x, y))
        if op == '/':
            return Opaque('%r/%r' % (x, y))
        raise Unsupported('operator %s on %r, %r at %s' % (op, x, y, self.where()))

    def forbid_zero(self, y):
        if self.truth(compare('==', y, 0)):
            self.throw('ZeroDivisionError', 'integer division or modulo by zero')

    # ---------------------------------------------------------------- exceptions
    def throw(self, clsname, *args):
        cls = self.exc[clsname] if isinstance(clsname, str) else clsname
        o = Obj(cls, {'args': tuple(args)})
        if len(args) >= 2 and cls.issub(self.exc['OSError']):
            o.attrs['errno'], o.attrs['strerror'] = args[:2]
        o.trace = self.trace()
        raise PyRaise(o)

    def os_error(self, what):
        """a system call fails, with any error number"""
        k = self.choose(3, 'error number')
        if k == 1:
            self.throw('InterruptedError', 4, what)
        if k == 2:
            self.throw('BlockingIOError', 11, what)
        self.throw('OSError', self.fresh('errno', 1, 133, [i for i in range(1, 134) if i not in (1, 2, 3, 4, 10, 11, 13, 17, 20, 21, 32)]), what)

    def native(self, fn, *args, **kw):
        """constant folding of an operation on concrete values"""
        try:
            return fn(*args, **kw)
        except (Unsupported, PyRaise, PathEnd, Diverges):
            raise
        except RecursionError:
            raise
        except Exception as e:
            name = type(e).__name__
            if type(e).__module__ == 'struct':
                name = 'struct.error'
            if name not in self.exc:
                name = 'Exception'
            self.throw(name, str(e))

    # ---------------------------------------------------------------- truth / equality
    def truth(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, Cond):
            return self.decide(v)
        if isinstance(v, Poly):
            c = cond_eq(v)
            return not self.decide(c)
        if isinstance(v, BytesV):
            return not self.truth(compare('==', v.length(), 0))
        if isinstance(v, StrV):
            if any(isinstance(p, str) and p for p in v.parts):
                return True
            return self.decide(Cond('b', 'nonempty:%r' % (v,)))
        if isinstance(v, Opaque):
            return self.decide(Cond('b', 'truth:' + v.name))
        if isinstance(v, Obj):
            m = v.cls.lookup('__bool__')
            if m is not None:
                return self.truth(self.call_method(v, '__bool__'))
            if v.cls.lookup('__len__') is not None:
                return self.truth(self.call_method(v, '__len__'))
            if v.payload is not None and isinstance(v.payload, (dict, list)):
                return bool(v.payload)
            return True
        if isinstance(v, (int, float, str, bytes, tuple, list, dict, set, frozenset, type(None), range)):
            return bool(v)
        return True

    def eq(self, a, b):
        """== as bool or Cond"""
        if a is b:
            return True
        if isinstance(a, Cond) or isinstance(b, Cond):
            if isinstance(a, (bool, Cond)) and isinstance(b, (bool, Cond)):
                x, y = (a, b) if isinstance(a, Cond) else (b, a)
                if isinstance(y, bool):
                    return x if y else x.negate()
            ta = self.truth(a) if isinstance(a, Cond) else a
            tb = self.truth(b) if isinstance(b, Cond) else b
            return self.eq(ta, tb)
        if isinstance(a, Poly) or isinstance(b, Poly):
            if isinstance(a, (int, Poly)) and isinstance(b, (int, Poly)):
                return compare('==', a, b)
            if isinstance(a, Opaque) or isinstance(b, Opaque):
                return Cond('b', 'eq:%r:%r' % (a, b))
            if isinstance(a, float) or isinstance(b, float):
                return Cond('b', 'eq:%r:%r' % (a, b))
            return False
        if isinstance(a, Obj) or isinstance(b, Obj):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Obj) and x.cls.has('__eq__'):
                    return self.call_method(x, '__eq__', [y])
            if isinstance(a, Obj) and isinstance(b, Obj) and a.payload is not None and b.payload is not None:
                return self.eq(a.payload, b.payload)
            return False
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            if isinstance(a, Opaque) and isinstance(b, Opaque) and a.name == b.name:
                return True
            if a is None or b is None:
                o = a if isinstance(a, Opaque) else b
                if o.cls is not None:
                    return False
            return Cond('b', 'eq:%r:%r' % (a, b))
        if isinstance(a, StrV) or isinstance(b, StrV):
            if a == b:
                return True
            if isinstance(a, (StrV, str)) and isinstance(b, (StrV, str)):
                return Cond('b', 'eq:%r:%r' % (a, b))
            return False
        ba, bb = as_bv(a), as_bv(b)
        if ba is not None and bb is not None:
            if ba == bb:
                return True
            ca, cb = ba.concrete(), bb.concrete()
            if ca is not None and cb is not None:
                return ca == cb
            lc = compare('==', ba.length(), bb.length())
            if lc is False:
                return False
            xa, xb = ba.cells(), bb.cells()
            if xa is not None and xb is not None:
                if len(xa) != len(xb):
                    return False
                for p, q in zip(xa, xb):
                    if not self.truth(compare('==', p, q)):
                        return False
                return True
            return Cond('b', 'eq:%r:%r' % (a, b))
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            if isinstance(a, tuple) != isinstance(b, tuple) or len(a) != len(b):
                return False
            for x, y in zip(a, b):
                if not self.truth(self.eq(x, y)):
                    return False
            return True
        if isinstance(a, dict) and isinstance(b, dict):
            if len(a) != len(b):
                return False
            for k, x in a.items():
                kk = self.dict_find(b, k)
                if kk is _MISSING or not self.truth(self.eq(x, b[kk])):
                    return False
            return True
        if isinstance(a, Bound) or isinstance(b, Bound):
            return a == b
        try:
            return bool(a == b)
        except Exception:
            return False

    def identical(self, a, b):
        if a is b:
            return True
        if isinstance(a, (Poly, Cond)) or isinstance(b, (Poly, Cond)):
            if a is None or b is None:
                return False
            return self.eq(a, b)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            o, other = (a, b) if isinstance(a, Opaque) else (b, a)
            if o.cls is not None and (other is None or isinstance(other, (bool, Obj))):
                return False
            if isinstance(other, Opaque) and other.name != o.name:
                return False
            return Cond('b', 'is:%s:%r' % (o.name, other))
        if isinstance(a, (int, str, bytes, float, bool)) and type(a) == type(b):
            return a == b
        if isinstance(a, tuple) and isinstance(b, tuple) and a == () and b == ():
            return True
        if isinstance(a, Bound) and isinstance(b, Bound):
            return False
        return False

    def dict_find(self, d, key):
        """matching existing key object, or _MISSING"""
        if isinstance(key, (list, dict, set)) or (isinstance(key, BytesV) and key.kind == 'bytearray'):
            self.throw('TypeError', 'unhashable type')
        if isinstance(key, Obj) and key.cls.has('__eq__') and not key.cls.has('__hash__'):
            self.throw('TypeError', 'unhashable type')
        symbolic = self.symbolic_key(key) or getattr(d, '_sym', False) or any(self.symbolic_key(k) for k in d)
        if not symbolic:
            return key if key in d else _MISSING
        try:
            if key in d:
                return key
        except TypeError:
            pass
        if len(d) > 24 and isinstance(key, BytesV) and all(isinstance(k, bytes) for k in d):
            return self.table_find(d, key)
        for k in list(d):
            if self.truth(self.eq(k, key)):
                return k
        return _MISSING

    def table_find(self, d, key):
        """a partly symbolic byte string looked up in a large table: one path per possible entry and one for a miss"""
        cells = key.cells()
        if cells is None:
            raise Unsupported('table lookup of unknown bytes at %s' % self.where())
        memo = ('miss', id(d), len(d), tuple(cells))
        if memo in self.facts:
            return _MISSING
        poss, size = [], 1
        for c in cells:
            if isinstance(c, int):
                poss.append({c})
            elif len(c.terms) == 1 and c == P(c.terms[0][0][0]) and self.finite(c.terms[0][0][0]) is not None:
                poss.append(set(self.values_of(c.terms[0][0][0])))
            else:
                poss.append(None)
            size = None if size is None or poss[-1] is None else size * len(poss[-1])
        cand = [k for k in d if len(k) == len(cells) and all(p is None or b in p for p, b in zip(poss, k))]
        last = size == len(cand) and len(set(c for c in cells if isinstance(c, Poly))) == sum(isinstance(c, Poly) for c in cells)
        i = self.choose(len(cand) + (0 if last else 1), 'table lookup')
        if i == len(cand):
            self.facts[memo] = True
            if len(cells) == 1 and len(cand) < 300:
                for k in cand:
                    self.assume(compare('==', cells[0], k[0]), False)
            return _MISSING
        for p, b in zip(cells, cand[i]):
            self.assume(compare('==', p, b), True)
        return cand[i]

    def symbolic_key(self, k):
        if isinstance(k, (Poly, StrV, BytesV, Cond)):
            return True
        if isinstance(k, tuple):
            return any(self.symbolic_key(x) for x in k)
        if isinstance(k, Obj):
            return k.cls.has('__eq__')
        return False

    # ---------------------------------------------------------------- modules
    def parse(self, path):
        if path not in self.ast_cache:
            with open(path, 'rb') as f:
                self.ast_cache[path] = ast.parse(f.read(), path)
        return self.ast_cache[path]

    def find_module(self, name):
        base = os.path.join(self.src, *name.split('.'))
        for p in (os.path.join(base, '__init__.py'), base + '.py'):
            if os.path.exists(p):
                return p
        return None

    def load(self, name):
        if name in self.modules:
            m = self.modules[name]
            return m
        if '.' in name:
            self.load(name.rsplit('.', 1)[0])
            if name in self.modules:
                return self.modules[name]
        path = self.find_module(name) if (name == 'infi' or name.startswith('infi.asi')) else None
        top = name.split('.')[0]
        if top in WINDOWS_ONLY and self.platform != 'windows' or top in POSIX_ONLY and self.platform == 'windows':
            self.throw('ModuleNotFoundError', "No module named %r" % name)
        if name in self.ext:
            m = self.ext[name](self)
            self.modules[name] = m
            m.external = True
        elif name == 'infi':
            m = Module('infi')
            m.is_pkg = True
            self.modules[name] = m
        elif path:
            m = Module(name, path)
            m.is_pkg = path.endswith('__init__.py')
            m.loading = True
            m.ns['__file__'] = path
            m.ns['__package__'] = name if m.is_pkg else name.rsplit('.', 1)[0]
            self.modules[name] = m
            tree = self.parse(path)
            fr = Frame(m, m.ns, None, None, None, 'module')
            self.stack.append(fr)
            try:
                self.run_plain(self.gex(tree.body, fr))
            except PyRaise:
                del self.modules[name]
                raise
            finally:
                self.stack.pop()
                m.loading = False
        elif name.split('.')[0] in ('gevent',):
            self.throw('ModuleNotFoundError', "No module named %r" % name)
        elif name.split('.')[0] in sys.stdlib_module_names or name.split('.')[0] in KNOWN_THIRD:
            m = Module(name)
            m.external = True
            m.attr_hook = self.stdlib_attr
            self.modules[name] = m
        else:
            self.throw('ModuleNotFoundError', "No module named %r" % name)
        if '.' in name:
            par, leaf = name.rsplit('.', 1)
            pm = self.modules.get(par)
            if pm is not None:
                self.touch(pm.ns)
                pm.ns[leaf] = m
        return m

    def stdlib_attr(self, eng, mod, attr):
        known = stdlib_names(mod.name)
        if known is not None and attr not in known and self.platform != 'windows':
            return None
        return Opaque('%s.%s' % (mod.name, attr))

    def resolve_relative(self, module, level, name):
        pkg = module.ns.get('__package__') or module.name.rsplit('.', 1)[0]
        parts = pkg.split('.')
        if level > 1:
            parts = parts[:len(parts) - (level - 1)]
        if not parts:
            self.throw('ImportError', 'attempted relative import beyond top-level package')
        return '.'.join(parts + ([name] if name else []))

    def do_import_from(self, node, fr):
        name = self.resolve_relative(fr.module, node.level, node.module) if node.level else node.module
        m = self.load(name)
        for al in node.names:
            if al.name == '*':
                if '__all__' in m.ns:
                    names = list(m.ns['__all__'])
                else:
                    names = [n for n in m.ns if not n.startswith('_')]
                for n in names:
                    if n not in m.ns:
                        self.throw('AttributeError', 'module %r has no attribute %r' % (m.name, n))
                    self.store_name(n, m.ns[n], fr)
                continue
            v = self.module_attr(m, al.name)
            if v is _MISSING:
                sub = name + '.' + al.name
                if self.find_module(sub) or sub in self.ext:
                    v = self.load(sub)
                else:
                    self.throw('ImportError', 'cannot import name %r from %r' % (al.name, name))
            self.store_name(al.asname or al.name, v, fr)

    def module_attr(self, m, name):
        if name in m.ns:
            return m.ns[name]
        if m.attr_hook:
            v = m.attr_hook(self, m, name)
            if v is not None:
                return v
        return _MISSING

    # ---------------------------------------------------------------- names
    def store_name(self, name, v, fr):
        if fr.info is not None and fr.kind != 'class' or (fr.info is not None and name in fr.info.globals):
            if name in fr.info.globals:
                self.touch(fr.module.ns)
                fr.module.ns[name] = v
                return
            if name in fr.info.nonlocals:
                p = fr.parent
                while p is not None:
                    if p.kind in ('func', 'comp') and name in p.info.locals:
                        self.touch(p.locals)
                        p.locals[name] = v
                        return
                    p = p.parent
        self.touch(fr.locals)
        fr.locals[name] = v

    def load_name(self, name, fr):
        if fr.kind == 'module':
            if name in fr.locals:
                return fr.locals[name]
        elif fr.kind == 'class':
            if name in fr.locals:
                return fr.locals[name]
            p = fr.parent
            r = self.closure_lookup(name, p)
            if r is not _MISSING:
                return r
        else:
            if name in fr.locals:
                return fr.locals[name]
            if name in fr.info.locals:
                self.throw('UnboundLocalError', "local variable %r referenced before assignment" % name)
            if name not in fr.info.globals:
                r = self.closure_lookup(name, fr.parent)
                if r is not _MISSING:
                    return r
        if name in fr.module.ns:
            return fr.module.ns[name]
        if name in self.builtins:
            return self.builtins[name]
        if name == '__class__':
            p = fr
            while p is not None and (p.kind != 'func' or p.func is None or p.func.owner is None):
                p = p.parent
            if p is not None:
                return p.func.owner
        self.throw('NameError', 'name %r is not defined' % name)

    def closure_lookup(self, name, p):
        while p is not None:
            if p.kind in ('func', 'comp'):
                if name in p.locals:
                    return p.locals[name]
                if name in p.info.locals:
                    self.throw('NameError', 'free variable %r referenced before assignment' % name)
            p = p.parent
        return _MISSING

    # ---------------------------------------------------------------- statements
    def run_plain(self, gen):
        try:
            next(gen)
        except StopIteration as e:
            return e.value
        raise Unsupported('yield outside a generator at %s' % self.where())

    def gex(self, stmts, fr):
        for s in stmts:
            fr.line = s.lineno
            self.steps += 1
            if self.steps > self.step_limit:
                self.tick()
            t = type(s)
            if t is ast.Expr:
                v = s.value
                if has_yield(v):
                    yield from self.gev(v, fr)
                elif not isinstance(v, ast.Constant):
                    self.ev(v, fr)
            elif t is ast.Assign:
                v = (yield from self.gev(s.value, fr)) if has_yield(s.value) else self.ev(s.value, fr)
                for tg in s.targets:
                    if has_yield(tg):
                        raise Unsupported('yield in assignment target')
                    self.assign(tg, v, fr)
            elif t is ast.Return:
                if s.value is None:
                    return ('ret', None)
                v = (yield from self.gev(s.value, fr)) if has_yield(s.value) else self.ev(s.value, fr)
                return ('ret', v)
            elif t is ast.If:
                c = (yield from self.gev(s.test, fr)) if has_yield(s.test) else self.ev(s.test, fr)
                r = yield from self.gex(s.body if self.truth(c) else s.orelse, fr)
                if r is not None:
                    return r
            elif t is ast.While:
                brk = False
                while True:
                    c = (yield from self.gev(s.test, fr)) if has_yield(s.test) else self.ev(s.test, fr)
                    if not self.truth(c):
                        break
                    self.steps += 1
                    if self.steps > self.step_limit:
                        self.tick()
                    r = yield from self.gex(s.body, fr)
                    fr.line = s.lineno
                    if r == 'brk':
                        brk = True
                        break
                    if r is not None and r != 'cont':
                        return r
                if not brk and s.orelse:
                    r = yield from self.gex(s.orelse, fr)
                    if r is not None:
                        return r
            elif t is ast.For:
                it = (yield from self.gev(s.iter, fr)) if has_yield(s.iter) else self.ev(s.iter, fr)
                brk = False
                nx = self.iterate(it)
                for v in nx:
                    self.steps += 1
                    if self.steps > self.step_limit:
                        self.tick()
                    self.assign(s.target, v, fr)
                    r = yield from self.gex(s.body, fr)
                    fr.line = s.lineno
                    if r == 'brk':
                        brk = True
                        break
                    if r is not None and r != 'cont':
                        return r
                if not brk and s.orelse:
                    r = yield from self.gex(s.orelse, fr)
                    if r is not None:
                        return r
            elif t is ast.Try:
                r = yield from self.gtry(s, fr)
                if r is not None:
                    return r
            elif t is ast.With:
                r = yield from self.gwith(s.items, s.body, fr)
                if r is not None:
                    return r
            elif t is ast.AugAssign:
                cur = self.ev(self.as_load(s.target), fr)
                v = (yield from self.gev(s.value, fr)) if has_yield(s.value) else self.ev(s.value, fr)
                op = BINOPS[type(s.op)]
                if isinstance(cur, list) and op == '+':
                    self.touch(cur)
                    cur.extend(self.iterate(v))
                    nv = cur
                elif isinstance(cur, Obj) and cur.cls.has('__i%s__' % DUNDER[op]):
                    nv = self.call_method(cur, '__i%s__' % DUNDER[op], [v])
                elif isinstance(cur, (dict, set)) and op == '|' and type(cur) == type(v):
                    self.touch(cur)
                    cur.update(v)
                    nv = cur
                elif isinstance(cur, BytesV) and cur.kind == 'bytearray' and op == '+':
                    self.touch(cur)
                    cur.segs = BytesV(cur.segs + as_bv(self.need_bytes(v)).segs).segs
                    nv = cur
                else:
                    nv = self.binop(op, cur, v)
                self.assign(s.target, nv, fr)
            elif t is ast.Raise:
                if s.exc is None:
                    e = self.current_exc()
                    if e is None:
                        self.throw('RuntimeError', 'No active exception to reraise')
                    raise PyRaise(e)
                v = (yield from self.gev(s.exc, fr)) if has_yield(s.exc) else self.ev(s.exc, fr)
                cause = self.ev(s.cause, fr) if s.cause is not None else None
                try:
                    self.raise_value(v)
                except PyRaise as x:
                    if isinstance(cause, Cls):
                        cause = self.call(cause, [])
                    if s.cause is not None and isinstance(x.exc, Obj):
                        self.touch(x.exc.attrs)
                        x.exc.attrs['__cause__'] = cause
                    raise
            elif t is ast.Assert:
                c = (yield from self.gev(s.test, fr)) if has_yield(s.test) else self.ev(s.test, fr)
                if not self.truth(c):
                    args = [self.ev(s.msg, fr)] if s.msg is not None else []
                    self.throw('AssertionError', *args)
            elif t is ast.FunctionDef:
                f = self.make_func(s, fr)
                for d in reversed(s.decorator_list):
                    f = self.call(self.ev(d, fr), [f])
                self.store_name(s.name, f, fr)
            elif t is ast.ClassDef:
                self.store_name(s.name, self.make_class(s, fr), fr)
            elif t is ast.Import:
                for al in s.names:
                    m = self.load(al.name)
                    if al.asname:
                        self.store_name(al.asname, m, fr)
                    else:
                        self.store_name(al.name.split('.')[0], self.load(al.name.split('.')[0]), fr)
            elif t is ast.ImportFrom:
                self.do_import_from(s, fr)
            elif t is ast.Delete:
                for tg in s.targets:
                    self.delete(tg, fr)
            elif t is ast.Pass:
                pass
            elif t is ast.Break:
                return 'brk'
            elif t is ast.Continue:
                return 'cont'
            elif t in (ast.Global, ast.Nonlocal):
                pass
            elif t is ast.AnnAssign:
                if s.value is not None:
                    v = (yield from self.gev(s.value, fr)) if has_yield(s.value) else self.ev(s.value, fr)
                    self.assign(s.target, v, fr)
            else:
                raise Unsupported('statement %s at %s' % (t.__name__, self.where()))
        return None

    def as_load(self, tg):
        import copy
        n = getattr(tg, '_ld', None)
        if n is None:
            n = copy.copy(tg)
            n.ctx = ast.Load()
            tg._ld = n
        return n

    def current_exc(self):
        for fr in reversed(self.stack):
            if fr.exc:
                return fr.exc[-1]
        return None

    def raise_value(self, v):
        if isinstance(v, Cls):
            if not v.issub(self.exc['BaseException']):
                self.throw('TypeError', 'exceptions must derive from BaseException')
            v = self.call(v, [])
        if isinstance(v, Obj) and v.cls.issub(self.exc['BaseException']):
            if v.trace is None:
                v.trace = self.trace()
            raise PyRaise(v)
        if isinstance(v, Opaque):
            o = Obj(self.exc['Exception'], {'args': (v,)})
            raise PyRaise(o)
        self.throw('TypeError', 'exceptions must derive from BaseException')

    def exc_match(self, exc, spec):
        if isinstance(spec, tuple):
            return any(self.exc_match(exc, s) for s in spec)
        if isinstance(spec, Cls):
            return exc.cls.issub(spec)
        if isinstance(spec, Opaque):
            return self.truth(Cond('b', 'excmatch:%s:%s' % (exc.cls.name, spec.name)))
        self.throw('TypeError', 'catching classes that do not inherit from BaseException is not allowed')

    def gtry(self, s, fr):
        r = None
        try:
            try:
                r = yield from self.gex(s.body, fr)
                ok = True
            except PyRaise as pe:
                ok = False
                exc = pe.exc
            if ok:
                if r is None and s.orelse:
                    r = yield from self.gex(s.orelse, fr)
            else:
                for h in s.handlers:
                    fr.line = h.lineno
                    if h.type is None or self.exc_match(exc, self.ev(h.type, fr)):
                        if h.name:
                            self.store_name(h.name, exc, fr)
                        fr.exc.append(exc)
                        try:
                            r = yield from self.gex(h.body, fr)
                        finally:
                            fr.exc.pop()
                            if h.name:
                                fr.locals.pop(h.name, None)
                        break
                else:
                    raise PyRaise(exc)
        except (Unsupported, Diverges, PathEnd):
            raise
        except GeneratorExit:
            # the abstract generator object was discarded; finally blocks run at collection
            raise
        except BaseException:
            if s.finalbody:
                e = sys.exc_info()[1]
                if isinstance(e, PyRaise):
                    fr.exc.append(e.exc)
                try:
                    r2 = yield from self.gex(s.finalbody, fr)
                finally:
                    if isinstance(e, PyRaise):
                        fr.exc.pop()
                if r2 is not None:
                    return r2
            raise
        if s.finalbody:
            r2 = yield from self.gex(s.finalbody, fr)
            if r2 is not None:
                return r2
        return r

    def gwith(self, items, body, fr):
        if not items:
            r = yield from self.gex(body, fr)
            return r
        it = items[0]
        mgr = (yield from self.gev(it.context_expr, fr)) if has_yield(it.context_expr) else self.ev(it.context_expr, fr)
        exit_ = self.get_attr(mgr, '__exit__')
        v = self.call(self.get_attr(mgr, '__enter__'), [])
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, fr)
        try:
            r = yield from self.gwith(items[1:], body, fr)
        except PyRaise as pe:
            fr.exc.append(pe.exc)
            try:
                sup = self.call(exit_, [pe.exc.cls, pe.exc, Opaque('traceback')])
            finally:
                fr.exc.pop()
            if self.truth(sup):
                return None
            raise
        self.call(exit_, [None, None, None])
        return r

    def assign(self, tg, v, fr):
        t = type(tg)
        if t is ast.Name:
            self.store_name(tg.id, v, fr)
        elif t is ast.Attribute:
            self.set_attr(self.ev(tg.value, fr), tg.attr, v)
        elif t is ast.Subscript:
            self.set_item(self.ev(tg.value, fr), self.ev(tg.slice, fr), v)
        elif t in (ast.Tuple, ast.List):
            vals = list(self.iterate(v))
            stars = [i for i, e in enumerate(tg.elts) if isinstance(e, ast.Starred)]
            if stars:
                i = stars[0]
                after = len(tg.elts) - i - 1
                if len(vals) < len(tg.elts) - 1:
                    self.throw('ValueError', 'not enough values to unpack')
                groups = vals[:i] + [vals[i:len(vals) - after]] + vals[len(vals) - after:]
                for e, x in zip(tg.elts, groups):
                    self.assign(e.value if isinstance(e, ast.Starred) else e, x, fr)
                return
            if len(vals) != len(tg.elts):
                self.throw('ValueError', 'unpack mismatch: expected %d values, got %d' % (len(tg.elts), len(vals)))
            for e, x in zip(tg.elts, vals):
                self.assign(e, x, fr)
        elif t is ast.Starred:
            self.assign(tg.value, v, fr)
        else:
            raise Unsupported('assignment target %s' % t.__name__)

    def delete(self, tg, fr):
        if isinstance(tg, ast.Name):
            if fr.kind == 'func' and tg.id in fr.info.globals:
                fr = _ModuleScope(fr.module)
            if tg.id not in fr.locals:
                self.throw('NameError', 'name %r is not defined' % tg.id)
            self.touch(fr.locals)
            del fr.locals[tg.id]
        elif isinstance(tg, ast.Subscript):
            self.del_item(self.ev(tg.value, fr), self.ev(tg.slice, fr))
        elif isinstance(tg, ast.Attribute):
            o = self.ev(tg.value, fr)
            if isinstance(o, Obj) and o.cls.has('__delattr__'):
                self.call(self.bind(o.cls.lookup('__delattr__'), o), [tg.attr])
            elif isinstance(o, Obj) and isinstance(o.cls.lookup(tg.attr), Prop):
                raise Unsupported('del of the property %s' % tg.attr)
            elif isinstance(o, (Cls, Module)) and tg.attr in o.ns:
                self.touch(o.ns)
                del o.ns[tg.attr]
            elif isinstance(o, Obj) and tg.attr in o.attrs:
                self.touch(o.attrs)
                del o.attrs[tg.attr]
            else:
                self.throw('AttributeError', tg.attr)
        elif isinstance(tg, (ast.Tuple, ast.List)):
            for e in tg.elts:
                self.delete(e, fr)
        else:
            raise Unsupported('del target')

    # ---------------------------------------------------------------- yielding expressions
    def gev(self, node, fr):
        if isinstance(node, ValueNode):
            return node.v
        if not has_yield(node):
            return self.ev(node, fr)
        if isinstance(node, ast.Yield):
            v = None
            if node.value is not None:
                v = yield from self.gev(node.value, fr)
            r = yield v
            return r
        if isinstance(node, ast.YieldFrom):
            it = yield from self.gev(node.value, fr)
            if isinstance(it, GenObj):
                sent = None
                exc = None
                while True:
                    try:
                        if exc is not None:
                            v = self.gen_throw(it, exc)
                            exc = None
                        else:
                            v = self.gen_send(it, sent)
                    except PyRaise as pe:
                        if pe.exc.cls.issub(self.exc['StopIteration']):
                            a = pe.exc.attrs.get('args', ())
                            return a[0] if a else None
                        raise
                    try:
                        sent = yield v
                    except PyRaise as pe:
                        exc = pe.exc
            for v in self.iterate(it):
                yield v
            return None
        if isinstance(node, ast.BoolOp):
            v = None
            isand = isinstance(node.op, ast.And)
            for x in node.values:
                v = yield from self.gev(x, fr)
                if self.truth(v) != isand:
                    return v
            return v
        if isinstance(node, ast.IfExp):
            c = yield from self.gev(node.test, fr)
            r = yield from self.gev(node.body if self.truth(c) else node.orelse, fr)
            return r
        if isinstance(node, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp)):
            raise Unsupported('yield inside %s' % type(node).__name__)
        import copy
        n = copy.copy(node)
        n._hy = None
        for f, val in ast.iter_fields(node):
            if isinstance(val, ast.expr):
                if isinstance(val, (ast.Starred,)):
                    v = yield from self.gev(val.value, fr)
                    st = ast.Starred(value=ValueNode(v), ctx=ast.Load())
                    setattr(n, f, st)
                else:
                    v = yield from self.gev(val, fr)
                    setattr(n, f, ValueNode(v))
            elif isinstance(val, list):
                out = []
                for x in val:
                    if isinstance(x, ast.Starred):
                        v = yield from self.gev(x.value, fr)
                        out.append(ast.Starred(value=ValueNode(v), ctx=ast.Load()))
                    elif isinstance(x, ast.expr):
                        v = yield from self.gev(x, fr)
                        out.append(ValueNode(v))
                    elif isinstance(x, ast.keyword):
                        v = yield from self.gev(x.value, fr)
                        out.append(ast.keyword(arg=x.arg, value=ValueNode(v)))
                    else:
                        out.append(x)
                setattr(n, f, out)
        for attr in ('lineno', 'col_offset'):
            if hasattr(node, attr):
                setattr(n, attr, getattr(node, attr))
        n._hy = False
        return self.ev(n, fr)

    # ---------------------------------------------------------------- expressions
    def ev(self, node, fr):
        m = self.E.get(type(node))
        if m is None:
            raise Unsupported('expression %s at %s' % (type(node).__name__, self.where()))
        return m(self, node, fr)

    def e_value(self, n, fr):
        return n.v

    def e_const(self, n, fr):
        return n.value

    def e_name(self, n, fr):
        return self.load_name(n.id, fr)

    def e_attr(self, n, fr):
        v = self.ev(n.value, fr)
        fr.line = getattr(n, 'lineno', fr.line)
        return self.get_attr(v, n.attr)

    def e_call(self, n, fr):
        f = self.ev(n.func, fr)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iterate(self.ev(a.value, fr)))
            else:
                args.append(self.ev(a, fr))
        kw = {}
        for k in n.keywords:
            v = self.ev(k.value, fr)
            if k.arg is None:
                items = v.payload if isinstance(v, Obj) and isinstance(v.payload, dict) else v
                if not isinstance(items, dict):
                    raise Unsupported('** of %r' % (v,))
                for kk, vv in items.items():
                    if kk in kw:
                        self.throw('TypeError', 'got multiple values for keyword argument %r' % kk)
                    kw[kk] = vv
            else:
                if k.arg in kw:
                    self.throw('TypeError', 'got multiple values for keyword argument %r' % k.arg)
                kw[k.arg] = v
        fr.line = getattr(n, 'lineno', fr.line)
        if f is self.builtins['super'] and not args:
            p = fr
            while p is not None and (p.kind != 'func' or p.func is None or p.func.owner is None):
                p = p.parent
            if p is None:
                self.throw('RuntimeError', 'super(): no arguments')
            first = (p.func.node.args.posonlyargs + p.func.node.args.args)[0].arg
            return Super(p.func.owner, p.locals[first])
        if f is self.builtins.get('locals') and not args:
            return dict(fr.locals)
        if f is self.builtins.get('globals'):
            return fr.module.ns
        return self.call(f, args, kw)

    def e_binop(self, n, fr):
        return self.binop(BINOPS[type(n.op)], self.ev(n.left, fr), self.ev(n.right, fr))

    def e_unary(self, n, fr):
        v = self.ev(n.operand, fr)
        t = type(n.op)
        if t is ast.Not:
            if isinstance(v, Cond):
                return v.negate()
            return not self.truth(v)
        if isinstance(v, Cond):
            v = int(self.truth(v))
        if isinstance(v, Poly):
            if t is ast.USub:
                return neg(v)
            if t is ast.UAdd:
                return v
            return sub(neg(v), 1)
        if isinstance(v, Opaque):
            return Opaque('%s(%s)' % (t.__name__, v.name))
        if isinstance(v, Obj):
            return self.call_method(v, {'USub': '__neg__', 'Invert': '__invert__', 'UAdd': '__pos__'}[t.__name__])
        return self.native({ast.USub: _op.neg, ast.UAdd: _op.pos, ast.Invert: _op.invert}[t], v)

    def e_bool(self, n, fr):
        isand = isinstance(n.op, ast.And)
        v = None
        for i, x in enumerate(n.values):
            v = self.ev(x, fr)
            if i == len(n.values) - 1:
                return v
            if self.truth(v) != isand:
                if isinstance(v, Cond):
                    return not isand
                return v
        return v

    def e_compare(self, n, fr):
        left = self.ev(n.left, fr)
        res = True
        for i, (op, c) in enumerate(zip(n.ops, n.comparators)):
            right = self.ev(c, fr)
            res = self.compare_op(op, left, right)
            if i == len(n.ops) - 1:
                return res
            if not self.truth(res):
                return False
            left = right
        return res

    def compare_op(self, op, a, b):
        t = type(op)
        if t in CMPOPS:
            return self.cmp(CMPOPS[t], a, b)
        if t is ast.Is:
            return self.identical(a, b)
        if t is ast.IsNot:
            r = self.identical(a, b)
            return r.negate() if isinstance(r, Cond) else not r
        r = self.contains(b, a)
        if t is ast.NotIn:
            return r.negate() if isinstance(r, Cond) else not r
        return r

    def cmp(self, op, a, b):
        if hasattr(a, 'sa_cmp'):
            return a.sa_cmp(self, op, b, False)
        if hasattr(b, 'sa_cmp'):
            return b.sa_cmp(self, CSWAP[op], a, True)
        if isinstance(a, Obj) and a.payload is not None and not a.cls.has(CDUNDER[op]):
            a = a.payload
        if isinstance(b, Obj) and b.payload is not None and not b.cls.has(CDUNDER[CSWAP[op]]):
            b = b.payload
        if op == '==':
            return self.eq(a, b)
        if op == '!=':
            if isinstance(a, Obj) and a.cls.has('__ne__'):
                return self.call_method(a, '__ne__', [b])
            r = self.eq(a, b)
            return r.negate() if isinstance(r, Cond) else (not r if isinstance(r, bool) else not self.truth(r))
        if isinstance(a, Cond):
            a = int(self.truth(a))
        if isinstance(b, Cond):
            b = int(self.truth(b))
        if isinstance(a, (int, Poly)) and isinstance(b, (int, Poly)):
            return compare(op, a, b)
        if is_concrete(a) and is_concrete(b):
            return self.native(NATIVE_CMP[op], a, b)
        if isinstance(a, Obj) and a.cls.has(CDUNDER[op]):
            return self.call_method(a, CDUNDER[op], [b])
        if isinstance(b, Obj) and b.cls.has(CDUNDER[CSWAP[op]]):
            return self.call_method(b, CDUNDER[CSWAP[op]], [a])
        if isinstance(a, Opaque) or isinstance(b, Opaque) or isinstance(a, (StrV, float)) or isinstance(b, (StrV, float)):
            if a is None or b is None:
                self.throw('TypeError', 'unorderable types')
            return Cond('b', '%s:%r:%r' % (op, a, b))
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and op in ('<', '>', '<=', '>='):
            for x, y in zip(a, b):
                if not self.truth(self.eq(x, y)):
                    return self.cmp(op, x, y)
            return NATIVE_CMP[op](len(a), len(b))
        self.throw('TypeError', '%r not supported between %r and %r' % (op, a, b))

    def contains(self, c, x):
        if isinstance(c, Obj):
            if c.cls.has('__contains__'):
                return self.call_method(c, '__contains__', [x])
            if c.payload is not None:
                return self.contains(c.payload, x)
        if isinstance(c, dict):
            return self.dict_find(c, x) is not _MISSING
        if isinstance(c, range) and isinstance(x, Poly):
            if c.step == 1:
                a, b = compare('>=', x, c.start), compare('<', x, c.stop)
                return self.truth(a) and self.truth(b)
        if isinstance(c, (str,)):
            if isinstance(x, str):
                return x in c
            return Cond('b', 'in:%r:%r' % (x, c))
        if isinstance(c, (Opaque, StrV)):
            return Cond('b', 'in:%r:%r' % (x, c))
        if isinstance(c, (set, frozenset)) and not self.symbolic_key(x):
            try:
                return x in c
            except TypeError:
                self.throw('TypeError', 'unhashable type')
        if isinstance(c, bytes) and isinstance(x, (bytes, int)):
            return x in c
        if isinstance(x, Poly):
            syms = self.base_syms(x)
            items = list(self.iterate(c))
            if items and all(isinstance(i, int) for i in items):
                conds = [compare('==', x, i) for i in items]
                conds = [k for k in conds if k is not False]
                if True in conds:
                    return True
                if not conds:
                    return False
                return Cond('or', tuple(conds))
        for y in self.iterate(c):
            if self.truth(self.eq(y, x)):
                return True
        return False

    def e_subscript(self, n, fr):
        return self.get_item(self.ev(n.value, fr), self.ev(n.slice, fr))

    def e_slice(self, n, fr):
        g = lambda x: None if x is None else self.ev(x, fr)
        return Slice3(g(n.lower), g(n.upper), g(n.step))

    def e_tuple(self, n, fr):
        out = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                out.extend(self.iterate(self.ev(e.value, fr)))
            else:
                out.append(self.ev(e, fr))
        return tuple(out)

    def e_list(self, n, fr):
        return list(self.e_tuple(n, fr))

    def e_set(self, n, fr):
        return set(self.e_tuple(n, fr))

    def e_dict(self, n, fr):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                d.update(self.ev(v, fr))
            else:
                kk = self.ev(k, fr)
                self.dict_set(d, kk, self.ev(v, fr))
        return d

    def dict_set(self, d, k, v):
        kk = self.dict_find(d, k)
        self.touch(d)
        d[k if kk is _MISSING else kk] = v

    def e_ifexp(self, n, fr):
        return self.ev(n.body if self.truth(self.ev(n.test, fr)) else n.orelse, fr)

    def e_lambda(self, n, fr):
        return self.make_func(n, fr)

    def e_joined(self, n, fr):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                parts.append(self.e_formatted(v, fr))
        if all(isinstance(p, str) for p in parts):
            return ''.join(parts)
        return StrV(parts)

    def e_formatted(self, n, fr):
        v = self.ev(n.value, fr)
        spec = self.ev(n.format_spec, fr) if n.format_spec is not None else ''
        if n.conversion == 114:
            v = self.repr_(v)
        elif n.conversion == 115:
            v = self.str_(v)
        return self.format_value(v, spec)

    def e_named(self, n, fr):
        v = self.ev(n.value, fr)
        p = fr
        while p.kind == 'comp':
            p = p.parent
        self.store_name(n.target.id, v, p)
        return v

    def comp(self, n, fr, emit):
        info = self.info_for(n)
        sub = Frame(fr.module, {}, fr, info, fr.func, 'comp')
        sub.line = fr.line
        first = self.ev(n.generators[0].iter, fr)
        if fr.kind == 'class':
            sub.parent = fr.parent

        def rec(i):
            if i == len(n.generators):
                yield emit(sub)
                return
            g = n.generators[i]
            src = first if i == 0 else self.ev(g.iter, sub)
            for v in self.iterate(src):
                self.assign(g.target, v, sub)
                if all(self.truth(self.ev(c, sub)) for c in g.ifs):
                    for x in rec(i + 1):
                        yield x
        return rec(0)

    def e_listcomp(self, n, fr):
        return list(self.comp(n, fr, lambda s: self.ev(n.elt, s)))

    def e_setcomp(self, n, fr):
        return set(self.comp(n, fr, lambda s: self.ev(n.elt, s)))

    def e_dictcomp(self, n, fr):
        d = {}
        for k, v in self.comp(n, fr, lambda s: (self.ev(n.key, s), self.ev(n.value, s))):
            self.dict_set(d, k, v)
        return d

    def e_genexp(self, n, fr):
        return PyIter(self.comp(n, fr, lambda s: self.ev(n.elt, s)))

    # ---------------------------------------------------------------- binary operators
    def binop(self, op, a, b):
        if isinstance(a, Cond):
            if isinstance(b, (Cond, bool)) and op in '&|':
                return Cond('and' if op == '&' else 'or', (a, b)) if isinstance(b, Cond) else \
                    ((a if b else False) if op == '&' else (True if b else a))
            a = int(self.truth(a))
        if isinstance(b, Cond):
            b = int(self.truth(b))
        if isinstance(a, (int, Poly)) and isinstance(b, (int, Poly)):
            return self.int_bin(op, a, b)
        for x, y, pre in ((a, b, '__'), (b, a, '__r')):
            if isinstance(x, Obj):
                m = x.cls.lookup(pre + DUNDER[op] + '__')
                if m is not None:
                    return self.call(Bound(m, x), [y])
        if hasattr(a, 'sa_binop'):
            return a.sa_binop(self, op, b, False)
        if hasattr(b, 'sa_binop'):
            return b.sa_binop(self, op, a, True)
        if op == '%' and isinstance(a, (str, StrV)):
            return self.format_percent(a, b)
        if op == '+' and isinstance(a, (str, StrV)) and isinstance(b, (str, StrV)):
            if isinstance(a, str) and isinstance(b, str):
                return a + b
            pa = a.parts if isinstance(a, StrV) else (a,)
            pb = b.parts if isinstance(b, StrV) else (b,)
            return StrV(pa + pb)
        ba, bb = as_bv(a), as_bv(b)
        if ba is not None and op == '+' and bb is not None:
            return norm_bytes(BytesV(ba.segs + bb.segs, ba.kind))
        if ba is not None and op == '*' and isinstance(b, (int, Poly)) or bb is not None and op == '*' and isinstance(a, (int, Poly)):
            s, n = (ba, b) if ba is not None else (bb, a)
            if isinstance(n, int):
                return norm_bytes(BytesV(s.segs * max(0, n), s.kind))
            if s.concrete() is not None and len(s.concrete()) == 1:
                return BytesV([Opq('fill:%r' % s.concrete(), 0, n)], s.kind)
        if op == '+' and isinstance(a, list) and isinstance(b, list):
            return a + b
        if op == '+' and isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if op == '*' and isinstance(a, (list, tuple)) and isinstance(b, int):
            return a * b
        if op == '*' and isinstance(b, (list, tuple)) and isinstance(a, int):
            return b * a
        if op == '*' and isinstance(a, Cls) and isinstance(b, int) and a.info.get('ctype') is not None:
            return self.ct_array(a, b)
        if op in '|&-^' and isinstance(a, (set, frozenset, dict)) and isinstance(b, (set, frozenset, dict)):
            return self.native(NATIVE_BIN[op], a, b)
        if is_concrete(a) and is_concrete(b):
            return self.native(NATIVE_BIN[op], a, b)
        if isinstance(a, (Opaque,)) or isinstance(b, (Opaque,)) or isinstance(a, float) or isinstance(b, float):
            if a is None or b is None:
                self.throw('TypeError', 'unsupported operand type(s) for %s' % op)
            return Opaque('(%r%s%r)' % (a, op, b))
        if hasattr(a, 'ref_op') or hasattr(b, 'ref_op'):
            return self.ref_binop(op, a, b)
        self.throw('TypeError', 'unsupported operand type(s) for %s: %r and %r' % (op, a, b))

    def need_bytes(self, v):
        if as_bv(v) is None:
            self.throw('TypeError', "a bytes-like object is required, not %r" % (v,))
        return v

    # ---------------------------------------------------------------- functions
    def info_for(self, node):
        i = getattr(node, '_info', None)
        if i is None:
            i = FuncInfo(node)
            node._info = i
        return i

    def make_func(self, node, fr):
        info = self.info_for(node)
        parent = fr if fr.kind in ('func', 'comp') else fr.parent if fr.kind == 'class' else None
        defaults = [self.ev(d, fr) for d in node.args.defaults]
        kwd = {a.arg: self.ev(d, fr) for a, d in zip(node.args.kwonlyargs, node.args.kw_defaults) if d is not None}
        name = getattr(node, 'name', '<lambda>')
        if fr.kind == 'class':
            name = fr.locals['__qualname__'] + '.' + name
        return Func(node, info, fr.module, parent, defaults, kwd, name)

    def bind_args(self, f, args, kw):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        loc = {}
        args = list(args)
        if len(args) > len(names):
            if not a.vararg:
                self.throw('TypeError', '%s() takes %d positional arguments but %d were given' % (f.name, len(names), len(args)))
            loc[a.vararg.arg] = tuple(args[len(names):])
            args = args[:len(names)]
        elif a.vararg:
            loc[a.vararg.arg] = ()
        for n, v in zip(names, args):
            loc[n] = v
        kwnames = names + [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kw.items():
            if k in kwnames and k not in [x.arg for x in a.posonlyargs]:
                if k in loc:
                    self.throw('TypeError', '%s() got multiple values for argument %r' % (f.name, k))
                loc[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                self.throw('TypeError', '%s() got an unexpected keyword argument %r' % (f.name, k))
        if a.kwarg:
            loc[a.kwarg.arg] = extra
        nd = len(f.defaults)
        for i, n in enumerate(names):
            if n not in loc:
                j = i - (len(names) - nd)
                if j < 0:
                    self.throw('TypeError', '%s() missing required argument: %r' % (f.name, n))
                loc[n] = f.defaults[j]
        for x in a.kwonlyargs:
            if x.arg not in loc:
                if x.arg not in f.kwdefaults:
                    self.throw('TypeError', '%s() missing keyword-only argument: %r' % (f.name, x.arg))
                loc[x.arg] = f.kwdefaults[x.arg]
        return loc

    def call(self, f, args=(), kw=None):
        kw = kw or {}
        args = list(args)
        if isinstance(f, Func):
            return self.call_func(f, args, kw)
        if isinstance(f, Native):
            return f.fn(self, args, kw)
        if isinstance(f, Bound):
            return self.call(f.func, [f.self_] + args, kw)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kw)
        if isinstance(f, Opaque):
            self.event('extcall', name=f.name, args=args, kw=kw)
            return Opaque('%s()' % f.name)
        if isinstance(f, Obj):
            m = f.cls.lookup('__call__')
            if m is not None:
                return self.call(self.bind(m, f), args, kw)
        if isinstance(f, (ClassMethod, StaticMethod)):
            return self.call(f.f, args, kw)
        if hasattr(f, 'sa_call'):
            return f.sa_call(self, args, kw)
        self.throw('TypeError', '%r object is not callable' % (f,))

    def call_func(self, f, args, kw):
        loc = self.bind_args(f, args, kw)
        fr = Frame(f.module, loc, f.parent, f.info, f, 'func')
        fr.line = f.node.lineno
        self.stats['calls'] += 1
        if f.module.path and not getattr(f.module, 'prelude', False):
            self.stats['functions'].add('%s:%s' % (f.module.name, f.name))
        if isinstance(f.node, ast.Lambda):
            if f.info.is_gen:
                raise Unsupported('generator lambda')
            self.stack.append(fr)
            try:
                return self.ev(f.node.body, fr)
            finally:
                self.stack.pop()
        if f.info.is_gen:
            g = GenObj(self.gex(f.node.body, fr), f, fr)
            return g
        if len(self.stack) > 150:
            self.throw('RecursionError', 'maximum recursion depth exceeded')
        self.stack.append(fr)
        try:
            r = self.run_plain(self.gex(f.node.body, fr))
        finally:
            self.stack.pop()
        if r is None:
            return None
        return r[1]

    def gen_resume(self, g, fn):
        if g.running:
            self.throw('ValueError', 'generator already executing')
        g.running = True
        g.started = True
        self.stack.append(g.frame)
        try:
            try:
                return fn()
            except StopIteration as e:
                g.done = True
                r = e.value
            except PyRaise as pe:
                g.done = True
                if pe.exc.cls.issub(self.exc['StopIteration']):
                    self.throw('RuntimeError', 'generator raised StopIteration')
                raise
        finally:
            self.stack.pop()
            g.running = False
        v = r[1] if isinstance(r, tuple) else None
        self.throw('StopIteration', *([v] if v is not None else []))

    def gen_send(self, g, v):
        if g.done:
            self.throw('StopIteration')
        if not g.started:
            if v is not None:
                self.throw('TypeError', "can't send non-None value to a just-started generator")
            return self.gen_resume(g, lambda: next(g.pygen))
        return self.gen_resume(g, lambda: g.pygen.send(v))

    def gen_throw(self, g, exc):
        if g.done:
            raise PyRaise(exc)
        if not g.started:
            g.done = True
            raise PyRaise(exc)
        return self.gen_resume(g, lambda: g.pygen.throw(PyRaise(exc)))

    def gen_close(self, g):
        if g.done or not g.started:
            g.done = True
            return
        o = Obj(self.exc['GeneratorExit'], {'args': ()})
        try:
            self.gen_throw(g, o)
        except PyRaise as pe:
            if pe.exc.cls.issub(self.exc['StopIteration']) or pe.exc.cls.issub(self.exc['GeneratorExit']):
                return
            raise
        self.throw('RuntimeError', 'generator ignored GeneratorExit')

    # ---------------------------------------------------------------- classes
    def make_class(self, s, fr):
        bases = [self.ev(b, fr) for b in s.bases]
        for b in bases:
            if isinstance(b, Opaque):
                raise Unsupported('base class %r is outside the model (%s)' % (b, self.where()))
            if not isinstance(b, Cls):
                self.throw('TypeError', 'bad base class %r' % (b,))
        kws = {}
        for kw in s.keywords:
            if kw.arg == 'metaclass' and self.ev(kw.value, fr) is self.T['type']:
                continue
            if kw.arg in (None, 'metaclass'):
                raise Unsupported('class keyword %s of %s' % (kw.arg, s.name))
            kws[kw.arg] = self.ev(kw.value, fr)
        if not bases:
            bases = [self.T['object']]
        q = s.name
        if fr.kind == 'class':
            q = fr.locals['__qualname__'] + '.' + q
        ns = {'__module__': fr.module.name, '__qualname__': q}
        cf = Frame(fr.module, ns, fr if fr.kind in ('func', 'comp') else fr.parent if fr.kind == 'class' else None,
                   self.info_for(s), fr.func, 'class')
        cf.line = s.lineno
        self.stack.append(cf)
        try:
            self.run_plain(self.gex(s.body, cf))
        finally:
            self.stack.pop()
        cls = Cls(q, bases, ns, fr.module)
        cls.node = s
        for v in ns.values():
            fs = [v]
            if isinstance(v, (ClassMethod, StaticMethod)):
                fs = [v.f]
            if isinstance(v, Prop):
                fs = [v.fget, v.fset]
            for x in fs:
                if isinstance(x, Func) and x.owner is None and x.module is fr.module and x.name.startswith(q + '.'):
                    x.owner = cls
        # functions wrapped by decorators still need their owner for zero-argument super()
        for st in s.body:
            if isinstance(st, ast.FunctionDef) and st.decorator_list:
                for g in list(ns.values()):
                    self._own(g, cls, 0)
        self.class_made(cls, kws)
        r = cls
        for d in reversed(s.decorator_list):
            r = self.call(self.ev(d, fr), [r])
        return r

    def class_made(self, cls, kws):
        for n, v in list(cls.ns.items()):
            if isinstance(v, Obj) and v.cls.has('__set_name__'):
                self.call_method(v, '__set_name__', [cls, n])
        if cls.on_subclass:
            cls.on_subclass(self, cls)
        for c in cls.mro[1:]:
            if '__init_subclass__' in c.ns:
                f = c.ns['__init_subclass__']
                self.call(f.f if isinstance(f, (ClassMethod, StaticMethod)) else f, [cls], kws)
                return
        if kws:
            self.throw('TypeError', '%s.__init_subclass__() takes no keyword arguments' % cls.name)

    def _own(self, g, cls, depth):
        if depth > 3:
            return
        if isinstance(g, Func):
            if g.owner is None and g.name.startswith(cls.name + '.'):
                g.owner = cls
            p = g.parent
            while p is not None and p.kind == 'func':
                for v in p.locals.values():
                    if isinstance(v, Func) and v is not g:
                        self._own(v, cls, depth + 1)
                p = None

    def instantiate(self, cls, args, kw):
        if cls.call_hook:
            return cls.call_hook(self, cls, args, kw)
        if cls.node is not None and (cls.issub(self.T['int']) or cls.issub(self.T['str']) or cls.issub(self.T['bytes']) or cls.issub(self.T['float'])):
            raise Unsupported('instances of %s, a subclass of a primitive type' % cls.name)
        new = cls.lookup('__new__')
        if isinstance(new, (Func, StaticMethod)):
            o = self.call(new.f if isinstance(new, StaticMethod) else new, [cls] + list(args), kw)
            if not (isinstance(o, Obj) and o.cls.issub(cls)):
                return o
        else:
            o = self.new_object(cls, args)
        init = cls.lookup('__init__')
        if init is not None:
            self.call(self.bind(init, o), args, kw)
        elif args or kw:
            if not cls.issub(self.exc['BaseException']):
                self.throw('TypeError', '%s() takes no arguments' % cls.name)
        return o

    def object_attr(self, name):
        """the methods of ``object`` that programs call by name"""
        if name == '__new__':
            def new(e, a, k):
                c = a[0]
                if c.call_hook or not isinstance(c, Cls):
                    raise Unsupported('object.__new__(%r)' % (c,))
                return e.new_object(c, a[1:])
            return Native('object.__new__', new)
        if name == '__setattr__':
            def seta(e, a, k):
                e.set_attr(a[0], a[1], a[2], raw=True)
            return Native('object.__setattr__', seta)
        if name == '__delattr__':
            def dela(e, a, k):
                if a[1] not in a[0].attrs:
                    e.throw('AttributeError', a[1])
                e.touch(a[0].attrs)
                del a[0].attrs[a[1]]
            return Native('object.__delattr__', dela)
        if name == '__getattribute__':
            return Native('object.__getattribute__', lambda e, a, k: e.get_attr(a[0], a[1], raw=True))

    def new_object(self, cls, args):
        o = Obj(cls)
        if cls.issub(self.exc['BaseException']):
            o.attrs['args'] = tuple(args)
        for b in cls.mro:
            if b.info.get('payload'):
                o.payload = b.info['payload']()
                break
        return o

    def bind(self, f, o):
        if isinstance(f, (Func, Native)):
            return Bound(f, o)
        if isinstance(f, ClassMethod):
            return Bound(f.f, o.cls if isinstance(o, Obj) else o)
        if isinstance(f, StaticMethod):
            return f.f
        return f

    def call_method(self, o, name, args=(), kw=None):
        return self.call(self.get_attr(o, name), args, kw)

    # ---------------------------------------------------------------- attributes
    def get_attr(self, o, name, default=None, raw=False):
        v = self.get_attr_or_missing(o, name, raw)
        if v is _MISSING:
            if default is not None:
                return default
            if o is None:
                self.throw('AttributeError', "'NoneType' object has no attribute %r" % name)
            self.throw('AttributeError', '%r has no attribute %r' % (o, name))
        return v

    def get_attr_or_missing(self, o, name, raw=False):
        if isinstance(o, Obj):
            if not raw and o.cls.has('__getattribute__'):
                try:
                    return self.call(self.bind(o.cls.lookup('__getattribute__'), o), [name])
                except PyRaise as pe:
                    if not pe.exc.cls.issub(self.exc['AttributeError']):
                        raise
                    if o.cls.has('__getattr__'):
                        return self.call(self.bind(o.cls.lookup('__getattr__'), o), [name])
                    return _MISSING
            if name == '__class__':
                return o.cls
            if name == '__dict__':
                return o.attrs
            hook = o.cls.info_lookup('getattr') if hasattr(o.cls, 'info_lookup') else None
            for c in o.cls.mro:
                h = c.info.get('getattr')
                if h:
                    r = h(self, o, name)
                    if r is not _MISSING:
                        return r
                    break
            cv = _MISSING
            for c in o.cls.mro:
                if name in c.ns:
                    cv = c.ns[name]
                    break
            if isinstance(cv, Prop):
                return self.call(cv.fget, [o])
            if isinstance(cv, Obj) and cv.cls.has('__set__') and cv.cls.has('__get__'):
                return self.call_method(cv, '__get__', [o, o.cls])
            if name in o.attrs:
                return o.attrs[name]
            if cv is not _MISSING:
                if isinstance(cv, Obj) and cv.cls.has('__get__'):
                    return self.call_method(cv, '__get__', [o, o.cls])
                return self.bind(cv, o)
            if o.cls.has('__getattr__') and not raw:
                return self.call(self.bind(o.cls.lookup('__getattr__'), o), [name])
            if o.payload is not None:
                return self.native_attr(o.payload, name)
            return _MISSING
        if isinstance(o, Module):
            v = self.module_attr(o, name)
            if v is _MISSING and not o.external and o.path:
                pass
            return v
        if isinstance(o, Cls):
            if name == '__name__':
                return o.name.rsplit('.', 1)[-1]
            if name == '__mro__':
                return tuple(o.mro)
            if name == 'mro':
                return Native('mro', lambda e, a, k: list(o.mro))
            if name == '__bases__':
                return o.bases
            if name == '__dict__':
                return o.ns
            h = None
            for c in o.mro:
                if name in c.ns:
                    v = c.ns[name]
                    if isinstance(v, ClassMethod):
                        return Bound(v.f, o)
                    if isinstance(v, StaticMethod):
                        return v.f
                    if isinstance(v, Obj) and v.cls.has('__get__'):
                        return self.call_method(v, '__get__', [None, o])
                    return v
            for c in o.mro:
                if c.info.get('cls_getattr'):
                    return c.info['cls_getattr'](self, o, name)
            if name in ('__init__', '__doc__', '__eq__', '__hash__'):
                return Native(name, lambda e, a, k: None)
            r = self.object_attr(name)
            if r is None and not name.startswith('__') and any(c is self.T.get(t) for c in o.mro for t in ('list', 'dict', 'set', 'tuple', 'str', 'bytes', 'bytearray')):
                def unbound(e, a, k):           # list.append(x, item) and the like
                    x = a[0]
                    return e.call(e.native_attr(x.payload if isinstance(x, Obj) else x, name), list(a[1:]), k)
                return Native(name, unbound)
            return _MISSING if r is None else r
        if isinstance(o, Super):
            inst = o.self_
            mro = inst.cls.mro if isinstance(inst, Obj) else inst.mro
            if o.cls not in mro:
                self.throw('TypeError', 'super(type, obj): obj must be an instance or subtype of type')
            for c in mro[mro.index(o.cls) + 1:]:
                if name in c.ns:
                    v = c.ns[name]
                    if isinstance(v, Prop):
                        return self.call(v.fget, [inst])
                    return self.bind(v, inst)
            if isinstance(inst, Obj) and inst.payload is not None:
                return self.native_attr(inst.payload, name)
            if name == '__init__':
                def init(e, a, k, inst=inst):
                    if isinstance(inst, Obj) and inst.cls.issub(e.exc['BaseException']):
                        e.touch(inst.attrs)
                        inst.attrs['args'] = tuple(a)
                    elif a or k:
                        e.throw('TypeError', 'object.__init__() takes exactly one argument')
                    return None
                return Native('object.__init__', init)
            r = self.object_attr(name)
            if r is not None and isinstance(inst, Obj):
                return Native(name, lambda e, a, k, r=r, inst=inst: r.fn(e, [inst] + list(a), k))
            if name == '__new__':
                return self.object_attr(name)
            if name == '__init_subclass__':
                return Native(name, lambda e, a, k: None)
            if name == '__str__' and isinstance(inst, Obj) and inst.cls.issub(self.exc['BaseException']):
                from .lib_py import exc_text
                return Native(name, lambda e, a, k, inst=inst: exc_text(e, inst))
            if name in ('__repr__', '__str__'):
                return Native(name, lambda e, a, k, inst=inst: StrV((e.type_of(inst).name,)))
            return _MISSING
        if isinstance(o, Func):
            if name == '__name__':
                return o.attrs.get('__name__', o.name.rsplit('.', 1)[-1])
            if name == '__doc__':
                return o.attrs.get('__doc__')
            if name == '__module__':
                return o.module.name
            if name == '__dict__':
                return o.attrs
            if name == '__get__':
                return Native('__get__', lambda e, a, k: e.bind(o, a[0]))
            return o.attrs.get(name, _MISSING)
        if isinstance(o, Native):
            if name == '__name__':
                return o.name
            return o.attrs.get(name, _MISSING)
        if isinstance(o, Bound):
            if name == '__self__':
                return o.self_
            if name == '__func__':
                return o.func
            return self.get_attr_or_missing(o.func, name)
        if isinstance(o, Opaque):
            if name in o.attrs:
                return o.attrs[name]
            if o.cls is not None and o.cls.has(name):
                return self.bind(o.cls.lookup(name), o)
            if name in ('__enter__', '__exit__'):
                return Native(name, lambda e, a, k: o if name == '__enter__' else False)
            v = Opaque('%s.%s' % (o.name, name))
            self.touch(o.attrs)
            o.attrs[name] = v
            return v
        if isinstance(o, GenObj):
            return self.gen_attr(o, name)
        if hasattr(o, 'sa_getattr'):
            return o.sa_getattr(self, name)
        return self.native_attr(o, name)

    def gen_attr(self, o, name):
        if name == 'send':
            return Native('send', lambda e, a, k: e.gen_send(o, a[0]))
        if name in ('__next__', 'next'):
            return Native('next', lambda e, a, k: e.gen_send(o, None))
        if name == 'close':
            return Native('close', lambda e, a, k: e.gen_close(o))
        if name == 'throw':
            def thr(e, a, k):
                v = a[0]
                if isinstance(v, Cls):
                    if len(a) > 1 and isinstance(a[1], Obj):
                        v = a[1]
                    else:
                        v = e.call(v, [a[1]] if len(a) > 1 and a[1] is not None else [])
                if not (isinstance(v, Obj) and v.cls.issub(e.exc['BaseException'])):
                    e.throw('TypeError', 'exceptions must be classes or instances deriving from BaseException')
                return e.gen_throw(o, v)
            return Native('throw', thr)
        if name == '__iter__':
            return Native('iter', lambda e, a, k: o)
        if name == 'gi_running':
            return o.running
        if name == 'gi_frame':
            return None if o.done else Opaque('frame', cls=self.T['object'])
        if name == '__name__':
            return o.func.name
        return _MISSING

    def set_attr(self, o, name, v, raw=False):
        if isinstance(o, Obj):
            for c in o.cls.mro:
                h = c.info.get('setattr')
                if h:
                    if h(self, o, name, v):
                        return
                    break
            if not raw and o.cls.has('__setattr__') and not getattr(o, '_raw', False):
                self.call(self.bind(o.cls.lookup('__setattr__'), o), [name, v])
                return
            for c in o.cls.mro:
                if name in c.ns and isinstance(c.ns[name], Prop):
                    if c.ns[name].fset is None:
                        self.throw('AttributeError', "can't set attribute %r" % name)
                    self.call(c.ns[name].fset, [o, v])
                    return
                if name in c.ns:
                    d = c.ns[name]
                    if isinstance(d, Obj) and d.cls.has('__set__'):
                        self.call_method(d, '__set__', [o, v])
                        return
                    break
            self.touch(o.attrs)
            o.attrs[name] = v
            return
        if isinstance(o, Module) or isinstance(o, Cls):
            self.touch(o.ns)
            o.ns[name] = v
            return
        if isinstance(o, (Func, Native, Opaque)):
            self.touch(o.attrs)
            o.attrs[name] = v
            return
        if hasattr(o, 'sa_setattr'):
            return o.sa_setattr(self, name, v)
        self.throw('AttributeError', '%r object has no attribute %r' % (self.type_of(o).name, name))

    def native_attr(self, o, name):
        from . import lib_py
        return lib_py.native_attr(self, o, name)

    # ---------------------------------------------------------------- items
    def get_item(self, o, i):
        from . import lib_py
        return lib_py.get_item(self, o, i)

    def set_item(self, o, i, v):
        from . import lib_py
        return lib_py.set_item(self, o, i, v)

    def del_item(self, o, i):
        from . import lib_py
        return lib_py.del_item(self, o, i)

    def iterate(self, o):
        from . import lib_py
        return lib_py.iterate(self, o)

    def type_of(self, v):
        from . import lib_py
        return lib_py.type_of(self, v)

    def isinstance_(self, v, t):
        if isinstance(t, tuple):
            for x in t:
                if self.isinstance_(v, x):
                    return True
            return False
        if isinstance(v, Opaque) and v.cls is None:
            if isinstance(t, (Cls, Opaque)):
                return self.truth(Cond('b', 'isinstance:%s:%s' % (v.name, t.name)))
        if isinstance(t, Cls):
            if v is None:
                return t in (self.T['NoneType'], self.T['object'])
            return self.type_of(v).issub(t)
        if isinstance(t, Opaque):
            return self.truth(Cond('b', 'isinstance:%r:%s' % (v, t.name)))
        self.throw('TypeError', 'isinstance() arg 2 must be a type or tuple of types')

    # ---------------------------------------------------------------- text
    def repr_(self, v):
        from . import lib_py
        return lib_py.repr_(self, v)

    def str_(self, v):
        from . import lib_py
        return lib_py.str_(self, v)

    def format_value(self, v, spec):
        from . import lib_py
        return lib_py.format_value(self, v, spec)

    def format_percent(self, s, args):
        from . import lib_py
        return lib_py.format_percent(self, s, args)

    # ---------------------------------------------------------------- driver helpers
    def run_source(self, src, name='<driver>', ns=None):
        """interpret a driver/prelude program"""
        m = Module(name, name)
        m.prelude = True
        m.ns.update(ns or {})
        m.ns['__package__'] = 'infi.asi'
        tree = ast.parse(src)
        fr = Frame(m, m.ns, None, None, None, 'module')
        self.stack.append(fr)
        try:
            self.run_plain(self.gex(tree.body, fr))
        finally:
            self.stack.pop()
        return m

    def drive(self, gen):
        """trampoline of the engine: value of an executer operation (last value it yields)"""
        if not isinstance(gen, GenObj):
            return gen
        stack = [gen]
        self.driving.append(stack)
        try:
            return self._drive(stack)
        finally:
            self.driving.pop()

    def _drive(self, stack):
        send, exc = None, None
        while stack:
            self.steps += 1
            if self.steps > self.step_limit:
                self.tick()
            g = stack[-1]
            try:
                if exc is not None:
                    e, exc, send = exc, None, None
                    v = self.gen_throw(g, e)
                else:
                    v = self.gen_send(g, send)
                if isinstance(v, GenObj):
                    stack.append(v)
                    send = None
                elif isinstance(v, Obj) and v.cls.has('get_result'):
                    try:
                        send = self.call_method(v, 'get_result', [], {'block': True})
                    except PyRaise as pe:
                        exc = pe.exc
                else:
                    send = v
            except PyRaise as pe:
                stack.pop()
                if pe.exc.cls.issub(self.exc['StopIteration']):
                    # the caller is resumed with the last value the sub-generator yielded
                    continue
                if not stack:
                    raise
                exc = pe.exc
        return send


class Slice3(object):
    def __init__(self, a, b, c):
        self.start, self.stop, self.step = a, b, c

    def __repr__(self):
        return 'slice(%r, %r, %r)' % (self.start, self.stop, self.step)

    def concrete(self):
        return all(x is None or (isinstance(x, int)) for x in (self.start, self.stop, self.step))

    def py(self):
        return slice(self.start, self.stop, self.step)


class PyIter(object):
    """An analysed iterator (generator expression, iter(), map(), ...)."""

    def __init__(self, it):
        self.it = iter(it)

    def __repr__(self):
        return '<iterator>'


class _Missing(object):
    def __repr__(self):
        return '<missing>'

    def __bool__(self):
        return False


_MISSING = _Missing()
KNOWN_THIRD = {'pkg_resources', 'six', 'setuptools'}

Engine.E = {
    ValueNode: Engine.e_value, ast.Constant: Engine.e_const, ast.Name: Engine.e_name, ast.Attribute: Engine.e_attr,
    ast.Call: Engine.e_call, ast.BinOp: Engine.e_binop, ast.UnaryOp: Engine.e_unary, ast.BoolOp: Engine.e_bool,
    ast.Compare: Engine.e_compare, ast.Subscript: Engine.e_subscript, ast.Slice: Engine.e_slice,
    ast.Tuple: Engine.e_tuple, ast.List: Engine.e_list, ast.Set: Engine.e_set, ast.Dict: Engine.e_dict,
    ast.IfExp: Engine.e_ifexp, ast.Lambda: Engine.e_lambda, ast.JoinedStr: Engine.e_joined,
    ast.FormattedValue: Engine.e_formatted, ast.NamedExpr: Engine.e_named, ast.ListComp: Engine.e_listcomp,
    ast.SetComp: Engine.e_setcomp, ast.DictComp: Engine.e_dictcomp, ast.GeneratorExp: Engine.e_genexp,
}
