"""Shared plumbing of the checks: obligations, reports, evidence, comparison of abstract values."""
import json
import os
import time

from .interp import Engine, PyRaise, Unsupported, Diverges, PathEnd
from .num import Atom, P, Poly, Cond, add, sub, mul, neg, compare, Dom
from .values import *  # noqa

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SA_REPO', '/repo')
PROPS = {}


class Broken(Exception):
    """the analysis cannot be carried out (vanished anchor, unsupported construct)"""


def prop(pid, floor, title=None):
    """floor: number of obligations confirmed by hand on the reference tree; fewer is an analysis error"""
    def deco(fn):
        PROPS[pid] = (fn, floor)
        return fn
    return deco


class Run(object):
    def __init__(self, pid, tier='quick', seed=1):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.obligations = 0
        self.discharged = 0
        self.by_rule = {}
        self.units = {}
        self.violations = {}
        self.known = set()            # keys of recorded findings: they do not end the search
        self.broken = []
        self.samples = []
        self.engines = []
        self.paths = 0
        self.notes = []
        self.budget = 780 if tier != 'thorough' else 7000     # seconds

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def engine(self, platform='linux', **kw):
        e = Engine(REPO, platform, **kw)
        self.engines.append(e)
        return e

    def unit(self, kind, name):
        self.units.setdefault(kind, set()).add(name)

    def ob(self, rule, what, ok, msg=None, key=None, where=None):
        """one obligation: rule (what is required), what (the construct it is required of)"""
        self.obligations += 1
        r = self.by_rule.setdefault(rule, [0, 0])
        r[0] += 1
        if ok:
            self.discharged += 1
            r[1] += 1
            if len(self.samples) < 12 and r[1] == 1:
                self.samples.append({'rule': rule, 'construct': what, 'verdict': 'holds'})
        else:
            k = key or '%s: %s' % (rule, what)
            if k not in self.violations:
                self.violations[k] = {'rule': rule, 'construct': what, 'detail': msg() if callable(msg) else msg,
                                      'where': where}
        return ok

    def alarms(self):
        return any(k not in self.known for k in self.violations)

    def err(self, what, exc):
        m = '%s: %s: %s' % (what, type(exc).__name__, exc)
        if m not in self.broken:
            self.broken.append(m)

    def explore(self, e, fn, what, max_paths=20000, seconds=None):
        """all abstract paths of fn; the analysis is undetermined if one of them cannot be followed"""
        out = []
        now = time.time()
        left = self.t0 + self.budget - now
        if left <= 0:
            self.err('the rest', Unsupported('time budget of the check exhausted'))
            return out
        limit = min(left, seconds or self.budget / 4)
        if self.alarms() or self.broken:
            limit = min(limit, 20)       # the verdict cannot become 'holds' any more: look for more reports, but not for long
        had = self.alarms()
        try:
            for r in e.explore(fn, max_paths=max_paths, deadline=now + limit):
                self.paths += 1
                out.append(r)
                oob = next((v for v in e.events if v['kind'] == 'oob'), None)
                if type(r) is tuple and r[:1] == ('wrecked',):
                    self.ob('memory is reached through addresses of buffers', what, False, '%s (%s)' % (r[1], doms(e)))
                elif oob is not None:
                    self.ob('no access outside a buffer', what, False, 'access beyond %s at %s (%s)' % (oob['mem'].label, oob['where'], doms(e)))
                if not had and self.alarms():
                    had = True
                    e.deadline = min(e.deadline, time.time() + 20)
                    self.budget = min(self.budget, time.time() - self.t0 + 40)
        except Diverges as x:
            self.ob('the operation ends', what, False, str(x))
        except (Unsupported, RecursionError) as x:
            self.err(what, x)
        return out


# ------------------------------------------------------------------ comparison of abstract values (inside a path)
def eq_int(e, a, b):
    """True iff a == b on this path (forks when undecided, so that a feasible difference shows on one path)"""
    if isinstance(a, Cond):
        a = int(e.truth(a))
    if isinstance(b, Cond):
        b = int(e.truth(b))
    if isinstance(a, bool):
        a = int(a)
    if not isinstance(a, (int, Poly)) or not isinstance(b, (int, Poly)):
        return False
    if not isinstance(a, Poly) and not isinstance(b, Poly):
        return a == b
    if a == b:
        return True
    a, b = e.pinned(a), e.pinned(b)
    if a == b:
        return True
    if not isinstance(a, Poly) and not isinstance(b, Poly):
        return a == b
    for n in (8, 16, 32, 64, 128):
        la, ha = e.interval(a)
        lb, hb = e.interval(b)
        if None not in (la, ha, lb, hb) and la >= 0 and lb >= 0 and max(ha, hb) < 1 << n:
            x, y = e.bits_of(a, n), e.bits_of(b, n)
            if x == y:
                return True
            break
    return e.truth(compare('==', a, b))


def bit_eq(e, x, y):
    """two bits (0, 1, or (atom, index))"""
    if x == y:
        return True
    a, b = e.mk_bits([x]), e.mk_bits([y])
    return e.truth(compare('==', a, b))


def eq_bytes(e, a, b):
    a, b = as_bv(a), as_bv(b)
    if a is None or b is None:
        return False
    if a.segs == b.segs:
        return True
    if not eq_int(e, a.length(), b.length()):
        return False
    x, y = a.cells(), b.cells()
    if x is None or y is None:
        # same source windows, possibly described by different but equal bounds
        if len(a.segs) == len(b.segs):
            for s, t in zip(a.segs, b.segs):
                if isinstance(s, list) and isinstance(t, list):
                    if len(s) != len(t) or not all(eq_int(e, p, q) for p, q in zip(s, t)):
                        return False
                elif isinstance(s, Opq) and isinstance(t, Opq):
                    if s.src != t.src or not eq_int(e, s.start, t.start) or not eq_int(e, s.stop, t.stop):
                        return False
                else:
                    return False
            return True
        return False
    return len(x) == len(y) and all(eq_int(e, p, q) for p, q in zip(x, y))


def show(v):
    if isinstance(v, PyRaise):
        v = v.exc
    if isinstance(v, Obj) and v.cls is not None and v.cls.has('args'):
        return '%s%r' % (v.cls.name, v.attrs.get('args', ()))
    return repr(v)


def doms(e):
    return ', '.join('%s in %r' % (a, d) for a, d in list(e.doms.items())[:8])


def load_attr(e, mod, name):
    try:
        m = e.load(mod)
    except PyRaise as x:
        raise Broken('module %s does not load: %s' % (mod, show(x)))
    v = e.get_attr_or_missing(m, name)
    from .interp import _MISSING
    if v is _MISSING:
        raise Broken('vanished anchor: %s.%s' % (mod, name))
    return v


def native_obj(e, name, methods, attrs=None, base='object'):
    c = Cls(name, [e.T[base] if isinstance(base, str) else base], {})
    o = Obj(c, dict(attrs or {}))
    for k, f in methods.items():
        o.attrs[k] = Native(k, f)
    return o


def exc_is(e, x, *names):
    """does the abstract exception belong to one of these classes (by name anywhere in its mro)"""
    return any(c.name in names for c in x.cls.mro)
