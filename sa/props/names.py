"""E05, P01: every name, export, import, attribute and call signature resolves, on every platform."""
import ast
import builtins
import collections
import threading
import os
import symtable
from ..core import *
from ..core import Broken
from ..values import ClassMethod, StaticMethod
from ..interp import _MISSING

PKG = os.path.join('src', 'infi', 'asi')
HOME = {'infi.asi.linux': ('linux',), 'infi.asi.unix': ('linux', 'solaris', 'aix'), 'infi.asi.solaris': ('solaris',),
        'infi.asi.aix': ('aix',), 'infi.asi.win32': ('windows',)}
ALL = ('linux', 'solaris', 'aix', 'windows')
BUILTIN = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__package__', '__path__', '__builtins__', '__spec__', '__loader__'}


def package_modules():
    """(module name, path) of every source file of the package"""
    base = os.path.join(REPO, PKG)
    out = []
    for d, dirs, files in os.walk(base):
        dirs[:] = sorted(x for x in dirs if x != '__pycache__')
        for f in sorted(files):
            if f.endswith('.py'):
                p = os.path.join(d, f)
                rel = os.path.relpath(p, os.path.join(REPO, 'src'))[:-3].split(os.sep)
                if rel[-1] == '__init__':
                    rel.pop()
                out.append(('.'.join(rel), p))
    if not out:
        raise Broken('vanished anchor: no package at %s' % base)
    return out


def engines(run):
    return {pl: run.engine(pl) for pl in ALL}


def load_all(run, es, rule, which=None):
    """loads the package's modules; {(module, platform): Module}"""
    mods = {}
    for name, path in package_modules():
        if which is not None and not which(name):
            continue
        for pl in HOME.get(name, ALL):
            e = es[pl]
            got = []

            def path_():
                try:
                    e.load(name)
                    got.append(None)
                except PyRaise as x:
                    got.append((show(x), '; '.join(x.trace[-2:]) if getattr(x, 'trace', None) else ''))
            # outside explore: the modules stay loaded for the passes below
            try:
                path_()
            except Unsupported as x:
                run.err('%s on %s' % (name, pl), x)
                continue
            run.unit('modules', name)
            ok = run.ob(rule, '%s on %s' % (name, pl), got[0] is None, lambda: 'import raises %s %s' % got[0], where=path)
            if ok:
                mods[name, pl] = e.modules[name]
    return mods


# --------------------------------------------------------------------------------------------------- scopes
class Scope(object):
    """a function, lambda or comprehension of the syntax tree"""

    def __init__(self, node, parent, cls, qual):
        self.node, self.parent, self.cls, self.qual = node, parent, cls, qual
        self.locals, self.globals_, self.nonlocals = set(), set(), set()
        self.imports = {}


FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)
COMPS = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


def binding_names(target):
    for n in ast.walk(target):
        if isinstance(n, ast.Name):
            yield n.id


def collect(node, scope):
    """names bound in a scope (not in nested scopes)"""
    for n in ast.iter_child_nodes(node):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            scope.locals.add(n.name)
            for d in n.decorator_list:
                collect_expr(d, scope)
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, COMPS):
            for w in ast.walk(n):
                if isinstance(w, ast.NamedExpr):
                    scope.locals.add(w.target.id)
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            scope.locals.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                nm = a.asname or a.name.split('.')[0]
                scope.locals.add(nm)
                scope.imports.setdefault(nm, []).append((n, a))
        elif isinstance(n, ast.ExceptHandler) and n.name:
            scope.locals.add(n.name)
        elif isinstance(n, ast.Global):
            scope.globals_.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            scope.nonlocals.update(n.names)
        collect(n, scope)


def collect_expr(node, scope):
    for n in ast.walk(node):
        if isinstance(n, ast.NamedExpr):
            scope.locals.add(n.target.id)


def scopes_of(tree):
    """(scope, class path) of every function-like scope"""
    out = []

    def walk(node, parent, cls, qual):
        for n in ast.iter_child_nodes(node):
            if isinstance(n, ast.ClassDef):
                for d in n.decorator_list + n.bases + [k.value for k in n.keywords]:
                    walk(ast.Expression(d), parent, cls, qual)
                walk(ast.Module(n.body, []), parent, (cls or ()) + (n.name,) if parent is None else ('?',), qual + n.name + '.')
            elif isinstance(n, FUNCS) or isinstance(n, COMPS):
                nm = getattr(n, 'name', '<%s>' % type(n).__name__.lower())
                s = Scope(n, parent, cls, qual + nm)
                if isinstance(n, FUNCS):
                    a = n.args
                    for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
                        s.locals.add(x.arg)
                    collect(ast.Module(n.body, []) if isinstance(n.body, list) else ast.Expression(n.body), s)
                    for x in a.defaults + [y for y in a.kw_defaults if y] + getattr(n, 'decorator_list', []):
                        walk(ast.Expression(x), parent, cls, qual)
                    s.locals -= s.globals_ | s.nonlocals
                    out.append(s)
                    walk(ast.Module(n.body, []) if isinstance(n.body, list) else ast.Expression(n.body), s, cls, s.qual + '.')
                else:
                    for g in n.generators:
                        s.locals.update(binding_names(g.target))
                    out.append(s)
                    walk(n, s, cls, s.qual + '.')
            else:
                walk(n, parent, cls, qual)
    walk(tree, None, None, '')
    return out


def own_nodes(scope):
    """the nodes evaluated in a scope itself"""
    n = scope.node
    if isinstance(n, ast.Lambda):
        roots = [n.body]
    elif isinstance(n, FUNCS):
        roots = list(n.body)
    else:
        roots = list(ast.iter_child_nodes(n))
    work = list(roots)
    while work:
        x = work.pop()
        yield x
        if isinstance(x, FUNCS):
            a = x.args
            work += a.defaults + [y for y in a.kw_defaults if y] + getattr(x, 'decorator_list', [])
            continue
        if isinstance(x, ast.ClassDef):
            work += x.decorator_list + x.bases
            continue
        if isinstance(x, COMPS):
            continue
        work += list(ast.iter_child_nodes(x))


def resolves_locally(scope, name):
    s = scope
    while s is not None:
        if name in s.globals_:
            return None
        if name in s.locals:
            return s
        s = s.parent
    return None


# ------------------------------------------------------------------------------------ unassigned local variables
class Flow(object):
    """which names may have been bound before each use: a use no binding reaches is an UnboundLocalError"""

    def __init__(self, scope):
        self.scope, self.bad = scope, []
        self.comp = []

    def run(self):
        n = self.scope.node
        a = n.args
        env = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
        if isinstance(n.body, list):
            self.block(n.body, env)
        return self.bad

    def stores(self, nodes):
        s = Scope(None, None, None, '')
        collect(ast.Module(list(nodes), []), s)
        return s.locals

    def expr(self, e, env, bound=frozenset()):
        """env is updated with names bound inside the expression"""
        if e is None:
            return
        if isinstance(e, FUNCS):
            return
        if isinstance(e, COMPS):
            b = set(bound)
            for g in e.generators:
                self.expr(g.iter, env, frozenset(b))
                b.update(binding_names(g.target))
                for c in g.ifs:
                    self.expr(c, env, frozenset(b))
            for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                self.expr(x, env, frozenset(b))
            return
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load):
                if e.id in self.scope.locals and e.id not in env and e.id not in bound:
                    self.bad.append(e)
            elif isinstance(e.ctx, ast.Store):
                env.add(e.id)
            return
        if isinstance(e, ast.NamedExpr):
            self.expr(e.value, env, bound)
            env.add(e.target.id)
            return
        for c in ast.iter_child_nodes(e):
            self.expr(c, env, bound)

    def block(self, body, env):
        """names possibly bound after the block; None if its end is unreachable"""
        for s in body:
            env = self.stmt(s, env)
            if env is None:
                return None
        return env

    def join(self, *envs):
        envs = [x for x in envs if x is not None]
        if not envs:
            return None
        r = set()
        for x in envs:
            r |= x
        return r

    def stmt(self, s, env):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            for d in s.decorator_list:
                self.expr(d, env)
            return env | {s.name}
        if isinstance(s, (ast.Return, ast.Raise)):
            for c in ast.iter_child_nodes(s):
                self.expr(c, env)
            return None
        if isinstance(s, (ast.Break, ast.Continue)):
            return None
        if isinstance(s, ast.If):
            self.expr(s.test, env)
            return self.join(self.block(s.body, set(env)), self.block(s.orelse, set(env)))
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            self.expr(s.iter if hasattr(s, 'iter') else s.test, env)
            inner = set(env) | self.stores(s.body) | (set(binding_names(s.target)) if hasattr(s, 'target') else set())
            first = set(env) | (set(binding_names(s.target)) if hasattr(s, 'target') else set())
            # names bound only later in the body may be bound from an earlier iteration
            self.block(s.body, inner)
            out = inner | first
            r = self.block(s.orelse, set(out))
            if isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value and \
                    not any(isinstance(x, ast.Break) for x in ast.walk(s)):
                return None
            return self.join(out, r)
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.expr(i.context_expr, env)
                self.expr(i.optional_vars, env)
            after = self.block(s.body, set(env))
            # the context manager may suppress an exception raised anywhere in the body
            return self.join(after, env | self.stores(s.body))
        if isinstance(s, ast.Try) or type(s).__name__ == 'TryStar':
            pre = set(env)
            body = self.block(s.body, set(env))
            mid = pre | self.stores(s.body)
            outs = [self.block(s.orelse, set(body)) if body is not None else None]
            for h in s.handlers:
                he = set(mid)
                self.expr(h.type, he)
                if h.name:
                    he.add(h.name)
                outs.append(self.block(h.body, he))
            r = self.join(*outs)
            if s.finalbody:
                fe = mid | self.stores(s.orelse) | (r or set())
                for h in s.handlers:
                    fe |= self.stores(h.body)
                f = self.block(s.finalbody, set(fe))
                if f is None or r is None:
                    return None if r is None and f is not None or f is None else f
                return r | self.stores(s.finalbody)
            return r
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    env = env - {t.id}
                else:
                    self.expr(t, env)
            return env
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            return env | {a.asname or a.name.split('.')[0] for a in s.names}
        if isinstance(s, ast.Assign):
            self.expr(s.value, env)
            for t in s.targets:
                self.expr(t, env)
            return env
        if isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name) and s.target.id in self.scope.locals and s.target.id not in env:
                self.bad.append(s.target)
            self.expr(s.value, env)
            self.expr(s.target, env)
            return env
        if isinstance(s, ast.AnnAssign):
            self.expr(s.value, env)
            if s.value is not None:
                self.expr(s.target, env)
            return env
        if type(s).__name__ == 'Match':
            self.expr(s.subject, env)
            return env | self.stores(s.cases)
        for c in ast.iter_child_nodes(s):
            self.expr(c, env)
        return env


# ------------------------------------------------------------------------------------------------ signatures
def binds(func, call, skip):
    """None if the call binds to the function's parameters, else why not"""
    a = func.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    npos = len(call.args)
    star = any(isinstance(x, ast.Starred) for x in call.args)
    dstar = any(k.arg is None for k in call.keywords)
    if star:
        npos = sum(not isinstance(x, ast.Starred) for x in call.args)
    if npos + skip > len(pos) and not a.vararg:
        return 'takes %d positional arguments, %d given' % (len(pos) - skip, npos)
    given = set(pos[:npos + skip])
    kwonly = {x.arg for x in a.kwonlyargs}
    for k in call.keywords:
        if k.arg is None:
            continue
        if k.arg in given:
            return 'multiple values for argument %r' % k.arg
        if k.arg not in pos and k.arg not in kwonly and not a.kwarg:
            return 'unexpected keyword argument %r' % k.arg
        given.add(k.arg)
    if not star and not dstar:
        nd = len(a.defaults)
        need = pos[:len(pos) - nd] if nd else pos
        missing = [x for x in need if x not in given]
        missing += [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None and x.arg not in given]
        if missing:
            return 'missing arguments %s' % ', '.join(missing)
    return None


def class_of(mod, path):
    """the abstract class of a ClassDef path at module level"""
    ns, v = mod.ns, None
    for p in path:
        v = ns.get(p)
        if not isinstance(v, Cls):
            return None
        ns = v.ns
    return v


def from_repo(e, cls):
    return isinstance(cls, Cls) and cls.name and any(True for _ in [0])


def ctor(cls):
    for k in cls.mro:
        if '__init__' in k.ns:
            v = k.ns['__init__']
            return v if isinstance(v, Func) else None
        if '__new__' in k.ns or k.call_hook is not None and k is cls:
            return None
    return None


def after(cls, owner):
    if owner in cls.mro:
        return cls.mro[cls.mro.index(owner) + 1:]
    return ()


def stored_attributes(trees):
    out = set()
    for t in trees:
        for n in ast.walk(t):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                out.add(n.attr)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and len(n.args) > 1:
                if isinstance(n.args[1], ast.Constant):
                    out.add(n.args[1].value)
    return out


def instance_names(e, cls, cache={}):
    """attribute names of structure instances; None if they cannot be enumerated"""
    key = (id(e), id(cls))
    if key not in cache:
        names = set()
        for k in cls.mro:
            names |= set(k.ns)
        if '_container_' in names:
            o = Obj(cls)
            try:
                e.call_method(cls.lookup('_container_'), 'prepare_instance', [o, (), {}])
                names |= set(o.attrs)
            except (PyRaise, Unsupported):
                names = None
        cache[key] = names
    return cache[key]


@prop('E05', 3000)
def e05(run):
    es = engines(run)
    mods = load_all(run, es, 'every module loads on its platforms')
    trees = {name: (ast.parse(open(p, 'rb').read(), p), p) for name, p in package_modules()}
    stored = stored_attributes(t for t, _ in trees.values())
    # attributes of objects that are created by modelled libraries
    for (name, pl), m in sorted(mods.items()):
        e = es[pl]
        tree, path = trees[name]
        rel = os.path.relpath(path, REPO)
        ctx = ' on %s' % pl if name in HOME and len(HOME[name]) > 1 or name not in HOME else ''

        def at(n):
            return '%s:%d' % (rel, n.lineno)
        # exports
        if isinstance(m.ns.get('__all__'), (list, tuple)):
            for x in m.ns['__all__']:
                run.ob('every exported name exists', '%s.%s' % (name, x), isinstance(x, str) and (x in m.ns or
                       '%s.%s' % (name, x) in trees), '%s lists %r in __all__ but does not define it' % (rel, x))
        scopes = scopes_of(tree)
        assigned_globals = set()
        for s in scopes:
            assigned_globals |= s.globals_
        for s in scopes:
            run.unit('scopes', '%s:%s' % (rel, s.qual))
            cls = class_of(m, s.cls) if s.cls and '?' not in s.cls else None
            top = s
            while top.parent is not None:
                top = top.parent
            method = isinstance(top.node, (ast.FunctionDef, ast.AsyncFunctionDef)) and cls is not None and top.cls == s.cls
            selfname = None
            if method and top.node.args.args and not any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in top.node.decorator_list):
                selfname = top.node.args.args[0].arg
            for n in own_nodes(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                    if resolves_locally(s, n.id) is None:
                        run.ob('every global name is defined', '%s: %s in %s' % (rel, n.id, s.qual),
                               n.id in m.ns or n.id in BUILTIN or n.id in assigned_globals,
                               '%s: name %r is not defined%s (in %s)' % (at(n), n.id, ctx, s.qual), where=at(n))
                elif isinstance(n, ast.ImportFrom):
                    check_import(run, es, e, m, n, rel, s, at)
                elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                    check_attribute(run, e, m, s, n, cls, selfname, stored, rel, at)
                elif isinstance(n, ast.Call):
                    check_call(run, es, e, m, s, n, cls, selfname, stored, rel, at)
            if isinstance(s.node, (ast.FunctionDef, ast.AsyncFunctionDef)):
                bad = Flow(s).run()
                run.ob('every local variable is bound before it is used', '%s: %s' % (rel, s.qual), not bad,
                       lambda: '%s: local variable %r is used where no assignment reaches (in %s)' % (at(bad[0]), bad[0].id, s.qual))
    # structure field references
    seen = set()
    for pl in ALL:
        for attr, where in es[pl].opts.get('self_refs', []):
            p = where.split(' ')[0]
            if (attr, p) in seen:
                continue
            seen.add((attr, p))
            f, line = p.rsplit(':', 1)
            for (name, q), m in mods.items():
                tree, path = trees[name]
                if os.path.relpath(path, REPO) != f:
                    continue
                best = None
                for n in ast.walk(tree):
                    if isinstance(n, ast.ClassDef) and n.lineno <= int(line) <= n.end_lineno:
                        best = n
                k = m.ns.get(best.name) if best is not None else None
                if isinstance(k, Cls):
                    run.ob('every structure field reference exists', '%s %s.%s' % (f, best.name, attr),
                           k.lookup(attr) is not None or any(attr in c.ns for c in k.mro) or attr in stored,
                           '%s: %s has no field %r' % (p, best.name, attr))
                break


def check_import(run, es, e, m, n, rel, s, at):
    if n.level:
        base = e.resolve_relative(m, n.level, n.module)
    else:
        base = n.module
    if not base.startswith('infi.asi'):
        return
    pls = HOME.get(base, (e.platform,))
    for pl in pls:
        try:
            t = es[pl].load(base)
        except PyRaise as x:
            run.ob('every local import resolves', '%s: %s in %s' % (rel, base, s.qual), False, '%s: %s on %s' % (at(n), show(x), pl))
            continue
        for a in n.names:
            if a.name == '*':
                continue
            ok = es[pl].module_attr(t, a.name) is not _MISSING or es[pl].find_module(base + '.' + a.name) is not None
            run.ob('every local import resolves', '%s: %s.%s in %s' % (rel, base, a.name, s.qual), ok,
                   '%s: cannot import %r from %s (in %s)' % (at(n), a.name, base, s.qual), where=at(n))


def check_attribute(run, e, m, s, n, cls, selfname, stored, rel, at):
    v = n.value
    if not isinstance(v, ast.Name):
        return
    if selfname is not None and v.id == selfname and cls is not None:
        names = instance_names(e, cls)
        if names is None:
            return
        ok = n.attr in names or n.attr in stored or n.attr.startswith('__') or \
            e.get_attr_or_missing(cls, n.attr) is not _MISSING or cls.has('__getattr__') or is_structure(e, cls, n.attr) or \
            defined_in_subclass(e, m, cls, n.attr) or from_builtin_base(cls, n.attr)
        run.ob('every attribute of self exists', '%s: self.%s in %s' % (rel, n.attr, s.qual), ok,
               '%s: %s has no attribute %r (in %s)' % (at(n), cls.name, n.attr, s.qual), where=at(n))
        return
    if resolves_locally(s, v.id) is None and v.id in m.ns:
        o = m.ns[v.id]
        if isinstance(o, Module) and o.name.startswith('infi.asi') or isinstance(o, Cls) and own_class(e, o):
            if isinstance(o, Cls) and is_structure(e, o, n.attr):
                return
            ok = e.get_attr_or_missing(o, n.attr) is not _MISSING or n.attr.startswith('__') or n.attr in stored
            run.ob('every attribute of a module or class exists', '%s: %s.%s in %s' % (rel, v.id, n.attr, s.qual), ok,
                   '%s: %s has no attribute %r (in %s)' % (at(n), v.id, n.attr, s.qual), where=at(n))
        elif isinstance(o, Module):
            run.ob('every attribute of a module or class exists', '%s: %s.%s in %s' % (rel, v.id, n.attr, s.qual),
                   e.get_attr_or_missing(o, n.attr) is not _MISSING, '%s: module %s has no attribute %r' % (at(n), o.name, n.attr), where=at(n))


def own_class(e, k):
    return any(isinstance(x, (Func, ClassMethod, StaticMethod, Prop)) for x in k.ns.values()) or not any(
        x in e.T.values() for x in k.mro[:1])


def from_builtin_base(cls, attr):
    """inherited from a class of the standard library"""
    for k in cls.mro:
        if any(isinstance(x, Func) and x.module is not None and x.module.name.startswith('infi.asi') for x in k.ns.values()):
            continue
        for lib in (builtins, collections, threading):
            t = getattr(lib, k.name, None)
            if isinstance(t, type) and hasattr(t, attr):
                return True
    return False


def is_structure(e, cls, attr):
    """a field of a ctypes structure"""
    from .. import lib_ctypes as lc
    try:
        t = lc.ct(cls)
    except Exception:
        return False
    return bool(t) and attr in (t.get('fields') or {})


def defined_in_subclass(e, m, cls, attr):
    """template methods: some subclass anywhere in the package provides it"""
    for mod in e.modules.values():
        if mod.name.startswith('infi.asi'):
            for k in mod.ns.values():
                if isinstance(k, Cls) and cls in k.mro and k is not cls and any(attr in c.ns for c in k.mro):
                    return True
    return False


def check_call(run, es, e, m, s, n, cls, selfname, stored, rel, at):
    f = n.func
    target, skip, label = None, 0, None
    if isinstance(f, ast.Name):
        sc = resolves_locally(s, f.id)
        v = None
        if sc is None:
            v = m.ns.get(f.id)
        elif f.id in sc.imports and len(sc.imports[f.id]) == 1:
            imp, a = sc.imports[f.id][0]
            if isinstance(imp, ast.ImportFrom):
                base = e.resolve_relative(m, imp.level, imp.module) if imp.level else imp.module
                if base.startswith('infi.asi'):
                    en = es[HOME.get(base, (e.platform,))[0]]
                    try:
                        v = en.load(base).ns.get(a.name)
                    except PyRaise:
                        v = None
        label = f.id
        if isinstance(v, Func):
            target = v
        elif isinstance(v, Cls):
            target, skip = ctor(v), 1
    elif isinstance(f, ast.Attribute):
        label = ast.unparse(f) if len(ast.unparse(f)) < 60 else f.attr
        v = None
        if isinstance(f.value, ast.Name) and selfname == f.value.id and cls is not None and f.attr not in stored:
            v = cls.lookup(f.attr)
            skip = 1
        elif isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super' and cls is not None:
            own = cls
            if f.value.args and isinstance(f.value.args[0], ast.Name):
                own = m.ns.get(f.value.args[0].id)
                run.ob('super() names a class of the method', '%s: %s' % (rel, s.qual), isinstance(own, Cls) and own in cls.mro,
                       '%s: super(%s, ...) in a method of %s' % (at(n), f.value.args[0].id, cls.name), where=at(n))
            if isinstance(own, Cls) and own in cls.mro:
                for k in after(cls, own):
                    if f.attr in k.ns:
                        v = k.ns[f.attr]
                        break
            skip = 1
        elif isinstance(f.value, ast.Name) and resolves_locally(s, f.value.id) is None:
            o = m.ns.get(f.value.id)
            if isinstance(o, Module) and o.name.startswith('infi.asi'):
                v = o.ns.get(f.attr)
            elif isinstance(o, Cls):
                v = o.lookup(f.attr)
        if isinstance(v, ClassMethod):
            v, skip = v.f, 1
        elif isinstance(v, StaticMethod):
            v, skip = v.f, 0
        if isinstance(v, Func):
            target = v
        elif isinstance(v, Cls):
            target, skip = ctor(v), 1
    if not isinstance(target, Func) or target.module is None or not target.module.name.startswith('infi.asi'):
        return
    why = binds(target, n, skip)
    run.ob('every call matches the signature it resolves to', '%s: %s in %s' % (rel, label, s.qual), why is None,
           '%s: %s(): %s (in %s)' % (at(n), label, why, s.qual), where=at(n))


@prop('P01', 100)
def p01(run):
    es = engines(run)
    for pl in ALL:
        es[pl].events = []
    load_all(run, es, 'a platform-independent module loads on every platform', lambda n: n not in HOME)
    for pl in ALL:
        e = es[pl]
        for name in sorted(e.modules):
            if name in HOME:
                run.ob("no other platform's module is loaded", '%s on %s' % (name, pl), pl in HOME[name],
                       'loading the platform-independent modules on %s loads %s' % (pl, name))
        bad = [ev for ev in e.events if ev['kind'] == 'dlopen' or ev['kind'] == 'ext' and str(ev.get('name', '')).startswith(('libc.', 'kernel32.'))]
        run.ob('importing does not touch system libraries', pl, not bad, lambda: '%s at %s' % (bad[0].get('name'), bad[0].get('where')))
    # the package initialiser must not depend on an optional library
    for pl in ALL:
        e = run.engine(pl, gevent=True)
        for name, path in package_modules():
            if name in HOME and pl not in HOME[name]:
                continue
            try:
                e.load(name)
                ok, why = True, None
            except PyRaise as x:
                ok, why = False, show(x)
            run.ob('every module loads with gevent installed', '%s on %s' % (name, pl), ok, why)
