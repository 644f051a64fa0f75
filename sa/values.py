"""Abstract values other than integers."""
from .num import *


class Unsupported(Exception):
    """The analysis met something it has no transfer function for: no verdict."""


class Diverges(Exception):
    """A path exceeded the step budget."""


class PathEnd(Exception):
    """The driver ends this path (infeasible or uninteresting)."""


class Wrecked(PathEnd):
    """The analysed program uses an address that names no buffer: anything may happen from here on."""


class PyRaise(Exception):
    def __init__(self, exc, trace=None):
        Exception.__init__(self, repr(exc))
        self.exc = exc
        self.trace = trace


class Cls(object):
    def __init__(self, name, bases=(), ns=None, module=None, engine=None):
        self.name, self.bases, self.ns, self.module = name, tuple(bases), ns if ns is not None else {}, module
        self.mro = self._mro()
        self.node = None
        self.call_hook = None     # native constructor
        self.on_subclass = None
        for b in self.mro[1:]:
            if b.call_hook and not self.call_hook:
                self.call_hook = b.call_hook
            if b.on_subclass and not self.on_subclass:
                self.on_subclass = b.on_subclass
        self.info = {}

    def _mro(self):
        seqs = [list(b.mro) for b in self.bases] + [list(self.bases)]
        out = [self]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                return out
            for s in seqs:
                c = s[0]
                if not any(c in t[1:] for t in seqs):
                    break
            else:
                raise Unsupported('inconsistent mro for %s' % self.name)
            out.append(c)
            for s in seqs:
                if s[0] is c:
                    del s[0]

    def lookup(self, name):
        for c in self.mro:
            if name in c.ns:
                return c.ns[name]
        return None

    def has(self, name):
        return any(name in c.ns for c in self.mro)

    def issub(self, other):
        return other in self.mro

    def __repr__(self):
        return "<class %s>" % self.name


class Obj(object):
    __slots__ = ('cls', 'attrs', 'payload', 'trace', 'uid')
    counter = [0]

    def __init__(self, cls, attrs=None, payload=None):
        self.cls, self.attrs, self.payload = cls, attrs if attrs is not None else {}, payload
        self.trace = None
        Obj.counter[0] += 1
        self.uid = Obj.counter[0]

    def __repr__(self):
        extra = ''
        if 'args' in self.attrs:
            extra = repr(self.attrs['args'])
        return '<%s%s>' % (self.cls.name, extra)


class Func(object):
    def __init__(self, node, info, module, parent, defaults, kwdefaults, qualname):
        self.node, self.info, self.module, self.parent = node, info, module, parent
        self.defaults, self.kwdefaults, self.name = defaults, kwdefaults, qualname
        self.owner = None
        self.attrs = {}

    def __repr__(self):
        return '<function %s>' % self.name


class Native(object):
    """A modelled function: fn(engine, args, kwargs) -> value."""

    def __init__(self, name, fn):
        self.name, self.fn = name, fn
        self.attrs = {}

    def __repr__(self):
        return '<native %s>' % self.name


class Bound(object):
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_

    def __eq__(self, o):
        return isinstance(o, Bound) and o.func is self.func and o.self_ is self.self_

    def __hash__(self):
        return hash((id(self.func), id(self.self_)))

    def __repr__(self):
        return '<bound %r of %r>' % (self.func, self.self_)


class Prop(object):
    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class ClassMethod(object):
    def __init__(self, f):
        self.f = f


class StaticMethod(object):
    def __init__(self, f):
        self.f = f


class Super(object):
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class Module(object):
    def __init__(self, name, path=None):
        self.name, self.path, self.ns = name, path, {'__name__': name}
        self.external = False
        self.loading = False
        self.attr_hook = None

    def __repr__(self):
        return '<module %s>' % self.name


class GenObj(object):
    def __init__(self, pygen, func, frame):
        self.pygen, self.func, self.frame = pygen, func, frame
        self.started = self.done = self.running = False

    def __repr__(self):
        return '<generator %s>' % self.func.name


class Opaque(object):
    """A value from outside the analysed program about which nothing is known."""

    def __init__(self, name, cls=None, pure=True):
        self.name = name
        self.cls = cls
        self.attrs = {}

    def __repr__(self):
        return '<%s>' % self.name


class StrV(object):
    """A text string with unknown parts."""

    def __init__(self, parts):
        self.parts = tuple(parts)

    def __repr__(self):
        return 'str%r' % (self.parts,)

    def __eq__(self, o):
        return isinstance(o, StrV) and self.parts == o.parts

    def __hash__(self):
        try:
            return hash(self.parts)
        except TypeError:
            return 7


class Opq(object):
    """Bytes src[start:stop] of an unknown byte string."""
    __slots__ = ('src', 'start', 'stop')

    def __init__(self, src, start, stop):
        self.src, self.start, self.stop = src, start, stop

    def length(self):
        return sub(self.stop, self.start)

    def __eq__(self, o):
        return isinstance(o, Opq) and (self.src, self.start, self.stop) == (o.src, o.start, o.stop)

    def __hash__(self):
        return hash((self.src, self.start, self.stop))

    def __repr__(self):
        return '%s[%r:%r]' % (self.src, self.start, self.stop)


class BytesV(object):
    """Byte string: segments are lists of cells (0..255 ints or Polys) or Opq slices."""

    def __init__(self, segs, kind='bytes', mem=None):
        out = []
        for s in segs:
            if isinstance(s, (list, bytes, bytearray, tuple)):
                s = list(s)
                if not s:
                    continue
                if out and isinstance(out[-1], list):
                    out[-1] = out[-1] + s
                else:
                    out.append(s)
            else:
                if out and isinstance(out[-1], Opq) and out[-1].src == s.src and out[-1].stop == s.start:
                    out[-1] = Opq(s.src, out[-1].start, s.stop)
                else:
                    out.append(s)
        self.segs, self.kind = out, kind
        self.mem = mem          # for raw memory images: the Mem they are a copy of

    def length(self):
        n = 0
        for s in self.segs:
            n = add(n, len(s) if isinstance(s, list) else s.length())
        return n

    def cells(self):
        """all cells if the length is concrete"""
        out = []
        for s in self.segs:
            if isinstance(s, list):
                out.extend(s)
            else:
                n = s.length()
                if not isinstance(n, int):
                    return None
                out.extend(P(Atom('wb', s.src, add(s.start, i))) for i in range(n))
        return out

    def concrete(self):
        if all(isinstance(s, list) and all(isinstance(c, int) for c in s) for s in self.segs):
            return bytes(c for s in self.segs for c in s)
        return None

    def __eq__(self, o):
        return isinstance(o, BytesV) and self.segs == o.segs

    def __hash__(self):
        return hash(tuple(tuple(s) if isinstance(s, list) else s for s in self.segs))

    def __repr__(self):
        return '%s<%s>' % (self.kind, ' + '.join(repr(s) for s in self.segs))


def norm_bytes(bv):
    if bv.kind == 'bytes':
        c = bv.concrete()
        if c is not None:
            return c
    return bv


def as_bv(x):
    if isinstance(x, BytesV):
        return x
    if isinstance(x, (bytes, bytearray)):
        return BytesV([list(x)])
    return None
