"""Transfer functions for Python builtins and the standard-library names the code uses."""
import ast
import re
import string

from .values import *
from .interp import (Slice3, PyIter, _MISSING, is_concrete, NATIVE_BIN, Engine)


# ---------------------------------------------------------------- types
class EnumInt(int):
    """member of an IntEnum"""


def show_(v):
    return repr(v)


def type_of(e, v):
    T = e.T
    if isinstance(v, EnumInt):
        return v.sa_class
    if isinstance(v, Obj):
        return v.cls
    if isinstance(v, (bool, Cond)):
        return T['bool']
    if isinstance(v, (int, Poly)):
        return T['int']
    if isinstance(v, (str, StrV)):
        return T['str']
    if isinstance(v, bytes):
        return T['bytes']
    if isinstance(v, BytesV):
        return T[v.kind]
    if v is None:
        return T['NoneType']
    for t, n in ((float, 'float'), (list, 'list'), (tuple, 'tuple'), (dict, 'dict'), (set, 'set'),
                 (frozenset, 'frozenset'), (range, 'range')):
        if isinstance(v, t):
            return T[n]
    if isinstance(v, Cls):
        return T['type']
    if isinstance(v, Module):
        return T['module']
    if isinstance(v, GenObj):
        return T['generator']
    if isinstance(v, Func):
        return T['function']
    if isinstance(v, Native):
        return T['builtin_function_or_method']
    if isinstance(v, Bound):
        return T['method']
    if isinstance(v, Opaque):
        if v.cls is not None:
            return v.cls
        return T['object']
    if isinstance(v, Prop):
        return T['property']
    if isinstance(v, PyIter):
        return T['iterator']
    c = getattr(v, 'sa_class', None)
    if c is not None:
        return c(e) if callable(c) and not isinstance(c, Cls) else c
    return T['object']


def generic_new(e, cls, args, kw):
    hook = cls.call_hook
    cls.call_hook = None
    try:
        return e.instantiate(cls, args, kw)
    finally:
        cls.call_hook = hook


def payload(v):
    if isinstance(v, Obj) and v.payload is not None:
        return v.payload
    return v


# ---------------------------------------------------------------- integers <-> cells
def int_cells(e, v, size, signed, big, err):
    """two's-complement cells of v; forks on (and raises via err() for) values that do not fit"""
    if isinstance(v, Cond):
        v = int(e.truth(v))
    if isinstance(v, Opaque):
        v = P(Atom('sym', 'int(%s)' % v.name))
    if not isinstance(v, (int, Poly)):
        err('not an integer: %r' % (v,))
    lo, hi = (-(1 << (8 * size - 1)), (1 << (8 * size - 1)) - 1) if signed else (0, (1 << 8 * size) - 1)
    if not (e.truth(compare('>=', v, lo)) and e.truth(compare('<=', v, hi))):
        err('%r out of range for a %d-byte %s integer' % (v, size, 'signed' if signed else 'unsigned'))
    bits = e.bits_of(v, 8 * size)
    cells = [e.mk_bits(bits[8 * i:8 * i + 8]) for i in range(size)]
    return cells[::-1] if big else cells


def cell_bits(e, c):
    return e.bits_of(c, 8)


def int_from_cells(e, cells, signed, big):
    cs = cells[::-1] if big else cells
    bits = []
    for c in cs:
        bits += cell_bits(e, c)
    return e.mk_bits(bits, signed)


# ---------------------------------------------------------------- iteration
def iterate(e, o):
    if isinstance(o, Cls) and 'iter' in o.info:
        return iter(o.info['iter']())
    if isinstance(o, Obj):
        if o.cls.has('__iter__'):
            return iterate(e, e.call_method(o, '__iter__'))
        if o.cls.has('__next__'):
            return _iter_next(e, o)
        if o.cls.has('__getitem__'):
            return _iter_getitem(e, o)
        if o.payload is not None:
            return iterate(e, o.payload)
        e.throw('TypeError', '%s object is not iterable' % o.cls.name)
    if isinstance(o, (list, tuple, str, bytes, range)):
        return _iter_live(o)
    if isinstance(o, (dict, set, frozenset)):
        return iter(sorted(o, key=_setkey) if isinstance(o, (set, frozenset)) else list(o))
    if isinstance(o, PyIter):
        return o.it
    if isinstance(o, GenObj):
        return _iter_gen(e, o)
    if isinstance(o, BytesV):
        cs = o.cells()
        if cs is None:
            n = o.length()
            lo, hi = e.interval(n)
            if hi is not None and hi <= 64:
                k = concretise(e, n)
                return iter([get_item(e, o, i) for i in range(k)])
            raise Unsupported('iteration over bytes of unknown length at %s' % e.where())
        return iter(cs)
    if isinstance(o, (int, float, Poly, Cond, type(None))):
        e.throw('TypeError', '%r object is not iterable' % type_of(e, o).name)
    if hasattr(o, 'sa_iter'):
        return o.sa_iter(e)
    if isinstance(o, Opaque):
        raise Unsupported('iteration over %r at %s' % (o, e.where()))
    e.throw('TypeError', '%r is not iterable' % (o,))


def _setkey(x):
    return (type(x).__name__, x if isinstance(x, (int, str, bytes)) else repr(x))


def _iter_live(o):
    i = 0
    while i < len(o):
        yield o[i]
        i += 1


def _iter_gen(e, g):
    while True:
        try:
            v = e.gen_send(g, None)
        except PyRaise as pe:
            if pe.exc.cls.issub(e.exc['StopIteration']):
                return
            raise
        yield v


def _iter_next(e, o):
    while True:
        try:
            v = e.call_method(o, '__next__')
        except PyRaise as pe:
            if pe.exc.cls.issub(e.exc['StopIteration']):
                return
            raise
        yield v


def _iter_getitem(e, o):
    i = 0
    while True:
        try:
            v = e.call_method(o, '__getitem__', [i])
        except PyRaise as pe:
            if pe.exc.cls.issub(e.exc['IndexError']):
                return
            raise
        yield v
        i += 1


def concretise(e, v):
    """enumerate a symbolic integer with a small domain"""
    if isinstance(v, Cond):
        return int(e.truth(v))
    if not isinstance(v, Poly):
        return v
    a = v.as_atom()
    lo, hi = e.interval(v)
    vals = None
    if a is not None:
        d = e.dom(a)
        if d.vals is not None:
            vals = sorted(d.vals)
    if vals is None and lo is not None and hi is not None and hi - lo <= 256:
        vals = list(range(lo, hi + 1))
    if vals is None:
        raise Unsupported('cannot enumerate %r at %s' % (v, e.where()))
    for x in vals[:-1]:
        if e.truth(compare('==', v, x)):
            return x
    e.assume(compare('==', v, vals[-1]), True)
    return vals[-1]


# ---------------------------------------------------------------- items
def _index(e, i, n):
    if isinstance(i, Cond):
        i = int(e.truth(i))
    if isinstance(i, Obj) and i.cls.has('__index__'):
        i = e.call_method(i, '__index__')
    if isinstance(i, Poly):
        i = concretise(e, i)
    if isinstance(i, bool) or isinstance(i, int):
        return int(i)
    e.throw('TypeError', 'indices must be integers, not %r' % (i,))


def slice_bytes(e, b, sl):
    n = b.length()
    if sl.step not in (None, 1):
        cs = b.cells()
        if cs is None or not isinstance(sl.step, int):
            raise Unsupported('extended slice of unknown bytes at %s' % e.where())
        return BytesV([cs[slice(*[concretise(e, x) for x in (sl.start, sl.stop, sl.step)])]], b.kind)

    def clamp(x, dflt):
        if x is None:
            return dflt
        if not isinstance(x, (int, Poly)):
            e.throw('TypeError', 'slice indices must be integers')
        if not e.truth(compare('>=', x, 0)):
            x = add(x, n)
            if not e.truth(compare('>=', x, 0)):
                return 0
        if not isinstance(x, Poly) and not isinstance(n, Poly):
            return min(x, n)
        if not e.truth(compare('<=', x, n)):
            return n
        return x
    a, z = clamp(sl.start, 0), clamp(sl.stop, n)
    if not e.truth(compare('<=', a, z)):
        return BytesV([], b.kind)
    return cut(e, b, a, z)


def cut(e, b, a, z):
    out, pos = [], 0
    for s in b.segs:
        ln = len(s) if isinstance(s, list) else s.length()
        end = add(pos, ln)
        if e.truth(compare('>=', a, end)) or e.truth(compare('<=', z, pos)):
            pos = end
            continue
        x = sub(a, pos) if e.truth(compare('>', a, pos)) else 0
        y = sub(z, pos) if e.truth(compare('<=', z, end)) else ln
        if isinstance(s, list):
            x, y = concretise(e, x), concretise(e, y)
            out.append(s[x:y])
        else:
            out.append(Opq(s.src, add(s.start, x), add(s.start, y)))
        pos = end
    return BytesV(out, b.kind)


def get_item(e, o, i):
    if isinstance(o, Obj):
        if o.cls.has('__getitem__') and not isinstance(o.cls.lookup('__getitem__'), Native):
            return e.call_method(o, '__getitem__', [i])
        if o.cls.has('__getitem__'):
            return e.call_method(o, '__getitem__', [i])
        if o.payload is not None:
            if isinstance(o.payload, dict) and o.cls.has('__missing__'):
                k = e.dict_find(o.payload, i)
                if k is _MISSING:
                    return e.call_method(o, '__missing__', [i])
                return o.payload[k]
            return get_item(e, o.payload, i)
        e.throw('TypeError', '%s object is not subscriptable' % o.cls.name)
    if isinstance(o, dict):
        k = e.dict_find(o, i)
        if k is _MISSING:
            e.throw('KeyError', i)
        return o[k]
    if isinstance(o, (list, tuple, str, range)) or (isinstance(o, bytes) and not _symidx(i)):
        if isinstance(i, Slice3):
            parts = [None if x is None else _slice_part(e, x) for x in (i.start, i.stop, i.step)]
            return e.native(lambda: o[slice(*parts)])
        k = _index(e, i, len(o))
        if not -len(o) <= k < len(o):
            e.throw('IndexError', '%s index out of range' % type_of(e, o).name)
        return o[k]
    b = as_bv(o)
    if b is not None:
        if isinstance(i, Slice3):
            return norm_bytes(slice_bytes(e, b, i))
        n = b.length()
        if not isinstance(i, (int, Poly)):
            e.throw('TypeError', 'byte indices must be integers or slices, not %r' % (i,))
        if not e.truth(compare('>=', i, 0)):
            i = add(i, n)
            if not e.truth(compare('>=', i, 0)):
                e.throw('IndexError', 'index out of range')
        if not e.truth(compare('<', i, n)):
            e.throw('IndexError', 'index out of range')
        if isinstance(i, Poly):
            lo, hi = e.interval(i)
            if lo is None or hi is None or hi - lo > 256:
                return e.fresh('byte', 0, 255)
            i = concretise(e, i)
        c = cut(e, b, i, i + 1).cells()
        return c[0]
    if isinstance(o, StrV):
        return StrV((o, i))
    if isinstance(o, Opaque):
        return Opaque('%s[%r]' % (o.name, i))
    if hasattr(o, 'sa_getitem'):
        return o.sa_getitem(e, i)
    if isinstance(o, Cls):
        if 'item' in o.info:
            return o.info['item'](i)
        return o
    e.throw('TypeError', '%r object is not subscriptable' % type_of(e, o).name)


def _symidx(i):
    if isinstance(i, Slice3):
        return any(isinstance(x, Poly) for x in (i.start, i.stop, i.step))
    return isinstance(i, Poly)


def _slice_part(e, x):
    if isinstance(x, Obj):
        x = e.call_method(x, '__index__')
    if not isinstance(x, (int, Poly, bool)):
        e.throw('TypeError', 'slice indices must be integers or None')
    return concretise(e, x)


def set_item(e, o, i, v):
    if isinstance(o, Obj):
        if o.cls.has('__setitem__'):
            return e.call_method(o, '__setitem__', [i, v])
        if o.payload is not None:
            return set_item(e, o.payload, i, v)
    if isinstance(o, dict):
        return e.dict_set(o, i, v)
    if isinstance(o, list):
        e.touch(o)
        if isinstance(i, Slice3):
            parts = [None if x is None else _slice_part(e, x) for x in (i.start, i.stop, i.step)]
            vals = list(iterate(e, v))
            e.native(lambda: o.__setitem__(slice(*parts), vals))
            return
        k = _index(e, i, len(o))
        if not -len(o) <= k < len(o):
            e.throw('IndexError', 'list assignment index out of range')
        o[k] = v
        return
    if isinstance(o, BytesV) and o.kind == 'bytearray':
        e.touch(o)
        n = o.length()
        if isinstance(i, Slice3):
            if i.step not in (None, 1):
                raise Unsupported('assignment to an extended slice')
            a = 0 if i.start is None else i.start
            z = n if i.stop is None else i.stop
            ends = []
            for x in (a, z):
                if e.truth(compare('<', x, 0)):
                    x = add(x, n)
                    if e.truth(compare('<', x, 0)):
                        x = 0
                elif e.truth(compare('>', x, n)):
                    x = n
                ends.append(x)
            a, z = ends
            if e.truth(compare('<', z, a)):
                z = a
            head, tail = cut(e, o, 0, a), cut(e, o, z, n)
            vb = as_bv(v)
            if vb is None:
                vb = BytesV([list(iterate(e, v))])
            o.segs = BytesV(head.segs + vb.segs + tail.segs).segs
            return
        if not e.truth(compare('<', i, n)):
            e.throw('IndexError', 'bytearray index out of range')
        if not (e.truth(compare('>=', v, 0)) and e.truth(compare('<=', v, 255))):
            e.throw('ValueError', 'byte must be in range(0, 256)')
        if not isinstance(i, Poly) and i < 0:
            i = add(i, n)
        head, tail = cut(e, o, 0, i), cut(e, o, add(i, 1), n)
        o.segs = BytesV(head.segs + [[v]] + tail.segs).segs
        return
    if hasattr(o, 'sa_setitem'):
        return o.sa_setitem(e, i, v)
    if isinstance(o, Opaque):
        return
    e.throw('TypeError', '%r object does not support item assignment' % type_of(e, o).name)


def del_item(e, o, i):
    if isinstance(o, Obj):
        if o.cls.has('__delitem__'):
            return e.call_method(o, '__delitem__', [i])
        o = o.payload
    if isinstance(o, dict):
        k = e.dict_find(o, i)
        if k is _MISSING:
            e.throw('KeyError', i)
        e.touch(o)
        del o[k]
        return
    if isinstance(o, list):
        e.touch(o)
        if isinstance(i, Slice3):
            parts = [None if x is None else _slice_part(e, x) for x in (i.start, i.stop, i.step)]
            del o[slice(*parts)]
            return
        k = _index(e, i, len(o))
        if not -len(o) <= k < len(o):
            e.throw('IndexError', 'list assignment index out of range')
        del o[k]
        return
    if isinstance(o, BytesV) and o.kind == 'bytearray':
        if isinstance(i, Slice3):
            if i.step not in (None, 1):
                raise Unsupported('deletion of an extended slice')
            set_item(e, o, i, b'')
            return
        n = o.length()
        if e.truth(compare('<', i, 0)):
            i = add(i, n)
        if not (e.truth(compare('>=', i, 0)) and e.truth(compare('<', i, n))):
            e.throw('IndexError', 'bytearray index out of range')
        set_item(e, o, Slice3(i, add(i, 1), None), b'')
        return
    e.throw('TypeError', 'object does not support item deletion')


# ---------------------------------------------------------------- text
def str_(e, v):
    if isinstance(v, (str, StrV)):
        return v
    if isinstance(v, Cond):
        return str(e.truth(v))
    if isinstance(v, Obj):
        if v.cls.has('__str__'):
            return e.call_method(v, '__str__')
        if v.cls.issub(e.exc['BaseException']) and not v.cls.has('__repr__'):
            return exc_text(e, v)
        return repr_(e, v)
    return repr_(e, v, True)


def exc_text(e, v):
    """BaseException.__str__"""
    a = v.attrs.get('args', ())
    if len(a) == 0:
        return ''
    if v.cls.issub(e.exc['OSError']) and len(a) == 2:
        return str_format(e, '[Errno {}] {}', list(a), {})
    if v.cls.issub(e.exc['KeyError']) and len(a) == 1:
        return repr_(e, a[0])
    if len(a) == 1:
        return str_(e, a[0])
    return repr_(e, tuple(a))


def repr_(e, v, top=False):
    if isinstance(v, EnumInt):
        n = '%s.%s' % (v.sa_class.name, v.sa_name)
        return n if top else '<%s: %d>' % (n, v)
    if isinstance(v, (int, float, str, bytes, type(None), range)):
        return repr(v)
    if isinstance(v, Cond):
        return repr(e.truth(v))
    if isinstance(v, (list, tuple, set, frozenset)):
        parts = [repr_(e, x) for x in (v if isinstance(v, (list, tuple)) else iterate(e, v))]
        o, c = {list: '[]', tuple: '()'}.get(type(v), '{}')
        if all(isinstance(p, str) for p in parts):
            return o + ', '.join(parts) + (',' if isinstance(v, tuple) and len(parts) == 1 else '') + c
        return StrV((o,) + tuple(parts) + (c,))
    if isinstance(v, dict):
        parts = []
        for k, x in v.items():
            parts += [repr_(e, k), ': ', repr_(e, x), ', ']
        return StrV(('{',) + tuple(parts) + ('}',))
    if isinstance(v, Obj):
        if v.cls.has('__repr__'):
            return e.call_method(v, '__repr__')
        if v.cls.issub(e.exc['BaseException']):
            return StrV((v.cls.name, '(') + tuple(repr_(e, x) for x in v.attrs.get('args', ())) + (')',))
        if v.payload is not None:
            return repr_(e, v.payload)
        return StrV(('<%s object>' % v.cls.name,))
    if isinstance(v, Cls):
        return "<class '%s'>" % v.name
    return StrV((v,))


def format_value(e, v, spec):
    if isinstance(spec, StrV):
        return StrV((v, spec))
    if isinstance(v, Obj):
        if v.cls.has('__format__'):
            return e.call_method(v, '__format__', [spec])
        if spec:
            e.throw('TypeError', 'unsupported format string passed to %s.__format__' % v.cls.name)
        return str_(e, v)
    if isinstance(v, Cond):
        v = e.truth(v)
    if isinstance(v, (int, float, str)):
        return e.native(format, v, spec)
    if isinstance(v, Poly):
        e.native(format, 1, spec)
        return StrV((v, spec)) if spec else StrV((v,))
    if isinstance(v, StrV):
        e.native(format, 'x', spec)
        return v
    if isinstance(v, Opaque):
        return StrV((v, spec))
    if spec:
        e.throw('TypeError', 'unsupported format string passed to %s.__format__' % type_of(e, v).name)
    return str_(e, v)


def join_parts(parts):
    out = []
    for p in parts:
        for q in (p.parts if isinstance(p, StrV) else (p,)):
            if isinstance(q, str) and out and isinstance(out[-1], str):
                out[-1] += q
            elif q != '':
                out.append(q)
    if not out:
        return ''
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    return StrV(out)


_PCT = re.compile(r'%(?:\((?P<key>[^)]*)\))?(?P<flags>[#0\- +]*)(?P<width>\*|\d+)?(?:\.(?P<prec>\*|\d+))?[hlL]?(?P<conv>.)', re.S)


def format_percent(e, s, args):
    if isinstance(s, StrV):
        return StrV((s, args))
    pos, out, used, n = 0, [], 0, 0
    tup = args if isinstance(args, tuple) else (args,)
    mapping = not isinstance(args, tuple) and isinstance(payload(args), dict)
    keyed = False
    while True:
        j = s.find('%', pos)
        if j < 0:
            out.append(s[pos:])
            break
        out.append(s[pos:j])
        m = _PCT.match(s, j)
        if not m:
            e.throw('ValueError', 'incomplete format')
        pos = m.end()
        conv = m.group('conv')
        if conv == '%':
            out.append('%')
            continue
        if conv not in 'diouxXeEfFgGcrsa':
            e.throw('ValueError', 'unsupported format character %r' % conv)
        if m.group('key') is not None:
            if not mapping:
                e.throw('TypeError', 'format requires a mapping')
            keyed = True
            v = get_item(e, args, m.group('key'))
        else:
            for g in ('width', 'prec'):
                if m.group(g) == '*':
                    used += 1
            if used >= len(tup):
                e.throw('TypeError', 'not enough arguments for format string')
            v = tup[used]
            used += 1
        if isinstance(v, Cond):
            v = e.truth(v)
        spec = '%' + m.group('flags') + (m.group('width') or '') + ('.' + m.group('prec') if m.group('prec') else '') + conv
        if conv in 'diouxXc' or conv in 'eEfFgG':
            if conv == 'c' and isinstance(v, (str, StrV)):
                out.append(v)
                continue
            if isinstance(v, (Poly, Opaque)):
                out.append(StrV((v, spec)))
                continue
            if isinstance(v, Obj) and v.cls.has('__index__'):
                v = e.call_method(v, '__index__')
            if not isinstance(v, (int, float)):
                e.throw('TypeError', '%%%s format: a number is required, not %s' % (conv, type_of(e, v).name))
            if '*' in spec:
                out.append(StrV((v,)))
            else:
                out.append(e.native(lambda: spec % v))
        else:
            t = repr_(e, v) if conv in 'ra' else str_(e, v)
            if isinstance(t, str) and '*' not in spec:
                t = ('%' + m.group('flags') + (m.group('width') or '') +
                     ('.' + m.group('prec') if m.group('prec') else '') + 's') % t
            out.append(t)
    if not keyed and not mapping and used < len(tup):
        e.throw('TypeError', 'not all arguments converted during string formatting')
    return join_parts(out)


def str_format(e, s, args, kw):
    out, auto = [], 0
    try:
        items = list(string.Formatter().parse(s))
    except ValueError as x:
        e.throw('ValueError', str(x))
    for lit, field, spec, conv in items:
        if lit:
            out.append(lit)
        if field is None:
            continue
        m = re.match(r'[^.\[]*', field)
        head, rest = m.group(0), field[m.end():]
        if head == '':
            head = str(auto)
            auto += 1
        if head.isdigit():
            if int(head) >= len(args):
                e.throw('IndexError', 'Replacement index %s out of range for positional args tuple' % head)
            v = args[int(head)]
        else:
            if head not in kw:
                e.throw('KeyError', head)
            v = kw[head]
        for mm in re.finditer(r'\.([^.\[]+)|\[([^\]]+)\]', rest):
            if mm.group(1):
                v = e.get_attr(v, mm.group(1))
            else:
                k = mm.group(2)
                v = e.get_item(v, int(k) if k.isdigit() else k)
        if conv == 'r':
            v = repr_(e, v)
        elif conv == 's':
            v = str_(e, v)
        if '{' in (spec or ''):
            spec = str_format(e, spec, args[auto:], kw)
        out.append(format_value(e, v, spec or ''))
    return join_parts(out)


# ---------------------------------------------------------------- methods of native values
def N(name, f):
    return Native(name, f)


def dataclass_fields(cls):
    out = []
    for c in reversed(cls.mro):
        if c.node is not None:
            for st in c.node.body:
                if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                    out = [x for x in out if x[0] != st.target.id] + [(st.target.id, st.value is not None)]
    return out


class Folded(object):
    """a value of the standard library made from concrete values only (a compiled pattern, a match)"""
    def __init__(self, o):
        self.o = o

    def __repr__(self):
        return repr(self.o)

    def sa_getattr(self, e, name):
        if not hasattr(self.o, name):
            return _MISSING
        v = getattr(self.o, name)
        if not callable(v):
            return fold(e, v)

        def call(e_, a, k):
            a = [x.concrete() if isinstance(x, BytesV) and x.concrete() is not None else x for x in a]
            if not is_concrete(list(a)) or not is_concrete(dict(k)):
                raise Unsupported('%r.%s of unknown values' % (self.o, name))
            return fold(e, e.native(v, *a, **k))
        return N(name, call)


def fold(e, r):
    if is_concrete(r):
        return r
    if isinstance(r, (re.Pattern, re.Match)):
        return Folded(r)
    if hasattr(r, '__next__'):
        return [fold(e, x) for x in r]
    raise Unsupported('a value of type %s' % type(r).__name__)


def native_attr(e, o, name):
    if isinstance(o, (str, StrV)):
        return str_attr(e, o, name)
    if isinstance(o, BytesV) and o.kind == 'view':
        if name in ('to_bytes', 'to_bytearray'):
            return N(name, lambda e_, a, k: norm_bytes(BytesV(list(o.segs), 'bytes' if name == 'to_bytes' else 'bytearray')))
        if name == 'length':
            return N(name, lambda e_, a, k: o.length())
        return _MISSING
    if isinstance(o, (bytes, BytesV)):
        return bytes_attr(e, o, name)
    if isinstance(o, list):
        return list_attr(e, o, name)
    if isinstance(o, dict):
        return dict_attr(e, o, name)
    if isinstance(o, (set, frozenset)):
        return set_attr_(e, o, name)
    if isinstance(o, tuple):
        if name == 'index':
            def index(e_, a, k):
                for i, x in enumerate(o):
                    if e.truth(e.eq(x, a[0])):
                        return i
                e.throw('ValueError', 'tuple.index(x): x not in tuple')
            return N('index', index)
        if name == 'count':
            return N('count', lambda e_, a, k: sum(1 for x in o if e.truth(e.eq(x, a[0]))))
    if isinstance(o, EnumInt):
        if name in ('name', '_name_'):
            return o.sa_name
        if name in ('value', '_value_'):
            return int(o)
        for c in o.sa_class.mro:
            if name in c.ns and isinstance(c.ns[name], (Func, Prop)):
                return e.call(c.ns[name].fget, [o]) if isinstance(c.ns[name], Prop) else e.bind(c.ns[name], o)
    if isinstance(o, (int, Poly, Cond)):
        if name == 'to_bytes':
            def to_bytes(e_, a, k):
                ln = a[0] if a else k.get('length', 1)
                order = a[1] if len(a) > 1 else k.get('byteorder', 'big')
                signed = k.get('signed', False)
                return norm_bytes(BytesV([int_cells(e, o, concretise(e, ln), signed, order == 'big',
                                                    lambda m: e.throw('OverflowError', m))]))
            return N('to_bytes', to_bytes)
        if name == 'bit_length':
            return N('bit_length', lambda e_, a, k: o.bit_length() if isinstance(o, int) else Opaque('bit_length(%r)' % o))
        if name in ('real', 'numerator'):
            return o
        if name == 'imag':
            return 0
    if name == '__class__':
        return type_of(e, o)
    if isinstance(o, PyIter) and name in ('__next__', 'next'):
        return N('next', lambda e_, a, k: do_next(e, o))
    if isinstance(o, PyIter) and name == '__iter__':
        return N('iter', lambda e_, a, k: o)
    if isinstance(o, Prop) and name in ('setter', 'getter', 'deleter'):
        if name == 'setter':
            return N('setter', lambda e_, a, k: Prop(o.fget, a[0]))
        if name == 'getter':
            return N('getter', lambda e_, a, k: Prop(a[0], o.fset))
        return N('deleter', lambda e_, a, k: o)
    if isinstance(o, Prop) and name in ('fget', 'fset'):
        return getattr(o, name)
    if isinstance(o, (ClassMethod, StaticMethod)) and name == '__func__':
        return o.f
    if isinstance(o, range) and name in ('start', 'stop', 'step'):
        return getattr(o, name)
    if isinstance(o, Slice3) and name in ('start', 'stop', 'step'):
        return getattr(o, name)
    return _MISSING


def do_next(e, it, default=_MISSING):
    if isinstance(it, GenObj) or (isinstance(it, Obj) and it.cls.has('__next__')):
        try:
            return e.gen_send(it, None) if isinstance(it, GenObj) else e.call_method(it, '__next__')
        except PyRaise as pe:
            if default is not _MISSING and pe.exc.cls.issub(e.exc['StopIteration']):
                return default
            raise
    if isinstance(it, PyIter):
        for v in it.it:
            return v
        if default is not _MISSING:
            return default
        e.throw('StopIteration')
    e.throw('TypeError', '%r is not an iterator' % (it,))


def list_attr(e, o, name):
    def m(f):
        def g(e_, a, k):
            e.touch(o)
            return f(*a, **k)
        return N(name, g)
    if name == 'append':
        return m(lambda x: o.append(x))
    if name == 'extend':
        return m(lambda x: o.extend(list(iterate(e, x))))
    if name == 'insert':
        return m(lambda i, x: o.insert(concretise(e, i), x))
    if name == 'pop':
        def pop(i=-1):
            i = _index(e, i, len(o))
            if not o:
                e.throw('IndexError', 'pop from empty list')
            if not -len(o) <= i < len(o):
                e.throw('IndexError', 'pop index out of range')
            return o.pop(i)
        return m(pop)
    if name == 'remove':
        def remove(x):
            for i, y in enumerate(o):
                if e.truth(e.eq(y, x)):
                    del o[i]
                    return
            e.throw('ValueError', 'list.remove(x): x not in list')
        return m(remove)
    if name == 'clear':
        return m(lambda: o.clear())
    if name == 'reverse':
        return m(lambda: o.reverse())
    if name == 'copy':
        return m(lambda: list(o))
    if name == 'sort':
        def sort(key=None, reverse=False):
            o[:] = py_sorted(e, o, key, reverse)
        return m(sort)
    if name == 'index':
        def index(x):
            for i, y in enumerate(o):
                if e.truth(e.eq(y, x)):
                    return i
            e.throw('ValueError', 'not in list')
        return m(index)
    if name == 'count':
        return m(lambda x: sum(1 for y in o if e.truth(e.eq(x, y))))
    if name == '__len__':
        return m(lambda: len(o))
    if name == '__iter__':
        return m(lambda: PyIter(iterate(e, o)))
    if name in ('__getitem__',):
        return m(lambda i: get_item(e, o, i))
    return _MISSING


def py_sorted(e, xs, key=None, reverse=False):
    import functools as ft
    xs = list(iterate(e, xs))
    ks = [(e.call(key, [x]) if key is not None else x, x) for x in xs]

    def c(a, b):
        if e.truth(e.cmp('<', a[0], b[0])):
            return -1
        if e.truth(e.cmp('<', b[0], a[0])):
            return 1
        return 0
    return [x for _, x in sorted(ks, key=ft.cmp_to_key(c), reverse=bool(reverse))]


def dict_attr(e, o, name):
    def m(f):
        return N(name, lambda e_, a, k: f(*a, **k))
    if name == 'get':
        def get(k, d=None):
            kk = e.dict_find(o, k)
            return d if kk is _MISSING else o[kk]
        return m(get)
    if name == 'pop':
        def pop(k, *d):
            kk = e.dict_find(o, k)
            if kk is _MISSING:
                if d:
                    return d[0]
                e.throw('KeyError', k)
            e.touch(o)
            return o.pop(kk)
        return m(pop)
    if name == 'setdefault':
        def setdefault(k, d=None):
            kk = e.dict_find(o, k)
            if kk is _MISSING:
                e.touch(o)
                o[k] = d
                return d
            return o[kk]
        return m(setdefault)
    if name == 'update':
        def update(e_, a, k):
            for src in a:
                src = payload(src)
                if isinstance(src, dict):
                    for kk, v in src.items():
                        e.dict_set(o, kk, v)
                else:
                    for pair in iterate(e, src):
                        kk, v = list(iterate(e, pair))
                        e.dict_set(o, kk, v)
            for kk, v in k.items():
                e.dict_set(o, kk, v)
        return N('update', update)
    if name in ('keys', 'iterkeys'):
        return m(lambda: list(o))
    if name in ('values', 'itervalues'):
        return m(lambda: list(o.values()))
    if name in ('items', 'iteritems'):
        return m(lambda: list(o.items()))
    if name == 'copy':
        return m(lambda: dict(o))
    if name == 'clear':
        def clear():
            e.touch(o)
            o.clear()
        return m(clear)
    if name == 'popitem':
        def popitem(last=True):
            if not o:
                e.throw('KeyError', 'popitem(): dictionary is empty')
            e.touch(o)
            k = list(o)[-1 if e.truth(last) else 0]
            return k, o.pop(k)
        return m(popitem)
    if name == 'move_to_end':
        def move_to_end(key, last=True):
            k = e.dict_find(o, key)
            if k is _MISSING:
                e.throw('KeyError', key)
            e.touch(o)
            items = [(x, v) for x, v in o.items() if x is not k]
            o_k = o[k]
            o.clear()
            o.update(items + [(k, o_k)] if e.truth(last) else [(k, o_k)] + items)
        return m(move_to_end)
    if name in ('has_key', '__contains__'):
        return m(lambda k: e.dict_find(o, k) is not _MISSING)
    if name == '__getitem__':
        return m(lambda k: get_item(e, o, k))
    if name == '__setitem__':
        return m(lambda k, v: e.dict_set(o, k, v))
    if name == '__delitem__':
        return m(lambda k: del_item(e, o, k))
    if name == '__len__':
        return m(lambda: len(o))
    if name == '__iter__':
        return m(lambda: PyIter(list(o)))
    return _MISSING


def set_attr_(e, o, name):
    def m(f):
        def g(e_, a, k):
            e.touch(o)
            return e.native(f, *a, **k)
        return N(name, g)
    if name in ('add', 'discard', 'remove', 'clear', 'pop', 'copy'):
        return m(getattr(o, name))
    if name in ('union', 'intersection', 'difference', 'update', 'issubset', 'issuperset', 'isdisjoint',
                'difference_update', 'intersection_update', 'symmetric_difference'):
        return m(lambda *a: getattr(o, name)(*[set(iterate(e, x)) for x in a]))
    return _MISSING


def str_attr(e, o, name):
    if name == 'format':
        def fmt(e_, a, k):
            if isinstance(o, StrV):
                return StrV((o,) + tuple(a))
            return str_format(e, o, list(a), k)
        return N('format', fmt)
    if name == 'join':
        def join(e_, a, k):
            parts, first = [], True
            for x in iterate(e, a[0]):
                if not isinstance(x, (str, StrV, Opaque)):
                    e.throw('TypeError', 'sequence item: expected str instance, %s found' % type_of(e, x).name)
                if not first:
                    parts.append(o)
                first = False
                parts.append(x if not isinstance(x, Opaque) else StrV((x,)))
            return join_parts(parts)
        return N('join', join)
    if name == 'encode':
        def enc(e_, a, k):
            if isinstance(o, str):
                return e.native(o.encode, *a, **k)
            return BytesV([Opq('encode(%r)' % o, 0, e.fresh('len', 0))])
        return N('encode', enc)
    if not hasattr(str, name):
        return _MISSING

    def meth(e_, a, k):
        if isinstance(o, str) and is_concrete(list(a)):
            return e.native(getattr(o, name), *a, **k)
        if isinstance(o, str) and name in ('split', 'startswith', 'endswith') and is_concrete(list(a)):
            return e.native(getattr(o, name), *a)
        for x in a:
            if x is None and name not in ('split', 'rsplit', 'strip', 'lstrip', 'rstrip') or isinstance(x, (bytes, BytesV)):
                e.throw('TypeError', '%s: bad argument' % name)
        if name in ('startswith', 'endswith', 'isdigit', 'isalpha', 'isspace'):
            return Cond('b', '%s:%r:%r' % (name, o, a))
        if name in ('split', 'rsplit', 'splitlines', 'partition', 'rpartition', 'find', 'count', 'index'):
            return Opaque('%s(%r,%r)' % (name, o, a))
        return StrV((o, name) + tuple(a))
    return N(name, meth)


def bytes_attr(e, o, name):
    if name == 'join':
        def join(e_, a, k):
            segs, first = [], True
            sep = as_bv(o)
            for x in iterate(e, a[0]):
                xb = as_bv(x)
                if xb is None:
                    e.throw('TypeError', 'sequence item: expected a bytes-like object, %s found' % type_of(e, x).name)
                if not first:
                    segs += sep.segs
                first = False
                segs += xb.segs
            return norm_bytes(BytesV(segs, type_of(e, o).name))
        return N('join', join)
    if name in ('append', 'extend', 'pop', 'insert', 'clear', 'reverse', 'remove', 'copy') and isinstance(o, BytesV) and o.kind == 'bytearray':
        def mut(e_, a, k):
            e.touch(o)
            if name == 'append':
                o.segs = BytesV(o.segs + [[a[0]]]).segs
            elif name == 'extend':
                x = as_bv(a[0])
                if x is None:
                    x = BytesV([list(iterate(e, a[0]))])
                o.segs = BytesV(o.segs + x.segs).segs
            elif name == 'clear':
                o.segs = []
            elif name == 'copy':
                return BytesV(list(o.segs), 'bytearray')
            else:
                cs = o.cells()
                if cs is None:
                    raise Unsupported('bytearray.%s' % name)
                r = getattr(cs, name)(*a)
                o.segs = BytesV([cs]).segs
                return r
        return N(name, mut)
    if name == '__len__':
        return N(name, lambda e_, a, k: e.builtins['len'].fn(e, [o], {}))
    if name in ('to_bytes', 'tobytes', 'to_raw'):
        return N(name, lambda e_, a, k: norm_bytes(BytesV(as_bv(o).segs)))
    if not hasattr(bytes, name):
        return _MISSING
    if name in ('ljust', 'rjust'):
        def just(e_, a, k):
            b = as_bv(o)
            n = b.length()
            if not isinstance(n, int) or not isinstance(a[0], int):
                raise Unsupported('ljust of unknown length')
            fill = (a[1] if len(a) > 1 else b' ')[0]
            pad = [[fill] * max(0, a[0] - n)]
            return norm_bytes(BytesV(b.segs + pad if name == 'ljust' else pad + b.segs, b.kind))
        return N(name, just)

    def meth(e_, a, k):
        c = as_bv(o).concrete()
        if c is not None and is_concrete(list(a)):
            r = e.native(getattr(c, name), *a, **k)
            return r
        if name in ('hex', 'decode'):
            return StrV((o, name))
        if name in ('startswith', 'endswith', 'isdigit'):
            return Cond('b', '%s:%r:%r' % (name, o, a))
        if name in ('find', 'count', 'index', 'split'):
            return Opaque('%s(%r,%r)' % (name, o, a))
        n = e.fresh('len', 0)
        return BytesV([Opq('%s(%r,%r)' % (name, o, a), 0, n)])
    return N(name, meth)


# ---------------------------------------------------------------- struct module
_STRUCT = {'b': (1, True), 'B': (1, False), 'h': (2, True), 'H': (2, False), 'i': (4, True), 'I': (4, False),
           'l': (4, True), 'L': (4, False), 'q': (8, True), 'Q': (8, False), '?': (1, False), 'x': (1, None),
           'P': (None, False), 'n': (None, True), 'N': (None, False)}


def struct_parse(e, fmt):
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    if not isinstance(fmt, str):
        raise Unsupported('struct format %r' % (fmt,))
    order, native, body = '<', True, fmt
    if fmt[:1] in '@=<>!':
        order = fmt[:1]
        native = order == '@'
        body = fmt[1:]
    big = order in '>!'
    items, off = [], 0
    for m in re.finditer(r'\s*(\d*)([a-zA-Z?])', body):
        n = int(m.group(1)) if m.group(1) else 1
        c = m.group(2)
        if c == 's':
            items.append(('s', off, n, None))
            off += n
            continue
        if c in 'fd':
            items.append(('f', off, 4 if c == 'f' else 8, None))
            off += 4 if c == 'f' else 8
            continue
        if c not in _STRUCT:
            raise e.throw('struct.error', 'bad char in struct format')
        size, signed = _STRUCT[c]
        if size is None:
            size = e.pointer_size
        if native and c in 'lL':
            size = e.long_size
        for _ in range(n):
            if native and off % size:
                off += size - off % size
            items.append(('x' if signed is None else '?' if c == '?' else 'i', off, size, signed))
            off += size
    return items, off, big


def struct_pack(e, fmt, vals):
    items, size, big = struct_parse(e, fmt)
    need = [i for i in items if i[0] != 'x']
    if len(need) != len(vals):
        e.throw('struct.error', 'pack expected %d items for packing (got %d)' % (len(need), len(vals)))
    cells = [0] * size
    vals = list(vals)
    for kind, off, n, signed in items:
        if kind == 'x':
            continue
        v = vals.pop(0)
        if kind == 's':
            b = as_bv(v)
            cs = b.cells() if b is not None else None
            if cs is None:
                raise Unsupported('pack of %r' % (v,))
            cs = (cs + [0] * n)[:n]
        elif kind == 'f':
            raise Unsupported('float pack')
        elif kind == '?':
            cs = [int(e.truth(v))]
        else:
            if isinstance(v, Obj) and v.cls.has('__index__'):
                v = e.call_method(v, '__index__')
            cs = int_cells(e, v, n, signed, big, lambda m: e.throw('struct.error', m))
        cells[off:off + n] = cs
    return norm_bytes(BytesV([cells]))


def struct_unpack(e, fmt, buf, offset=0, exact=True):
    items, size, big = struct_parse(e, fmt)
    b = as_bv(buf)
    if b is None and hasattr(buf, 'sa_bytes'):
        b = buf.sa_bytes(e)
    if b is None:
        e.throw('TypeError', 'a bytes-like object is required, not %r' % (buf,))
    if not exact:
        b = slice_bytes(e, b, Slice3(offset, add(offset, size), None))
    if not e.truth(compare('==', b.length(), size)):
        e.throw('struct.error', 'unpack requires a buffer of %d bytes' % size)
    b2 = cut(e, b, 0, size)
    cs = b2.cells()
    if cs is None:
        if len(b2.segs) == 1 and isinstance(b2.segs[0], Opq) and not isinstance(b2.segs[0].start, Poly):
            cs = [P(Atom('wb', b2.segs[0].src, b2.segs[0].start + i)) for i in range(size)]
        else:
            raise Unsupported('unpack of %r' % (b,))
    out = []
    for kind, off, n, signed in items:
        if kind == 'x':
            continue
        part = cs[off:off + n]
        if kind == 's':
            out.append(norm_bytes(BytesV([part])))
        elif kind == 'f':
            out.append(Opaque('float'))
        else:
            out.append(int_from_cells(e, part, signed, big))
    return tuple(out)


PRELUDE = '''
class _GCM(object):
    def __init__(self, gen):
        self.gen = gen
    def __enter__(self):
        try:
            return next(self.gen)
        except StopIteration:
            raise RuntimeError("generator didn't yield")
    def __exit__(self, t, v, tb):
        if t is None:
            try:
                next(self.gen)
            except StopIteration:
                return False
            raise RuntimeError("generator didn't stop")
        if v is None:
            v = t()
        try:
            self.gen.throw(v)
        except StopIteration as e:
            return e is not v
        except BaseException as e:
            if e is v:
                return False
            raise
        raise RuntimeError("generator didn't stop after throw()")
    def __call__(self, f):
        raise NotImplementedError()

def contextmanager(f):
    def helper(*args, **kwargs):
        return _GCM(f(*args, **kwargs))
    return helper

class closing(object):
    def __init__(self, thing):
        self.thing = thing
    def __enter__(self):
        return self.thing
    def __exit__(self, *exc_info):
        self.thing.close()

class suppress(object):
    def __init__(self, *excs):
        self.excs = excs
    def __enter__(self):
        return None
    def __exit__(self, t, v, tb):
        return t is not None and issubclass(t, self.excs)

class ExitStack(object):
    def __init__(self):
        self.cbs = []
    def __enter__(self):
        return self
    def callback(self, f, *a, **k):
        self.cbs.append(lambda t, v, tb: f(*a, **k) and False)
        return f
    def push(self, f):
        self.cbs.append(f)
        return f
    def enter_context(self, cm):
        r = cm.__enter__()
        self.cbs.append(cm.__exit__)
        return r
    def close(self):
        self.__exit__(None, None, None)
    def __exit__(self, t, v, tb):
        swallowed = False
        pending = None
        while self.cbs:
            cb = self.cbs.pop()
            try:
                if cb(t, v, tb):
                    swallowed = True
                    t = v = tb = None
                    pending = None
            except BaseException as e:
                pending = e
                t, v, tb = type(e), e, None
        if pending is not None:
            raise pending
        return swallowed

def dataclass(cls=None, **options):
    def deco(c):
        fields = _fields_of(c)
        def __init__(self, *args, **kwargs):
            if len(args) > len(fields):
                raise TypeError('too many arguments')
            for i, (n, known) in enumerate(fields):
                if i < len(args):
                    if n in kwargs:
                        raise TypeError('multiple values for %s' % n)
                    v = args[i]
                elif n in kwargs:
                    v = kwargs.pop(n)
                elif known:
                    v = _class_default(c, n)
                    if isinstance(v, _field):
                        v = v.make()
                else:
                    raise TypeError('missing argument %s' % n)
                object.__setattr__(self, n, v)
            if kwargs:
                raise TypeError('unexpected arguments')
            if hasattr(self, '__post_init__'):
                self.__post_init__()
        def __eq__(self, other):
            if type(self) is not type(other):
                return NotImplemented
            return all(getattr(self, n) == getattr(other, n) for n, _ in fields)
        def __repr__(self):
            return c.__name__ + '(' + ', '.join('%s=%r' % (n, getattr(self, n)) for n, _ in fields) + ')'
        def frozen(self, *args):
            raise AttributeError('cannot assign to field')
        if '__init__' not in c.__dict__:
            c.__init__ = __init__
        if options.get('eq', True) and '__eq__' not in c.__dict__:
            c.__eq__ = __eq__
        if '__repr__' not in c.__dict__:
            c.__repr__ = __repr__
        if options.get('frozen'):
            c.__setattr__ = frozen
        c.__dataclass_fields__ = fields
        return c
    return deco if cls is None else deco(cls)

class _field(object):
    def __init__(self, default=_NOTHING, default_factory=_NOTHING, **kwargs):
        self.default, self.default_factory = default, default_factory
    def make(self):
        if self.default is not _NOTHING:
            return self.default
        if self.default_factory is _NOTHING:
            raise TypeError('missing argument')
        return self.default_factory()

def _dc_replace(obj, **changes):
    for n, _ in obj.__dataclass_fields__:
        changes.setdefault(n, getattr(obj, n))
    return type(obj)(**changes)

def _dc_asdict(obj):
    return dict([(n, getattr(obj, n)) for n, _ in obj.__dataclass_fields__])

def _dc_astuple(obj):
    return tuple([getattr(obj, n) for n, _ in obj.__dataclass_fields__])

class Queue(object):
    def __init__(self, maxsize=0):
        self.queue, self.maxsize = [], maxsize
    def put(self, item, block=True, timeout=None):
        self.queue.append(item)
    put_nowait = put
    def get(self, block=True, timeout=None):
        return self.queue.pop(0)
    get_nowait = get
    def empty(self):
        return not self.queue
    def qsize(self):
        return len(self.queue)

class LifoQueue(Queue):
    def get(self, block=True, timeout=None):
        return self.queue.pop()
    get_nowait = get

def heappush(h, x):
    h.append(x)
    i = len(h) - 1
    while i > 0 and h[i] < h[(i - 1) // 2]:
        h[i], h[(i - 1) // 2] = h[(i - 1) // 2], h[i]
        i = (i - 1) // 2

def heapify(h):
    h.sort()

def heappop(h):
    x = min(h)
    h.remove(x)
    h.sort()
    return x

def bisect_left(a, x, lo=0, hi=None):
    hi = len(a) if hi is None else hi
    while lo < hi and a[lo] < x:
        lo += 1
    return lo

def bisect_right(a, x, lo=0, hi=None):
    hi = len(a) if hi is None else hi
    while lo < hi and not x < a[lo]:
        lo += 1
    return lo

def insort(a, x):
    a.insert(bisect_right(a, x), x)

class partial(object):
    def __init__(self, func, *args, **kwargs):
        self.func, self.args, self.keywords = func, args, kwargs
    def __call__(self, *args, **kwargs):
        kw = dict(self.keywords)
        kw.update(kwargs)
        return self.func(*(self.args + args), **kw)

class defaultdict(dict):
    def __init__(self, factory=None, *args, **kwargs):
        dict.__init__(self, *args, **kwargs)
        self.default_factory = factory
    def __missing__(self, key):
        if self.default_factory is None:
            raise KeyError(key)
        v = self.default_factory()
        self[key] = v
        return v

class deque(list):
    def __init__(self, it=(), maxlen=None):
        list.__init__(self, it)
        self.maxlen = maxlen
        while maxlen is not None and len(self) > maxlen:
            self.pop(0)
    def append(self, x):
        list.append(self, x)
        if self.maxlen is not None and len(self) > self.maxlen:
            self.pop(0)
    def extend(self, it):
        for x in it:
            self.append(x)
    def popleft(self):
        if not len(self):
            raise IndexError('pop from an empty deque')
        return self.pop(0)
    def appendleft(self, x):
        self.insert(0, x)
        if self.maxlen is not None and len(self) > self.maxlen:
            self.pop()
    def extendleft(self, it):
        for x in it:
            self.appendleft(x)
    def rotate(self, n=1):
        for _ in range(n):
            self.insert(0, self.pop())
        for _ in range(-n):
            self.append(self.pop(0))
    def copy(self):
        return deque(self, self.maxlen)

class Counter(dict):
    def __init__(self, it=()):
        dict.__init__(self)
        self.update(it)
    def update(self, it=()):
        for x in it:
            self[x] = self.get(x, 0) + (it[x] if isinstance(it, dict) else 1)
    def __missing__(self, key):
        return 0
    def most_common(self, n=None):
        return sorted(self.items(), key=lambda kv: -kv[1])[:n]

def lru_cache(maxsize=128, typed=False):
    def decorator(f):
        cache = {}
        def wrapper(*args, **kwargs):
            key = (args, tuple(sorted(kwargs.items())))
            if key not in cache:
                cache[key] = f(*args, **kwargs)
            return cache[key]
        wrapper.__wrapped__ = f
        wrapper.__name__ = f.__name__
        wrapper.cache_clear = cache.clear
        return wrapper
    if callable(maxsize):
        return decorator(maxsize)
    return decorator

def cached_method(f):
    def wrapper(self, *args, **kwargs):
        name = '_cache_' + f.__name__
        key = (args, tuple(sorted(kwargs.items())))
        if not hasattr(self, name):
            setattr(self, name, {})
        cache = getattr(self, name)
        if key not in cache:
            cache[key] = f(self, *args, **kwargs)
        return cache[key]
    wrapper.__name__ = f.__name__
    return wrapper

class cached_property(object):
    def __init__(self, func):
        self.func = func
    def __get__(self, obj, owner=None):
        if obj is None:
            return self
        name = self.func.__name__.split('.')[-1]
        if name not in obj.__dict__:
            obj.__dict__[name] = self.func(obj)
        return obj.__dict__[name]


def reduce(f, seq, *init):
    it = iter(seq)
    acc = init[0] if init else next(it)
    for x in it:
        acc = f(acc, x)
    return acc

def itemgetter(*keys):
    if len(keys) == 1:
        return lambda o: o[keys[0]]
    return lambda o: tuple([o[k] for k in keys])

def attrgetter(*names):
    if len(names) == 1:
        return lambda o: getattr(o, names[0])
    return lambda o: tuple([getattr(o, n) for n in names])

def methodcaller(name, *a, **k):
    return lambda o: getattr(o, name)(*a, **k)

def chain(*its):
    for it in its:
        for x in it:
            yield x

def chain_from_iterable(its):
    for it in its:
        for x in it:
            yield x

def islice(it, *a):
    s = slice(*a)
    start, stop, step = s.start or 0, s.stop, s.step or 1
    i = 0
    nxt = start
    for x in it:
        if stop is not None and i >= stop:
            return
        if i == nxt:
            yield x
            nxt += step
        i += 1
        if stop is not None and i >= stop:
            return

def count(start=0, step=1):
    while True:
        yield start
        start += step

def cycle(it):
    saved = list(it)
    while saved:
        for x in saved:
            yield x

def repeat(x, n=None):
    i = 0
    while n is None or i < n:
        yield x
        i += 1

def zip_longest(*its, **kw):
    fill = kw.get('fillvalue')
    rows = [list(it) for it in its]
    for i in range(max([len(r) for r in rows] or [0])):
        yield tuple([r[i] if i < len(r) else fill for r in rows])

def groupby(it, key=None):
    groups = []
    for x in it:
        k = x if key is None else key(x)
        if groups and groups[-1][0] == k:
            groups[-1][1].append(x)
        else:
            groups.append((k, [x]))
    for k, xs in groups:
        yield k, iter(xs)

def product(*its, **kw):
    rows = [list(it) for it in its] * kw.get('repeat', 1)
    out = [()]
    for r in rows:
        out = [o + (x,) for o in out for x in r]
    return iter(out)

def accumulate(it, func=None):
    first = True
    for x in it:
        if first:
            acc, first = x, False
        else:
            acc = acc + x if func is None else func(acc, x)
        yield acc

def combinations(it, n):
    xs = list(it)
    def go(start, n):
        if n == 0:
            yield ()
            return
        for i in range(start, len(xs)):
            for rest in go(i + 1, n - 1):
                yield (xs[i],) + rest
    return go(0, n)

def permutations(it, n=None):
    xs = list(it)
    def go(left, n):
        if n == 0:
            yield ()
            return
        for i in range(len(left)):
            for rest in go(left[:i] + left[i + 1:], n - 1):
                yield (left[i],) + rest
    return go(xs, len(xs) if n is None else n)

def tee(it, n=2):
    xs = list(it)
    return tuple([iter(xs) for _ in range(n)])

def filterfalse(p, it):
    for x in it:
        if not (p(x) if p is not None else x):
            yield x

def pairwise(it):
    xs = list(it)
    return zip(xs, xs[1:])

def iter_unpack(fmt, b):
    n = calcsize(fmt)
    if n == 0 or len(b) % n:
        raise struct_error('iterative unpacking requires a buffer of a multiple of %d bytes' % n)
    for i in range(0, len(b), n):
        yield unpack(fmt, b[i:i + n])

def pack_into(fmt, buf, offset, *a):
    b = pack(fmt, *a)
    if offset < 0 or offset + len(b) > len(buf):
        raise struct_error('pack_into requires a buffer of at least %d bytes' % (offset + len(b)))
    buf[offset:offset + len(b)] = b

class Lock(object):
    def __init__(self, *a):
        self.held = False
    def acquire(self, *a, **k):
        self.held = True
        return True
    def release(self):
        self.held = False
    def locked(self):
        return self.held
    def __enter__(self):
        self.acquire()
        return True
    def __exit__(self, *a):
        self.release()

class RLock(Lock):
    pass

class local(object):
    pass

class ABC(object):
    pass

def abstractmethod(f):
    return f

def starmap(f, it):
    for x in it:
        yield f(*x)

def takewhile(p, it):
    for x in it:
        if not p(x):
            return
        yield x

def dropwhile(p, it):
    go = False
    for x in it:
        if not go and not p(x):
            go = True
        if go:
            yield x

class StructClass(object):
    def __init__(self, fmt):
        self.format = fmt
        self.size = calcsize(fmt)
    def pack(self, *a):
        return pack(self.format, *a)
    def unpack(self, b):
        return unpack(self.format, b)
    def unpack_from(self, b, offset=0):
        return unpack_from(self.format, b, offset)
'''


def install(e):
    from ctypes import sizeof  # noqa  (kept out: sizes come from the data model below)
    del sizeof
    e.long_size = 4 if e.platform == 'windows' else e.pointer_size
    T = e.T = {}
    obj = T['object'] = Cls('object')
    for n in ('NoneType', 'int', 'float', 'complex', 'str', 'bytes', 'bytearray', 'list', 'tuple', 'dict', 'set',
              'frozenset', 'range', 'type', 'module', 'generator', 'function', 'builtin_function_or_method', 'method',
              'property', 'iterator', 'classmethod', 'staticmethod', 'memoryview', 'slice', 'code', 'traceback'):
        T[n] = Cls(n, [obj])
    T['bool'] = Cls('bool', [T['int']])
    # exceptions
    import builtins as pb
    exc = e.exc = {}

    def mkexc(c):
        if c.__name__ in exc:
            return exc[c.__name__]
        bases = [mkexc(b) for b in c.__bases__ if issubclass(b, BaseException)] or [obj]
        k = exc[c.__name__] = Cls(c.__name__, bases)
        return k
    for n in dir(pb):
        c = getattr(pb, n)
        if isinstance(c, type) and issubclass(c, BaseException):
            if c.__name__ == n:
                mkexc(c)
    exc['IOError'] = exc['EnvironmentError'] = exc['OSError']
    exc['struct.error'] = Cls('struct.error', [exc['Exception']])
    B = exc['BaseException']
    B.ns['with_traceback'] = N('with_traceback', lambda e_, a, k: a[0])
    B.ns['__traceback__'] = Opaque('traceback')
    B.ns['__cause__'] = None
    B.ns['__context__'] = None

    def exc_init(e_, a, k):
        e.touch(a[0].attrs)
        a[0].attrs['args'] = tuple(a[1:])
        os_errno(a[0])

    def os_errno(o):
        if o.cls.issub(exc['OSError']) and len(o.attrs['args']) >= 2:
            o.attrs['errno'], o.attrs['strerror'] = o.attrs['args'][:2]

    B.ns['__init__'] = N('BaseException.__init__', exc_init)
    exc['OSError'].ns['errno'] = None
    exc['OSError'].ns['strerror'] = None
    exc['StopIteration'].ns['value'] = Prop(N('value', lambda e_, a, k: (a[0].attrs.get('args') or (None,))[0]))

    bi = e.builtins = {}

    def reg(name):
        def d(f):
            bi[name] = Native(name, f)
            return f
        return d

    def hook(name):
        def d(f):
            def h(e_, cls, a, k):
                if cls is T[name]:
                    return f(a, k)
                return generic_new(e, cls, a, k)
            T[name].call_hook = h
            bi[name] = T[name]
            return f
        return d
    bi['object'] = obj
    bi['True'], bi['False'], bi['None'], bi['NotImplemented'], bi['Ellipsis'] = True, False, None, Opaque('NotImplemented', cls=obj), Ellipsis
    bi['__name__'] = '__builtin__'
    for n, c in exc.items():
        if '.' not in n:
            bi[n] = c
    for n in ('bool',):
        bi[n] = T[n]

    @hook('bool')
    def _bool(a, k):
        if not a:
            return False
        if isinstance(a[0], (Cond, bool)):
            return a[0]
        if isinstance(a[0], Poly):
            return compare('!=', a[0], 0)
        return e.truth(a[0])

    def to_int(v, base=None):
        if isinstance(v, Cond):
            return int(e.truth(v))
        if isinstance(v, Poly):
            return v
        if isinstance(v, Opaque) or isinstance(v, StrV):
            return P(Atom('sym', 'int(%r)' % v))
        if isinstance(v, Obj):
            for n in ('__int__', '__index__'):
                if v.cls.has(n):
                    return e.call_method(v, n)
            if isinstance(v.payload, int):
                return v.payload
            e.throw('TypeError', 'int() argument must be a string or a number, not %s' % v.cls.name)
        if isinstance(v, (list, tuple, dict, type(None))):
            e.throw('TypeError', 'int() argument must be a string or a number')
        if isinstance(v, BytesV):
            return P(Atom('sym', 'int(%r)' % v))
        return e.native(int, v, base) if base is not None else e.native(int, v)

    @hook('int')
    def _int(a, k):
        if not a:
            return 0
        return to_int(*a, **k)

    def from_bytes(e_, a, k):
        b = as_bv(a[0])
        if b is None and isinstance(a[0], (list, tuple)):
            b = BytesV([list(a[0])])
        if b is None:
            e.throw('TypeError', 'cannot convert object to bytes')
        cs = b.cells()
        if cs is None:
            raise Unsupported('from_bytes of %r' % (b,))
        order = a[1] if len(a) > 1 else k.get('byteorder', 'big')
        return int_from_cells(e, cs, k.get('signed', False), order == 'big')
    T['int'].ns['from_bytes'] = StaticMethod(N('from_bytes', from_bytes))

    @hook('float')
    def _float(a, k):
        if a and not isinstance(a[0], (int, float, str)):
            return Opaque('float(%r)' % (a[0],))
        return e.native(float, *a)

    @hook('str')
    def _str(a, k):
        if not a:
            return ''
        if len(a) > 1:
            if is_concrete(list(a)):
                return e.native(str, *a)
            return StrV((a[0],))
        return str_(e, a[0])

    def to_bytes_val(a, k, kind):
        if not a:
            return BytesV([], kind)
        x = a[0]
        if isinstance(x, Obj) and x.cls.has('__bytes__'):
            x = e.call_method(x, '__bytes__')
        if hasattr(x, 'sa_bytes'):
            x = x.sa_bytes(e)
        if isinstance(x, str):
            if len(a) < 2 and 'encoding' not in k:
                e.throw('TypeError', 'string argument without an encoding')
            return BytesV([e.native(x.encode, *a[1:])], kind)
        if isinstance(x, Cond):
            x = int(e.truth(x))
        if isinstance(x, (int, Poly)):
            if not e.truth(compare('>=', x, 0)):
                e.throw('ValueError', 'negative count')
            if isinstance(x, int):
                return BytesV([[0] * x], kind)
            return BytesV([Opq('zeros', 0, x)], kind)
        b = as_bv(x)
        if b is not None:
            return BytesV(list(b.segs), kind)
        if x is None:
            e.throw('TypeError', "cannot convert 'NoneType' object to bytes")
        if isinstance(x, Opaque):
            return BytesV([Opq('bytes(%s)' % x.name, 0, e.fresh('len', 0))], kind)
        cells = []
        for c in iterate(e, x):
            if not isinstance(c, (int, Poly)):
                e.throw('TypeError', 'an integer is required')
            if not (e.truth(compare('>=', c, 0)) and e.truth(compare('<=', c, 255))):
                e.throw('ValueError', 'bytes must be in range(0, 256)')
            cells.append(c)
        return BytesV([cells], kind)

    @hook('bytes')
    def _bytes(a, k):
        return norm_bytes(to_bytes_val(a, k, 'bytes')) if a else b''

    @hook('bytearray')
    def _bytearray(a, k):
        return to_bytes_val(a, k, 'bytearray')

    T['bytes'].ns['fromhex'] = StaticMethod(N('fromhex', lambda e_, a, k: e.native(bytes.fromhex, *a)))
    T['str'].ns['join'] = N('join', lambda e_, a, k: e.call(e.get_attr(a[0], 'join'), a[1:]))
    T['str'].ns['maketrans'] = StaticMethod(N('maketrans', lambda e_, a, k: e.native(str.maketrans, *a)))

    @hook('memoryview')
    def _mv(a, k):
        return a[0]

    @hook('list')
    def _list(a, k):
        return list(iterate(e, a[0])) if a else []

    @hook('tuple')
    def _tuple(a, k):
        return tuple(iterate(e, a[0])) if a else ()

    @hook('set')
    def _set(a, k):
        return e.native(set, list(iterate(e, a[0]))) if a else set()

    @hook('frozenset')
    def _fs(a, k):
        return e.native(frozenset, list(iterate(e, a[0]))) if a else frozenset()

    def dict_fill(d, a, k):
        dict_attr(e, d, 'update').fn(e, a, k)
        return d

    @hook('dict')
    def _dict(a, k):
        return dict_fill({}, a, k)
    T['dict'].info['payload'] = dict
    T['dict'].ns['__init__'] = N('dict.__init__', lambda e_, a, k: dict_fill(a[0].payload, a[1:], k) and None)
    T['dict'].ns['fromkeys'] = StaticMethod(N('fromkeys', lambda e_, a, k: {x: (a[1] if len(a) > 1 else None) for x in iterate(e, a[0])}))
    T['list'].info['payload'] = list

    def list_init(e_, a, k):
        if len(a) > 1:
            a[0].payload[:] = list(iterate(e, a[1]))
    T['list'].ns['__init__'] = N('list.__init__', list_init)
    T['set'].info['payload'] = set

    @hook('range')
    def _range(a, k):
        return e.native(range, *[concretise(e, x) if isinstance(x, (Poly, Cond)) else x for x in a])

    @hook('slice')
    def _slice(a, k):
        a = list(a)
        if len(a) == 1:
            a = [None, a[0]]
        return Slice3(*(a + [None] * 3)[:3])

    @hook('type')
    def _type(a, k):
        if len(a) == 1:
            return type_of(e, a[0])
        c = Cls(a[0], a[1] or [obj], dict(a[2]))
        e.class_made(c, k)
        return c

    @hook('property')
    def _prop(a, k):
        return Prop(a[0] if a else k.get('fget'), a[1] if len(a) > 1 else k.get('fset'))

    @hook('classmethod')
    def _cm(a, k):
        return ClassMethod(a[0])

    @hook('staticmethod')
    def _sm(a, k):
        return StaticMethod(a[0])

    @reg('super')
    def _super(e_, a, k):
        return Super(a[0], a[1])

    @reg('locals')
    def _locals(e_, a, k):
        raise Unsupported('locals()')

    @reg('globals')
    def _globals(e_, a, k):
        raise Unsupported('globals()')

    @reg('len')
    def _len(e_, a, k):
        x = a[0]
        if isinstance(x, Obj):
            if x.cls.has('__len__'):
                return e.call_method(x, '__len__')
            if x.payload is not None:
                return len(x.payload)
            e.throw('TypeError', 'object of type %s has no len()' % x.cls.name)
        if isinstance(x, BytesV):
            return x.length()
        if isinstance(x, (str, bytes, list, tuple, dict, set, frozenset, range)):
            return len(x)
        if isinstance(x, StrV):
            return P(Atom('sym', 'len(%r)' % x))
        if hasattr(x, 'sa_len'):
            return x.sa_len(e)
        if isinstance(x, Opaque) and x.cls is None:
            a_ = Atom('sym', 'len(%s)' % x.name)
            if a_ not in e.doms:
                e.doms[a_] = Dom(0, None)
            return P(a_)
        e.throw('TypeError', 'object of type %r has no len()' % type_of(e, x).name)

    @reg('isinstance')
    def _isinst(e_, a, k):
        return e.isinstance_(a[0], a[1])

    @reg('issubclass')
    def _issub(e_, a, k):
        ts = a[1] if isinstance(a[1], tuple) else (a[1],)
        if not isinstance(a[0], Cls):
            e.throw('TypeError', 'issubclass() arg 1 must be a class')
        return any(a[0].issub(t) for t in ts)

    @reg('hasattr')
    def _hasattr(e_, a, k):
        try:
            return e.get_attr_or_missing(a[0], a[1]) is not _MISSING
        except PyRaise as pe:
            if pe.exc.cls.issub(exc['AttributeError']):
                return False
            raise

    @reg('getattr')
    def _getattr(e_, a, k):
        if isinstance(a[1], (StrV, Opaque)):
            return Opaque('getattr(%r,%r)' % (a[0], a[1]))
        if len(a) > 2:
            try:
                v = e.get_attr_or_missing(a[0], a[1])
            except PyRaise as pe:
                if pe.exc.cls.issub(exc['AttributeError']):
                    return a[2]
                raise
            return a[2] if v is _MISSING else v
        return e.get_attr(a[0], a[1])

    @reg('setattr')
    def _setattr(e_, a, k):
        e.set_attr(a[0], a[1], a[2])

    @reg('delattr')
    def _delattr(e_, a, k):
        if isinstance(a[0], Obj) and a[1] in a[0].attrs:
            e.touch(a[0].attrs)
            del a[0].attrs[a[1]]
        else:
            e.throw('AttributeError', a[1])

    @reg('callable')
    def _callable(e_, a, k):
        v = a[0]
        if isinstance(v, Opaque) and v.cls is None:
            return Cond('b', 'callable:' + v.name)
        return isinstance(v, (Func, Native, Bound, Cls)) or (isinstance(v, Obj) and v.cls.has('__call__')) or hasattr(v, 'sa_call')

    @reg('iter')
    def _iter(e_, a, k):
        if len(a) == 2:
            def it():
                while True:
                    v = e.call(a[0], [])
                    if e.truth(e.eq(v, a[1])):
                        return
                    yield v
            return PyIter(it())
        if isinstance(a[0], (PyIter, GenObj)):
            return a[0]
        return PyIter(iterate(e, a[0]))

    @reg('next')
    def _next(e_, a, k):
        return do_next(e, a[0], a[1] if len(a) > 1 else _MISSING)

    @reg('enumerate')
    def _enum(e_, a, k):
        st = a[1] if len(a) > 1 else k.get('start', 0)
        return PyIter((add(st, i), x) for i, x in enumerate(iterate(e, a[0])))

    @reg('zip')
    def _zip(e_, a, k):
        return PyIter(zip(*[iterate(e, x) for x in a]))

    @reg('map')
    def _map(e_, a, k):
        return PyIter(e.call(a[0], list(xs)) for xs in zip(*[iterate(e, x) for x in a[1:]]))

    @reg('filter')
    def _filter(e_, a, k):
        return PyIter(x for x in iterate(e, a[1]) if e.truth(x if a[0] is None else e.call(a[0], [x])))

    @reg('sum')
    def _sum(e_, a, k):
        t = a[1] if len(a) > 1 else k.get('start', 0)
        for x in iterate(e, a[0]):
            t = e.binop('+', t, x)
        return t

    def minmax(name):
        def f(e_, a, k):
            xs = list(iterate(e, a[0])) if len(a) == 1 else list(a)
            key = k.get('key')
            if not xs:
                if 'default' in k:
                    return k['default']
                e.throw('ValueError', '%s() arg is an empty sequence' % name)
            best = xs[0]
            for x in xs[1:]:
                kb, kx = (e.call(key, [best]), e.call(key, [x])) if key is not None else (best, x)
                if e.truth(e.cmp('<' if name == 'min' else '>', kx, kb)):
                    best = x
            return best
        bi[name] = Native(name, f)
    minmax('min')
    minmax('max')

    @reg('abs')
    def _abs(e_, a, k):
        if isinstance(a[0], Poly):
            return a[0] if e.truth(compare('>=', a[0], 0)) else neg(a[0])
        return e.native(abs, a[0])

    @reg('any')
    def _any(e_, a, k):
        for x in iterate(e, a[0]):
            if e.truth(x):
                return True
        return False

    @reg('all')
    def _all(e_, a, k):
        for x in iterate(e, a[0]):
            if not e.truth(x):
                return False
        return True

    @reg('sorted')
    def _sorted(e_, a, k):
        return py_sorted(e, a[0], k.get('key'), k.get('reverse', False))

    @reg('reversed')
    def _rev(e_, a, k):
        return PyIter(list(iterate(e, a[0]))[::-1])

    @reg('repr')
    def _repr(e_, a, k):
        return repr_(e, a[0])

    @reg('format')
    def _format(e_, a, k):
        return format_value(e, a[0], a[1] if len(a) > 1 else '')

    def numfmt(name):
        def f(e_, a, k):
            x = a[0]
            if isinstance(x, Cond):
                x = e.truth(x)
            if isinstance(x, (Poly, Opaque)):
                return StrV((name, x))
            return e.native(getattr(pb, name), x)
        bi[name] = Native(name, f)
    for n in ('hex', 'bin', 'oct'):
        numfmt(n)

    @reg('ord')
    def _ord(e_, a, k):
        x = a[0]
        b = as_bv(x)
        if b is not None:
            cs = b.cells()
            if cs is None or len(cs) != 1:
                e.throw('TypeError', 'ord() expected a character')
            return cs[0]
        if isinstance(x, StrV):
            return e.fresh('ord', 0, 0x10ffff)
        return e.native(ord, x)

    @reg('chr')
    def _chr(e_, a, k):
        if isinstance(a[0], Poly):
            return StrV(('chr', a[0]))
        return e.native(chr, a[0])

    @reg('id')
    def _id(e_, a, k):
        return id(a[0])

    @reg('hash')
    def _hash(e_, a, k):
        return Opaque('hash')

    @reg('round')
    def _round(e_, a, k):
        return e.native(round, *a) if is_concrete(list(a)) else Opaque('round')

    @reg('divmod')
    def _divmod(e_, a, k):
        return (e.binop('//', a[0], a[1]), e.binop('%', a[0], a[1]))

    @reg('pow')
    def _pow(e_, a, k):
        return e.binop('**', a[0], a[1]) if len(a) == 2 else e.native(pow, *a)

    @reg('print')
    def _print(e_, a, k):
        for x in a:
            str_(e, x)

    @reg('vars')
    def _vars(e_, a, k):
        return a[0].attrs if isinstance(a[0], Obj) else a[0].ns

    @reg('dir')
    def _dir(e_, a, k):
        x = a[0]
        names = set()
        if isinstance(x, Obj):
            names |= set(x.attrs)
            x = x.cls
        if isinstance(x, Cls):
            for c in x.mro:
                names |= set(c.ns)
        if isinstance(x, Module):
            names |= set(x.ns)
        return sorted(names)

    @reg('__import__')
    def _imp(e_, a, k):
        names = dict(zip(('name', 'globals', 'locals', 'fromlist', 'level'), a))
        names.update(k)
        name, frm, level = names['name'], names.get('fromlist') or (), names.get('level') or 0
        if level:
            if not isinstance(names.get('globals'), dict):
                raise Unsupported('a relative __import__')
            package = names['globals'].get('__package__') or names['globals']['__name__']
            name = '.'.join(package.split('.')[:len(package.split('.')) - level + 1] + ([name] if name else []))
        m = e.load(name)
        if not frm:
            return m if level else e.load(name.split('.')[0])
        for f in iterate(e, frm):
            if e.get_attr_or_missing(m, f) is _MISSING:
                try:
                    e.load(name + '.' + f)
                except PyRaise:
                    pass
        return m
    bi['open'] = Native('open', lambda e_, a, k: ext_call(e, 'open', a, k))
    bi['__debug__'] = True

    # ------------------------------------------------------------ modules
    def pymod(name, **ns):
        def f(eng):
            m = Module(name)
            m.ns.update(ns)
            m.attr_hook = lambda en, mod, attr: en.stdlib_attr(en, mod, attr) if not attr.startswith('__') else None
            return m
        e.ext[name] = f

    prelude_ns = {}

    def prelude():
        if not prelude_ns:
            active, e.path_active = e.path_active, False
            try:
                m = e.run_source(PRELUDE, '<prelude>', {'struct_error': exc['struct.error'], 'calcsize': sm['calcsize'], 'pack': sm['pack'],
                                                        'unpack': sm['unpack'], 'unpack_from': sm['unpack_from'],
                                                        '_NOTHING': Opaque('nothing'),
                                                        '_class_default': N('default', lambda e_, a, k: a[0].lookup(a[1])),
                                                        '_fields_of': N('fields', lambda e_, a, k: dataclass_fields(a[0]))})
            finally:
                e.path_active = active
            prelude_ns.update(m.ns)
            m.ns['chain'].attrs['from_iterable'] = m.ns['chain_from_iterable']
        return prelude_ns
    e.prelude = prelude

    def strict(name, **extra):
        def f(eng):
            m = Module(name)
            for n, v in extra.items():
                m.ns[n] = prelude()[v] if isinstance(v, str) and v in prelude() else v
            m.attr_hook = lambda en, mod, attr: en.stdlib_attr(en, mod, attr) if not attr.startswith('__') else None
            return m
        e.ext[name] = f

    def wraps(e_, a, k):
        src = a[0]

        def deco(e2, b, k2):
            f = b[0]
            if isinstance(f, (Func, Native)):
                e.touch(f.attrs)
                try:
                    f.attrs['__name__'] = e.get_attr(src, '__name__')
                except PyRaise:
                    pass
                f.attrs['__wrapped__'] = src
            return f
        return N('wraps-decorator', deco)
    wraps_n = N('wraps', wraps)
    ident = N('identity', lambda e_, a, k: a[0])

    sm = {
        'pack': N('pack', lambda e_, a, k: struct_pack(e, a[0], a[1:])),
        'unpack': N('unpack', lambda e_, a, k: struct_unpack(e, a[0], a[1])),
        'unpack_from': N('unpack_from', lambda e_, a, k: struct_unpack(e, a[0], a[1], a[2] if len(a) > 2 else k.get('offset', 0), False)),
        'calcsize': N('calcsize', lambda e_, a, k: struct_parse(e, a[0])[1]),
        'error': exc['struct.error'],
    }
    strict('struct', Struct='StructClass', iter_unpack='iter_unpack', pack_into='pack_into', **sm)
    strict('contextlib', contextmanager='contextmanager', closing='closing', suppress='suppress', ExitStack='ExitStack')
    strict('functools', partial='partial', reduce='reduce', wraps=wraps_n, lru_cache='lru_cache', cache='lru_cache',
           cached_property='cached_property',
           update_wrapper=N('update_wrapper', lambda e_, a, k: a[0]))

    # enumerations: members of integer enumerations are integers that know their name
    def enum_members(eng, cls):
        if cls in (enum_base, int_enum):
            return
        by = {}
        skip = (Func, Native, Prop, ClassMethod, StaticMethod, Cls)
        autos = 0
        for n, v in list(cls.ns.items()):
            if n.startswith('_') or isinstance(v, skip):
                continue
            if isinstance(v, Opaque):
                autos += 1
                v = autos
            if isinstance(v, int):
                autos = v
            m = next((x for k, x in by.values() if k == v and type(k) is type(v)), None)
            if m is None:
                if cls.issub(int_enum):
                    m = EnumInt(v)
                    m.sa_class, m.sa_name = cls, n
                else:
                    m = Obj(cls, {'name': n, 'value': v, '_name_': n, '_value_': v})
            by[n] = (v, m)
            cls.ns[n] = m
        cls.ns['__members__'] = {n: m for n, (v, m) in by.items()}

        def lookup(e2, c, args, kw):
            for n, (v, m) in by.items():
                if args[0] is m or e.truth(e.cmp('==', args[0], v)):
                    return m
            e.throw('ValueError', '%s is not a valid %s' % (show_(args[0]), cls.name))
        cls.call_hook = lookup
        cls.info['iter'] = lambda: list({id(m): m for v, m in by.values()}.values())
        cls.info['item'] = lambda n: by[n][1] if n in by else e.throw('KeyError', n)
    enum_base = Cls('Enum', [obj])
    enum_base.on_subclass = enum_members
    int_enum = Cls('IntEnum', [T['int'], enum_base])
    strict('enum', Enum=enum_base, IntEnum=int_enum, unique=ident, auto=N('auto', lambda e_, a, k: Opaque('auto')))
    strict('threading', Lock='Lock', RLock='RLock', local='local')
    strict('abc', ABC='ABC', ABCMeta=T['type'], abstractmethod='abstractmethod', abstractproperty=N('abstractproperty', lambda e_, a, k: Prop(a[0])))

    def import_module(e_, a, k):
        name, package = a[0], a[1] if len(a) > 1 else k.get('package')
        if name.startswith('.'):
            n = len(name) - len(name.lstrip('.'))
            name = '.'.join(package.split('.')[:len(package.split('.')) - n + 1] + [name[n:]])
        return e.load(name)
    strict('importlib', import_module=N('import_module', import_module))
    strict('itertools', **{n: n for n in ('chain', 'islice', 'count', 'cycle', 'repeat', 'starmap', 'takewhile', 'dropwhile', 'zip_longest',
                                          'groupby', 'product', 'accumulate', 'combinations', 'permutations', 'tee', 'filterfalse', 'pairwise')})
    e_ops = {}
    for n, op in (('add', '+'), ('sub', '-'), ('mul', '*'), ('and_', '&'), ('or_', '|'), ('xor', '^'),
                  ('lshift', '<<'), ('rshift', '>>'), ('floordiv', '//'), ('mod', '%')):
        e_ops[n] = N(n, lambda e_, a, k, op=op: e.binop(op, a[0], a[1]))
    for n, op in (('eq', '=='), ('ne', '!='), ('lt', '<'), ('le', '<='), ('gt', '>'), ('ge', '>=')):
        e_ops[n] = N(n, lambda e_, a, k, op=op: e.cmp(op, a[0], a[1]))
    e_ops['getitem'] = N('getitem', lambda e_, a, k: get_item(e, a[0], a[1]))
    e_ops['not_'] = N('not_', lambda e_, a, k: not e.truth(a[0]))
    e_ops['contains'] = N('contains', lambda e_, a, k: e.contains(a[0], a[1]))
    strict('operator', itemgetter='itemgetter', attrgetter='attrgetter', methodcaller='methodcaller', **e_ops)

    def namedtuple(e_, a, k):
        fields = a[1]
        if isinstance(fields, str):
            fields = fields.replace(',', ' ').split()
        fields = list(fields)
        c = Cls(a[0], [T['tuple']])

        def new(e2, cls, args, kw):
            vals = list(args)
            for f in fields[len(vals):]:
                if f not in kw:
                    e.throw('TypeError', '%s missing argument %r' % (a[0], f))
                vals.append(kw[f])
            if len(vals) != len(fields):
                e.throw('TypeError', '%s takes %d arguments' % (a[0], len(fields)))
            return Obj(cls, dict(zip(fields, vals)), payload=tuple(vals))
        c.call_hook = new
        c.ns['_fields'] = tuple(fields)
        c.ns['_make'] = ClassMethod(N('_make', lambda e2, b, k2: new(e2, b[0], list(iterate(e, b[1])), {})))
        c.ns['_asdict'] = N('_asdict', lambda e2, b, k2: dict(zip(fields, b[0].payload)))
        c.ns['_replace'] = N('_replace', lambda e2, b, k2: new(e2, b[0].cls, [k2.get(f, v) for f, v in zip(fields, b[0].payload)], {}))
        return c
    strict('collections', defaultdict='defaultdict', deque='deque', OrderedDict=T['dict'], Counter='Counter', namedtuple=N('namedtuple', namedtuple))
    strict('types', GeneratorType=T['generator'], FunctionType=T['function'], MethodType=T['method'],
           ModuleType=T['module'], LambdaType=T['function'], BuiltinFunctionType=T['builtin_function_or_method'])
    def folded(mod, *names):
        """functions of concrete values, evaluated as they are; anything else is outside the model"""
        import importlib
        real = importlib.import_module(mod)

        def one(n):
            f = getattr(real, n)
            if not callable(f):
                return f

            def call(e_, a, k):
                a = [x.concrete() if isinstance(x, BytesV) and x.concrete() is not None else x for x in a]
                a = [x.o if isinstance(x, Folded) else x for x in a]
                if any(isinstance(x, (Poly, Cond)) for x in a) and mod == 'math':
                    return Opaque('%s.%s(%r)' % (mod, n, a))
                if not is_concrete(list(a)) or not is_concrete(dict(k)):
                    raise Unsupported('%s.%s of unknown values' % (mod, n))
                return fold(e, e.native(f, *a, **k))
            return N(mod + '.' + n, call)
        return {n: one(n) for n in names if hasattr(real, n)}
    strict('math', **folded('math', 'ceil', 'floor', 'log', 'log2', 'log10', 'sqrt', 'pow', 'fabs', 'trunc', 'gcd', 'isnan', 'isinf', 'inf', 'pi', 'e'))
    strict('string', **folded('string', 'ascii_letters', 'ascii_lowercase', 'ascii_uppercase', 'digits', 'hexdigits', 'octdigits',
                              'punctuation', 'printable', 'whitespace', 'capwords'))
    fre = folded('re', 'match', 'search', 'fullmatch', 'findall', 'split', 'sub', 'subn', 'escape', 'compile')
    fre.update({n: int(getattr(re, n)) for n in ('I', 'M', 'S', 'X', 'A', 'IGNORECASE', 'MULTILINE', 'DOTALL', 'VERBOSE', 'ASCII')})
    strict('re', **fre)
    strict('dataclasses', dataclass='dataclass', field='_field', replace='_dc_replace', asdict='_dc_asdict', astuple='_dc_astuple')
    strict('queue', Queue='Queue', SimpleQueue='Queue', LifoQueue='LifoQueue')
    strict('heapq', heappush='heappush', heappop='heappop', heapify='heapify')
    strict('bisect', bisect='bisect_right', bisect_left='bisect_left', bisect_right='bisect_right', insort='insort', insort_right='insort')
    strict('textwrap', **folded('textwrap', 'dedent', 'indent', 'fill', 'wrap', 'shorten'))
    strict('binascii', hexlify=N('hexlify', lambda e_, a, k: hexlify(e, a[0])), b2a_hex=N('hexlify', lambda e_, a, k: hexlify(e, a[0])),
           **folded('binascii', 'unhexlify', 'a2b_hex', 'crc32'))
    strict('infi.pyutils.contexts', contextmanager='contextmanager')
    strict('infi.pyutils.decorators', wraps=wraps_n)
    strict('infi.pyutils.lazy', cached_method='cached_method', cached_property='cached_property', cached_function='lru_cache')
    strict('infi.pyutils')
    strict('pkg_resources', declare_namespace=N('declare_namespace', lambda e_, a, k: None))
    strict('copy', copy=N('copy', lambda e_, a, k: py_copy(e, a[0], False)), deepcopy=N('deepcopy', lambda e_, a, k: py_copy(e, a[0], True)))

    def infi_exc(eng):
        m = Module('infi.exceptools')
        m.ns['InfiException'] = infi_exception
        m.attr_hook = lambda en, mod, attr: Opaque('infi.exceptools.' + attr) if not attr.startswith('__') else None
        return m
    infi_exception = Cls('InfiException', [exc['Exception']])
    e.exc['InfiException'] = infi_exception
    e.ext['infi.exceptools'] = infi_exc

    def os_info(eng):
        m = Module('infi.os_info')
        strings = {'linux': 'linux-ubuntu-bionic-x64', 'windows': 'windows-x64', 'solaris': 'solaris-5.11-sparc', 'aix': 'aix-7.1-powerpc'}

        def gps(e_, a, k):
            v = e.opts.get('platform_string')
            return v if v is not None else strings[e.platform]
        m.ns['get_platform_string'] = N('get_platform_string', gps)
        m.attr_hook = lambda en, mod, attr: Opaque('infi.os_info.' + attr) if not attr.startswith('__') else None
        return m
    e.ext['infi.os_info'] = os_info

    def sysm(eng):
        m = Module('sys')
        vi = Cls('version_info', [T['tuple']])
        o = Obj(vi, {'major': 3, 'minor': 9, 'micro': 0}, payload=(3, 9, 0, 'final', 0))
        m.ns.update(version_info=o, maxsize=(1 << (8 * e.pointer_size - 1)) - 1, byteorder='little',
                    platform={'linux': 'linux', 'windows': 'win32', 'solaris': 'sunos5', 'aix': 'aix7'}[e.platform],
                    version='3.9', modules={}, path=[], argv=['prog'])

        def exc_info(e_, a, k):
            x = e.current_exc()
            return (None, None, None) if x is None else (x.cls, x, Opaque('traceback'))
        m.ns['exc_info'] = N('exc_info', exc_info)
        m.ns['getsizeof'] = N('getsizeof', lambda e_, a, k: Opaque('getsizeof'))
        m.attr_hook = lambda en, mod, attr: Opaque('sys.' + attr) if attr in ('stdout', 'stderr', 'stdin', 'executable', 'exit', 'maxunicode') else None
        return m
    e.ext['sys'] = sysm

    def extmod(name, fns, consts=None):
        def f(eng):
            m = Module(name)
            for n in fns:
                m.ns[n] = N(name + '.' + n, lambda e_, a, k, n=n: ext_call(e, name + '.' + n, a, k))
            m.ns.update(consts or {})
            m.attr_hook = lambda en, mod, attr: en.stdlib_attr(en, mod, attr) if not attr.startswith('__') else None
            return m
        e.ext[name] = f
    extmod('os', ['open', 'read', 'write', 'close'], dict(O_RDWR=2, O_RDONLY=0, O_WRONLY=1, O_NONBLOCK=0o4000,
                                                         O_EXCL=0o200, O_CREAT=0o100, O_SYNC=0o4010000, name='nt' if e.platform == 'windows' else 'posix',
                                                         error=exc['OSError'], linesep='\n', sep='/'))
    extmod('select', ['select', 'poll'], dict(error=exc['OSError']))
    extmod('fcntl', ['ioctl', 'fcntl'])
    extmod('time', ['time', 'sleep', 'monotonic'])
    extmod('errno', [], {n: v for n, v in __import__('errno').__dict__.items() if isinstance(v, int)})
    if e.gevent:
        extmod('gevent', ['sleep', 'spawn', 'joinall'])

    def six(eng):
        m = Module('six')
        m.ns.update(PY3=True, PY2=False, text_type=T['str'], binary_type=T['bytes'], string_types=(T['str'],),
                    integer_types=(T['int'],), class_types=(T['type'],), MAXSIZE=(1 << (8 * e.pointer_size - 1)) - 1)

        def need(f):
            def g(e_, a, k):
                if as_bv(a[0]) is None:
                    e.throw('TypeError', 'bytes expected')
                return f(*a)
            return g
        m.ns['indexbytes'] = N('indexbytes', lambda e_, a, k: get_item(e, a[0], a[1]))
        m.ns['iterbytes'] = N('iterbytes', lambda e_, a, k: PyIter(iterate(e, a[0])))
        m.ns['int2byte'] = N('int2byte', lambda e_, a, k: struct_pack(e, '>B', [a[0]]))
        m.ns['byte2int'] = N('byte2int', lambda e_, a, k: get_item(e, a[0], 0))
        m.ns['b'] = N('b', lambda e_, a, k: e.native(a[0].encode, 'latin-1') if isinstance(a[0], str) else a[0])
        m.ns['u'] = N('u', lambda e_, a, k: a[0])
        m.ns['next'] = N('next', lambda e_, a, k: do_next(e, *a))
        for n in ('items', 'keys', 'values'):
            m.ns['iter' + n] = N('iter' + n, lambda e_, a, k, n=n: e.call_method(a[0], n))

        def reraise(e_, a, k):
            e.raise_value(a[1] if len(a) > 1 and a[1] is not None else a[0])
        m.ns['reraise'] = N('reraise', reraise)
        m.attr_hook = lambda en, mod, attr: Opaque('six.' + attr) if not attr.startswith('__') else None
        return m
    e.ext['six'] = six


def ext_call(e, name, a, k):
    ev = e.event('ext', name=name, args=a, kw=k)
    h = e.handlers.get(name)
    if h is not None:
        r = h(e, a, k)
        ev['result'] = r
        return r
    r = Opaque('%s()' % name)
    n = e.fresh_n.get(name, 0)
    e.fresh_n[name] = n + 1
    if n:
        r.name += '#%d' % n
    return r


def hexlify(e, x):
    b = as_bv(x)
    if b is None and hasattr(x, 'sa_bytes'):
        b = x.sa_bytes(e)
    if b is None:
        if isinstance(x, Opaque) and x.cls is None:
            return BytesV([Opq('hexlify(%s)' % x.name, 0, e.fresh('len', 0))])
        e.throw('TypeError', "a bytes-like object is required, not %r" % type_of(e, x).name)
    c = b.concrete()
    if c is not None:
        import binascii
        return binascii.hexlify(c)
    return BytesV([Opq('hexlify(%r)' % b, 0, mul(b.length(), 2))])


def py_copy(e, x, deep):
    if isinstance(x, list):
        return [py_copy(e, v, True) if deep else v for v in x]
    if isinstance(x, dict):
        return {k: py_copy(e, v, True) if deep else v for k, v in x.items()}
    if isinstance(x, BytesV) and x.kind == 'bytearray':
        return BytesV(list(x.segs), x.kind)
    if isinstance(x, Obj):
        if x.cls.has('__copy__') or x.cls.has('__deepcopy__') or x.cls.info.get('getattr'):
            raise Unsupported('copy of %r' % (x,))
        return Obj(x.cls, {k: py_copy(e, v, True) if deep else v for k, v in x.attrs.items()},
                   py_copy(e, x.payload, deep))
    return x
