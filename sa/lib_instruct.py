"""Transfer functions for infi.instruct (the declarative serialisation library the
repository builds its commands and response layouts from).

Struct-side marshals are written as an analysed prelude; the Buffer side (byte-range
references) is modelled natively so that positions, guards and selectors stay symbolic.
"""
from .values import *
from .interp import _MISSING, Slice3
from . import lib_py
from .lib_py import N, slice_bytes, int_cells, int_from_cells, get_item, concretise

ALL = [
    'int8', 'n_int8', 'b_int8', 'l_int8', 'uint8', 'n_uint8', 'b_uint8', 'l_uint8',
    'int16', 'n_int16', 'b_int16', 'l_int16', 'uint16', 'n_uint16', 'b_uint16', 'l_uint16',
    'int32', 'n_int32', 'b_int32', 'l_int32', 'uint32', 'n_uint32', 'b_uint32', 'l_uint32',
    'int64', 'n_int64', 'b_int64', 'l_int64', 'uint64', 'n_uint64', 'b_uint64', 'l_uint64',
    'int_field', 'uint_field', 'float_field', 'str_type', 'str_type_factory', 'str_field', 'buffer_field', 'list_field',
    'bytearray_field', 'be_int_field', 'le_int_field', 'bytes_ref', 'total_size', 'after_ref', 'member_func_ref',
    'le_uint_field', 'be_uint_field', 'len_ref', 'min_ref', 'max_ref', 'self_ref', 'num_ref', 'input_buffer_length',
    'json_field'
]


class NotStatic(Exception):
    pass


class StaticCtx(object):
    static = True

    def __getattr__(self, name):
        raise NotStatic()


class Ctx(object):
    static = False

    def __init__(self, e, obj, fields, view=None):
        self.e, self.obj, self.fields, self.view = e, obj, fields, view
        self.is_pack = view is None
        self.cache, self.active = {}, []
        self.out = None

    def field(self, name):
        for f in self.fields:
            if f.name == name:
                return f
        return None


# ---------------------------------------------------------------- views (byte or bit aligned windows of the input)
class View(object):
    def __init__(self, e, bv=None, bits=None):
        self.e, self.bv, self.bits = e, bv, bits

    def length(self):
        if self.bits is not None:
            n = len(self.bits)
            return n // 8 if n % 8 == 0 else n / 8.0
        return self.bv.length()

    def nbytes(self):
        if self.bits is not None:
            return (len(self.bits) + 7) // 8
        return self.bv.length()

    def slice(self, start, stop):
        """clamped, like BitView.__getitem__(slice)"""
        e = self.e
        if self.bits is None and whole(start) and (stop is None or whole(stop)):
            return View(e, bv=slice_bytes(e, self.bv, Slice3(toint(start), None if stop is None else toint(stop), None)))
        if isinstance(start, Poly) or isinstance(stop, Poly):
            raise Unsupported('bit field at a symbolic position (%s)' % e.where())
        if stop is None:
            n = self.length()
            if isinstance(n, Poly):
                raise Unsupported('open bit range')
            stop = n
        return View(e, bits=self.get_bits(start, stop))

    def get_bits(self, start, stop):
        e = self.e
        b0, b1 = int(start * 8), int(stop * 8)
        if self.bits is not None:
            return self.bits[b0:b1]
        out = []
        n = self.bv.length()
        for byte in range(b0 // 8, (b1 + 7) // 8):
            if not e.truth(compare('<', byte, n)):
                break
            c = get_item(e, self.bv, byte)
            cb = e.bits_of(c, 8)
            for i in range(8):
                if b0 <= byte * 8 + i < b1:
                    out.append(cb[i])
        return out

    def all_bits(self):
        if self.bits is not None:
            return self.bits
        cs = self.cells()
        out = []
        for c in cs:
            out += self.e.bits_of(c, 8)
        return out

    def cells(self):
        if self.bits is not None:
            return [self.e.mk_bits((self.bits[i:i + 8] + [0] * 8)[:8]) for i in range(0, len(self.bits), 8)]
        cs = self.bv.cells()
        if cs is None:
            # a window of known size at a symbolic position
            n = self.bv.length()
            if isinstance(n, int):
                cs = []
                for s in self.bv.segs:
                    if isinstance(s, list):
                        cs += s
                    else:
                        m = s.length()
                        if not isinstance(m, int):
                            raise Unsupported('bytes at an unknown split (%s)' % self.e.where())
                        cs += [P(Atom('wb', s.src, add(s.start, i))) for i in range(m)]
        if cs is None:
            raise Unsupported('contents of a window of unknown length (%s)' % self.e.where())
        return cs

    def bytesv(self, kind):
        if self.bits is not None:
            return BytesV([self.cells()], kind)
        return BytesV(list(self.bv.segs), kind)


def whole(x):
    return isinstance(x, Poly) or int(x) == x


def toint(x):
    return x if isinstance(x, Poly) else int(x)


def num_add(a, b):
    if isinstance(a, Poly) or isinstance(b, Poly):
        if (isinstance(a, float) and a != int(a)) or (isinstance(b, float) and b != int(b)):
            raise Unsupported('fractional offset from a symbolic position')
        return add(a if isinstance(a, Poly) else int(a), b if isinstance(b, Poly) else int(b))
    return a + b


def num_sub(a, b):
    if isinstance(b, Poly):
        return num_add(a, neg(b))
    return num_add(a, -b)


# ---------------------------------------------------------------- references
class Ref(object):
    numeric = False

    def deref(self, ctx):
        if ctx.static:
            return self.evaluate(ctx)
        if self in ctx.active:
            ctx.e.throw('InstructError', 'Cyclic reference detected')
        if id(self) in ctx.cache:
            return ctx.cache[id(self)][0]
        ctx.active.append(self)
        try:
            r = self.evaluate(ctx)
            ctx.cache[id(self)] = (r, self)
            return r
        finally:
            ctx.active.pop()

    def is_static(self):
        try:
            self.deref(StaticCtx())
            return True
        except NotStatic:
            return False

    def sa_class(self, e):
        return e.instruct_cls['FieldReference' if isinstance(self, FieldRef) else 'Reference']

    def check(self, e, op, other):
        ok = (self.numeric and isinstance(other, (int, float, Poly))) or (isinstance(other, Ref) and other.numeric)
        if not ok:
            e.throw('TypeError', 'unsupported operand type(s) for %s: reference and %r' % (op, other))

    def sa_binop(self, e, op, other, reflected):
        if op not in ('+', '-', '*', '/', '//'):
            e.throw('TypeError', 'unsupported operand type(s) for %s: reference' % op)
        self.check(e, op, other)
        a, b = (other, self) if reflected else (self, other)
        return BinExpr(e, op, a, b)

    def sa_cmp(self, e, op, other, reflected):
        if not ((self.numeric and isinstance(other, (int, float, Poly))) or (isinstance(other, Ref) and other.numeric)):
            if op == '==':
                return self is other
            if op == '!=':
                return self is not other
            e.throw('TypeError', '%s not supported between reference and %r' % (op, other))
        return BinExpr(e, op, self, other)

    def sa_getattr(self, e, name):
        return _MISSING


class Const(Ref):
    def __init__(self, v):
        self.v = v
        self.numeric = isinstance(v, (int, float, Poly))

    def evaluate(self, ctx):
        return self.v

    def __repr__(self):
        return repr(self.v)


def to_ref(v):
    return v if isinstance(v, Ref) else Const(v)


class BinExpr(Ref):
    numeric = True

    def __init__(self, e, op, a, b):
        self.e, self.op, self.a, self.b = e, op, to_ref(a), to_ref(b)

    def evaluate(self, ctx):
        a, b = self.a.deref(ctx), self.b.deref(ctx)
        if self.op in ('<', '<=', '>', '>=', '==', '!='):
            return self.e.cmp(self.op, a, b)
        return self.e.binop(self.op, a, b)

    def __repr__(self):
        return '(%r %s %r)' % (self.a, self.op, self.b)


class InputLen(Ref):
    numeric = True

    def evaluate(self, ctx):
        v = ctx.view
        return v.nbytes()

    def __repr__(self):
        return 'input_buffer_length'


class CallRef(Ref):
    def __init__(self, e, numeric, fn, args=(), kw=None):
        self.e, self.numeric, self.fn = e, numeric, fn
        self.args, self.kw = [to_ref(a) for a in args], {k: to_ref(v) for k, v in (kw or {}).items()}

    def evaluate(self, ctx):
        fn = self.fn.deref(ctx) if isinstance(self.fn, Ref) else self.fn
        args = [a.deref(ctx) for a in self.args]
        kw = {k: v.deref(ctx) for k, v in self.kw.items()}
        return self.e.call(fn, args, kw)


class ObjRef(Ref):
    def evaluate(self, ctx):
        return ctx.obj


class AttrRef(Ref):
    """self_ref.name"""

    def __init__(self, e, name):
        self.e, self.name = e, name

    def evaluate(self, ctx):
        fields = ctx.fields
        for f in fields:
            if f.name == self.name:
                return f.deref(ctx)
        return self.e.get_attr(ctx.obj, self.name)

    def sa_call(self, e, args, kw):
        return CallRef(e, False, MethodRef(e, self.name), args, kw)

    def __repr__(self):
        return 'self_ref.%s' % self.name


class MethodRef(Ref):
    def __init__(self, e, name):
        self.e, self.name = e, name

    def evaluate(self, ctx):
        return self.e.get_attr(ctx.obj, self.name)


class NumCast(Ref):
    numeric = True

    def __init__(self, ref):
        self.ref = ref

    def evaluate(self, ctx):
        return self.ref.deref(ctx)


class TotalSize(Ref):
    numeric = True

    def evaluate(self, ctx):
        e = ctx.e if not ctx.static else None
        size = ctx.obj.cls.lookup('byte_size')
        if size is not None:
            return size
        if ctx.is_pack:
            m = 0
            for f in ctx.fields:
                for (a, z) in f.pack_pos.deref(ctx):
                    m = e_max(e, m, z)
            return m
        m = None
        for f in ctx.fields:
            if e.truth(f.unpack_if.deref(ctx)):
                _, size = f.unpack(ctx)
                r = byte_offset(e, f.unpack_pos(ctx), size)
            else:
                r = 0
            m = r if m is None else e_max(e, m, r)
        if m is None:
            e.throw('ValueError', 'max() arg is an empty sequence')
        return m


def e_max(e, a, b):
    if isinstance(a, Poly) or isinstance(b, Poly):
        return a if e.truth(compare('>=', toint(a), toint(b))) else b
    return max(a, b)


def byte_offset(e, ranges, n):
    rem = n
    for a, z in ranges:
        if z is None or e.truth(e.cmp('>=', num_sub(z, a), rem)):
            return num_add(a, rem)
        rem = num_sub(rem, num_sub(z, a))
    e.throw('AssertionError', 'requested byte offset is outside the range list')


class AfterRef(Ref):
    numeric = True

    def __init__(self, f):
        self.f = f

    def evaluate(self, ctx):
        e = getattr(ctx, 'e')
        if ctx.is_pack:
            return max_stop(e, self.f.pack_pos.deref(ctx))
        pos = self.f.where_unpack.deref(ctx)
        if any(z is None for _, z in pos):
            _, size = self.f.unpack(ctx)
            return byte_offset(e, pos, size)
        return max_stop(e, self.f.unpack_pos(ctx))


def max_stop(e, ranges):
    m = 0
    for a, z in ranges:
        if z is None:
            return None
        m = e_max(e, m, z)
    return m


# ---- byte ranges
class RangeRef(Ref):
    def sa_binop(self, e, op, other, reflected):
        if op != '+' or not isinstance(other, Ref):
            e.throw('TypeError', 'unsupported operand type(s) for %s: byte range and %r' % (op, other))
        me = self.items if isinstance(self, ListRange) else [self]
        them = other.items if isinstance(other, ListRange) else [other]
        return ListRange(self.e, them + me if reflected else me + them)

    def sa_getattr(self, e, name):
        if name == 'bits' and self.bits_ok:
            return BitFactory(self.e, self)
        return _MISSING
    bits_ok = False


def seq(e, start, stop):
    start = 0 if start is None else start
    for x in (start, stop):
        if x is not None and not isinstance(x, (int, float, Poly)):
            e.throw('TypeError', 'bad byte offset %r' % (x,))
    ok = e.truth(e.cmp('>=', start, 0)) if e is not None else start >= 0
    if not ok:
        e.throw('AssertionError', 'start=%r' % (start,))
    if stop is not None and not e.truth(e.cmp('<=', start, stop)):
        e.throw('AssertionError', 'start=%r, stop=%r' % (start, stop))
    return (start, stop)


class ListRange(RangeRef):
    def __init__(self, e, items, bits_ok=False):
        self.e, self.items, self.bits_ok = e, [to_ref(i) for i in items], bits_ok

    def evaluate(self, ctx):
        out = []
        for i in self.items:
            out = out + i.deref(ctx)
        return out


class SliceRange(RangeRef):
    bits_ok = True

    def __init__(self, e, start, stop):
        self.e, self.start, self.stop = e, to_ref(start), to_ref(stop)

    def evaluate(self, ctx):
        return [seq(self.e, self.start.deref(ctx), self.stop.deref(ctx))]


class IndexRange(RangeRef):
    bits_ok = True

    def __init__(self, e, ref):
        self.e, self.ref = e, to_ref(ref)

    def evaluate(self, ctx):
        i = self.ref.deref(ctx)
        if not self.e.truth(self.e.cmp('>=', i, 0)):
            self.e.throw('AssertionError')
        if not isinstance(i, (int, float, Poly)):
            self.e.throw('TypeError', 'unsupported operand type(s) for +: %r and int' % (i,))
        return [(i, num_add(i, 1))]


def find_container(e, ranges, point):
    total = 0
    for i, (a, z) in enumerate(ranges):
        if z is None or e.truth(e.cmp('<=', num_sub(num_sub(point, total), num_sub(z, a)), 0)):
            return i, total
        total = num_add(total, num_sub(z, a))
    e.throw('TypeError', 'cannot unpack non-iterable NoneType object')


def eighth(e, v):
    if isinstance(v, Poly):
        raise Unsupported('symbolic bit position')
    if not isinstance(v, (int, float)):
        e.throw('TypeError', 'bad bit position %r' % (v,))
    return float(v) / 8


class BitIndex(RangeRef):
    def __init__(self, e, parent, ref):
        self.e, self.parent, self.ref = e, parent, to_ref(ref)

    def evaluate(self, ctx):
        e = self.e
        ranges = self.parent.deref(ctx)
        off = eighth(e, self.ref.deref(ctx))
        i, total = find_container(e, ranges, off)
        a = num_add(num_sub(off, total), ranges[i][0])
        return [(a, num_add(a, 0.125))]


class BitSlice(RangeRef):
    def __init__(self, e, parent, start, stop):
        self.e, self.parent, self.start, self.stop = e, parent, to_ref(start), to_ref(stop)

    def evaluate(self, ctx):
        e = self.e
        ranges = self.parent.deref(ctx)
        s, t = self.start.deref(ctx), self.stop.deref(ctx)
        if s is None or t is None:
            e.throw('TypeError', 'float() argument must be a string or a number, not NoneType')
        s, t = eighth(e, s), eighth(e, t)
        i, total = find_container(e, ranges, s)
        rem = t - s
        out = []
        for i in range(i, len(ranges)):
            a, z = ranges[i]
            sub_a = num_sub(num_add(a, s), total)
            if z is None or e.truth(e.cmp('>=', num_sub(z, sub_a), rem)):
                sub_z = num_add(sub_a, rem)
            else:
                sub_z = z
            out.append((sub_a, sub_z))
            rem = rem - (sub_z - sub_a) if not isinstance(sub_a, Poly) else num_sub(rem, num_sub(sub_z, sub_a))
            if rem == 0:
                break
        if rem > 0:
            e.throw('ValueError', 'bit range is out of range for its parent range')
        return out


class BitFactory(object):
    def __init__(self, e, parent):
        self.e, self.parent = e, parent

    def sa_getitem(self, e, loc):
        if isinstance(loc, (tuple, list)):
            return ListRange(e, [self.sa_getitem(e, x) for x in loc])
        if isinstance(loc, Slice3):
            for x in (loc.start, loc.stop):
                if isinstance(x, int) and x < 0:
                    e.throw('AssertionError')
            if isinstance(loc.start, int) and isinstance(loc.stop, int) and loc.start > loc.stop:
                e.throw('AssertionError')
            return BitSlice(e, self.parent, loc.start, loc.stop)
        if isinstance(loc, int) or (isinstance(loc, Ref) and loc.numeric):
            return BitIndex(e, self.parent, loc)
        e.throw('TypeError', '%r is not a supported index type' % (loc,))


class ByteFactory(object):
    def sa_getitem(self, e, loc):
        if isinstance(loc, (tuple, list)):
            return ListRange(e, [self.sa_getitem(e, x) for x in loc], True)
        if isinstance(loc, Slice3):
            for x in (loc.start, loc.stop):
                if not (x is None or isinstance(x, Ref) and x.numeric or isinstance(x, int) and x >= 0):
                    e.throw('AssertionError' if isinstance(x, int) else 'TypeError', 'bad slice bound %r' % (x,))
            if isinstance(loc.start, int) and isinstance(loc.stop, int) and loc.start > loc.stop:
                e.throw('AssertionError', 'slice start is after its stop')
            if loc.step not in (None, 1):
                e.throw('AssertionError')
            return SliceRange(e, loc.start, loc.stop)
        if isinstance(loc, int) or (isinstance(loc, Ref) and loc.numeric):
            if isinstance(loc, int) and loc < 0:
                e.throw('AssertionError')
            return IndexRange(e, loc)
        e.throw('TypeError', '%r is not a supported index type' % (loc,))


# ---------------------------------------------------------------- fields
class PackPos(Ref):
    def __init__(self, f):
        self.f = f

    def evaluate(self, ctx):
        f = self.f
        pos = f.where_pack.deref(ctx)
        check_overlap(f.e, pos)
        if any(z is None for _, z in pos):
            packed = f.pack_ref.deref(ctx)
            cur, out = 0, []
            n = packed.nbytes()
            for a, z in pos:
                z2 = z if z is not None else num_sub(num_add(a, n), cur)
                if not f.e.truth(f.e.cmp('>=', z2, a)):
                    f.e.throw('AssertionError')
                out.append((a, z2))
                cur = num_add(cur, num_sub(z2, a))
            return out
        return pos


class PackRef(Ref):
    def __init__(self, f):
        self.f = f

    def evaluate(self, ctx):
        f = self.f
        v = f.pack_value.deref(ctx)
        pos = f.where_pack.deref(ctx)
        size = None if any(z is None for _, z in pos) else byte_length(f.e, pos)
        return f.packer(f.e, v, size)


class PackValue(Ref):
    def __init__(self, f):
        self.f = f

    def evaluate(self, ctx):
        f, e = self.f, self.f.e
        obj = ctx.obj
        if f.set_before_pack is not None:
            s = f.set_before_pack
            if isinstance(s, Ref):
                v = s.deref(ctx)
            elif isinstance(s, (Func, Native, Bound, Cls)):
                v = e.call(s, [obj])
            else:
                v = s
            e.set_attr(obj, f.name, v)
            return v
        return e.get_attr(obj, f.name)


class UnpackRef(Ref):
    def __init__(self, f):
        self.f = f

    def evaluate(self, ctx):
        f, e = self.f, self.f.e
        pos = f.unpack_pos(ctx)
        if len(pos) == 1:
            part = ctx.view.slice(*pos[0])
        else:
            parts = [ctx.view.slice(a, z) for a, z in pos]
            if all(p.bits is None for p in parts):
                part = View(e, bv=BytesV([s for p in parts for s in p.bv.segs], 'bytes'))
            else:
                part = View(e, bits=[b for p in parts for b in p.all_bits()])
        size = byte_length(e, pos)
        log = e.opts.get('unpack_log')
        r = f.unpacker(e, part, size, ctx)
        if log is not None:
            log.append((ctx.obj, f.name, pos, part, r))
        return r


class FieldRef(Ref):
    name = None

    def evaluate(self, ctx):
        if ctx.is_pack:
            return self.pack_value.deref(ctx)
        return self.unpack_value(ctx)

    def unpack_pos(self, ctx):
        pos = self.where_unpack.deref(ctx)
        check_overlap(self.e, pos)
        if any(z is None for _, z in pos):
            n = ctx.view.nbytes()
            out = []
            for a, z in pos:
                if not self.e.truth(self.e.cmp('>=', n, a)):
                    self.e.throw('AssertionError', 'self.start (%r) is bigger than new_stop' % (a,))
                out.append((a, n if z is None else z))
            return out
        return pos

    def unpack(self, ctx):
        return self.unpack_ref.deref(ctx)

    def unpack_value(self, ctx):
        v, _ = self.unpack(ctx)
        if self.set_after_unpack is not None:
            return self.e.call(self.set_after_unpack, [v])
        self.e.set_attr(ctx.obj, self.name, v)
        return v

    def __repr__(self):
        return 'field_ref(%s)' % self.name


def check_overlap(e, pos):
    if len(pos) > 1 and all(not isinstance(x, Poly) for r in pos for x in r):
        s = sorted((a, float('inf') if z is None else z) for a, z in pos)
        for (a, z), (b, y) in zip(s, s[1:]):
            if z > b:
                e.throw('ValueError', 'field position list has overlapping ranges')


def byte_length(e, pos):
    n = 0
    for a, z in pos:
        n = num_add(n, num_sub(z, a))
    return n


def need_int(e, v, what='int'):
    if isinstance(v, Cond):
        return int(e.truth(v))
    return v


STRUCT_SIZES = (1, 2, 4, 8)


def pack_int(e, v, size, sign, endian):
    v = need_int(e, v)
    if isinstance(size, Poly):
        raise Unsupported('integer of symbolic size')
    if size in STRUCT_SIZES:
        if isinstance(v, float) or not isinstance(v, (int, Poly, Opaque)):
            e.throw('struct.error', 'required argument is not an integer')
        cells = int_cells(e, v, int(size), sign == 'signed', endian == 'big', lambda m: e.throw('struct.error', m))
        return View(e, bv=BytesV([cells]))
    if size is None:
        if not isinstance(v, int):
            raise Unsupported('integer of unknown width')
        size = v.bit_length() / 8.0
    if not isinstance(v, (int, Poly)):
        e.throw('TypeError', 'value must be iterable or int')
    nbits = int(size * 8)
    ok = e.truth(compare('<', v, 1 << nbits)) and e.truth(compare('>', v, -(1 << nbits)))
    if not ok or nbits == 0:
        e.throw('ValueError', 'trying to assign int %r to bit length %d' % (v, nbits))
    return View(e, bits=list(e.bits_of(v, nbits)))


def unpack_int(e, view, size, sign, endian):
    if isinstance(size, Poly):
        # width known only symbolically: byte-granular, least significant first
        return Opaque('int of %r bytes' % (size,)), size
    if size in STRUCT_SIZES:
        size = int(size)
        if not e.truth(e.cmp('>=', view.nbytes(), size)):
            e.throw('AssertionError', 'buffer size must be at least %d' % size)
        w = view.slice(0, size)
        return int_from_cells(e, w.cells(), sign == 'signed', endian == 'big'), size
    w = view.slice(0, size)
    return e.mk_bits(w.all_bits()), size


def install(e):
    ic = e.instruct_cls = {}
    obj = e.T['object']
    exc = e.exc
    ie = exc['InstructError'] = Cls('infi.instruct.errors.InstructError', [exc['Exception']])
    exc['InstructBufferError'] = Cls('infi.instruct.buffer.buffer.InstructBufferError', [ie])
    for n in ('NotEnoughDataError', 'StructNotWellDefinedError', 'BitFieldNotInByteBoundry', 'FieldTypeNotSupportedError',
              'InvalidValueError', 'ValidationValueIsNoneError'):
        exc[n] = Cls('infi.instruct.errors.' + n, [ie])
    ic['Reference'] = Cls('infi.instruct.Reference', [obj])
    ic['FieldReference'] = Cls('infi.instruct.FieldReference', [ic['Reference']])
    e.T['view'] = Cls('infi.instruct.BitView', [obj])

    def buffer_error(what, cls, name):
        e.throw('InstructBufferError', '%s - attribute %r in class %s' % (what, name, cls.name))

    # ------------------------------------------------------------ Buffer
    B = ic['Buffer'] = Cls('infi.instruct.buffer.Buffer', [obj])

    def all_fields(cls):
        out = []
        for c in cls.mro:
            out += c.ns.get('__fields__', [])
        return out

    e.buffer_fields = all_fields

    def on_subclass(eng, cls):
        names = set()
        for c in cls.mro:
            names.update(c.ns)
        fields = []
        for n in sorted(names):
            v = cls.lookup(n)
            if isinstance(v, FieldRef) and v.name is None:
                v.name = n
                fields.append(v)
        if 'byte_size' in cls.ns:
            size = cls.ns['byte_size']
        else:
            size = 0
            for f in fields:
                try:
                    f.where_unpack_static()
                    pos = f.pack_pos.deref(StaticCtx())
                    size = max_stop(e, [(0, size)] + list(pos))
                except NotStatic:
                    size = None
                    break
                except PyRaise:
                    buffer_error('Error while calculating static byte size', cls, f.name)
        cls.ns['byte_size'] = size
        cls.ns['__fields__'] = fields
    B.on_subclass = on_subclass

    def init(eng, a, k):
        o = a[0]
        if len(a) > 1:
            e.throw('TypeError', '__init__() takes 1 positional argument')
        fs = all_fields(o.cls)
        names = set(f.name for f in fs)
        for n, v in k.items():
            if n not in names:
                e.throw('AssertionError', 'field %s in class %s is not defined but passed to __init__' % (n, o.cls.name))
            e.set_attr(o, n, v)
        for f in fs:
            if isinstance(e.get_attr(o, f.name), FieldRef):
                e.set_attr(o, f.name, f.default)
        return None

    def unpack(eng, a, k):
        o, buf = a[0], (a[1] if len(a) > 1 else k['buffer'])
        fs = all_fields(o.cls)
        view = to_view(e, buf)
        ctx = Ctx(e, o, fs, view)
        for f in fs:
            try:
                if e.truth(f.unpack_if.deref(ctx)):
                    for p in f.unpack_after:
                        p.unpack_value(ctx)
                    f.deref(ctx)
                else:
                    e.set_attr(o, f.name, None)
            except PyRaise as pe:
                ev = e.event('unpack_error', cls=o.cls.name, field=f.name, exc=pe.exc)
                buffer_error('Unpack error occurred', o.cls, f.name)
        return TotalSize().deref(ctx)

    def pack(eng, a, k):
        o = a[0]
        fs = all_fields(o.cls)
        ctx = Ctx(e, o, fs)
        out = Out(e)
        for f in fs:
            if e.truth(f.pack_if.deref(ctx)):
                try:
                    out.set(f.pack_ref.deref(ctx), f.pack_pos.deref(ctx), f.name)
                except PyRaise as pe:
                    e.event('pack_error', cls=o.cls.name, field=f.name, exc=pe.exc)
                    buffer_error('Pack error occured', o.cls, f.name)
        r = out.result()
        size = o.cls.lookup('byte_size')
        if size:
            import math
            size = int(math.ceil(size))
            n = r.length()
            if not e.truth(compare('<=', n, size)):
                e.throw('AssertionError', 'computed pack size is bigger than the declared byte size')
            if isinstance(n, Poly):
                raise Unsupported('padding a buffer of unknown length')
            if n < size:
                r = BytesV(r.segs + [[0] * (size - n)], 'bytearray')
        return r

    def calc_byte_size(eng, a, k):
        o = a[0]
        return TotalSize().deref(Ctx(e, o, o.cls.ns.get('__fields__', all_fields(o.cls))))

    def rep(eng, a, k):
        o = a[0]
        for f in o.cls.ns.get('__fields__', []):
            e.repr_(e.get_attr(o, f.name))
        return StrV(('repr', o.cls.name))

    B.ns.update({'__init__': N('Buffer.__init__', init), 'unpack': N('Buffer.unpack', unpack), 'pack': N('Buffer.pack', pack),
                 'calc_byte_size': N('calc_byte_size', calc_byte_size), '__repr__': N('Buffer.__repr__', rep),
                 '_all_fields': N('_all_fields', lambda eng, a, k: all_fields(a[0].cls)),
                 '_all_field_names': N('_all_field_names', lambda eng, a, k: set(f.name for f in all_fields(a[0].cls)))})

    # ------------------------------------------------------------ field factories
    COMMON = ('set_before_pack', 'set_after_unpack', 'pack_if', 'unpack_if', 'where', 'where_when_pack',
              'where_when_unpack', 'unpack_after', 'default')

    def mkfield(name, numeric, k, extra):
        for n in k:
            if n not in COMMON and n not in extra:
                e.throw('TypeError', '%s() got an unexpected keyword argument %r' % (name, n))
        f = FieldRef()
        f.e, f.numeric, f.where_tag = e, numeric, name
        w, wp, wu = k.get('where'), k.get('where_when_pack'), k.get('where_when_unpack')
        if w is None and (wp is None or wu is None):
            e.throw('ValueError', 'where or where_when_pack/unpack must be given')
        if w is not None and (wp is not None or wu is not None):
            e.throw('AssertionError')
        f.where_pack, f.where_unpack = (w, w) if w is not None else (wp, wu)
        for x in (f.where_pack, f.where_unpack):
            if not isinstance(x, Ref):
                e.throw('AttributeError', '%r has no attribute is_static' % (x,))

        def where_unpack_static():
            pos = f.where_unpack.deref(StaticCtx())
            check_overlap(e, pos)
            if any(z is None for _, z in pos):
                raise NotStatic()
        f.where_unpack_static = where_unpack_static
        f.set_before_pack, f.set_after_unpack = k.get('set_before_pack'), k.get('set_after_unpack')
        f.pack_if = to_ref(True if k.get('pack_if') is None else k['pack_if'])
        f.unpack_if = to_ref(True if k.get('unpack_if') is None else k['unpack_if'])
        f.default = k.get('default')
        ua = k.get('unpack_after')
        f.unpack_after = [] if ua is None else list(ua) if isinstance(ua, (list, tuple)) else [ua]
        for x in f.unpack_after:
            if not isinstance(x, FieldRef):
                e.throw('AssertionError')
        f.pack_pos, f.pack_ref, f.pack_value, f.unpack_ref = PackPos(f), PackRef(f), PackValue(f), UnpackRef(f)
        f.kind = name
        f.info = {}
        return f

    def field_factory(name, numeric, params, fix=None):
        def make(eng, a, k):
            k = dict(k)
            for n, v in zip(params, a):
                k[n] = v
            if fix:
                k.update(fix)
            return name, k
        return make

    def int_field_(eng, a, k):
        k = dict(k)
        for n, v in zip(('endian', 'sign') + COMMON[:2] + ('pack_if', 'unpack_if', 'where', 'where_when_pack',
                                                          'where_when_unpack', 'unpack_after', 'byte_size', 'default'), a):
            k[n] = v
        sign, endian = k.pop('sign', 'signed'), k.pop('endian', 'native')
        bs = k.pop('byte_size', None)
        if sign not in ('signed', 'unsigned') or endian not in ('native', 'big', 'little', 'unspecified'):
            f = mkfield('int_field', True, k, ())
            def bad(*_):
                e.throw('AssertionError', 'bad sign/endian %r %r' % (sign, endian))
            f.packer = f.unpacker = bad
            return f
        f = mkfield('int_field', True, k, ())
        f.info = {'sign': sign, 'endian': endian, 'byte_size': bs}
        f.packer = lambda e_, v, size: pack_int(e, v, bs or size, sign, endian)
        f.unpacker = lambda e_, view, size, ctx: unpack_int(e, view, bs or size, sign, endian)
        return f

    def with_kw(base, **fix):
        def g(eng, a, k):
            k = dict(k)
            k.update(fix)
            return base(eng, a, k)
        return g

    def float_field_(eng, a, k):
        k = dict(k)
        for x in ('endian', 'byte_size'):
            k.pop(x, None)
        f = mkfield('float_field', True, k, ())
        f.packer = lambda e_, v, size: View(e, bv=BytesV([[0] * int(size or 4)]))
        f.unpacker = lambda e_, view, size, ctx: (Opaque('float'), size)
        return f

    def bytearray_field_(eng, a, k):
        f = mkfield('bytearray_field', False, k, ())
        f.packer = lambda e_, v, size: to_view(e, need_bytes(v))
        def unp(e_, view, size, ctx):
            r = view.bytesv('bytearray')
            return r, r.length()
        f.unpacker = unp
        return f

    def need_bytes(v):
        if isinstance(v, list):
            r = BytesV([[concretise(e, x) if False else x for x in v]])
            return r
        if isinstance(v, int) and not isinstance(v, bool):
            return BytesV([[0] * v])
        if as_bv(v) is None and not isinstance(v, View):
            if hasattr(v, 'sa_bytes'):
                return v.sa_bytes(e)
            e.throw('TypeError', "cannot convert %r to bytearray" % (v,))
        return v

    def str_field_(eng, a, k):
        k = dict(k)
        enc = k.pop('encoding', 'ascii')
        padding, strip, justify = k.pop('padding', b' '), k.pop('strip', b'\x00'), k.pop('justify', 'left')
        f = mkfield('str_field', False, k, ())
        f.info = {'encoding': enc, 'padding': padding, 'strip': strip, 'justify': justify}

        def packer(e_, v, size):
            if justify not in ('left', 'right', 'center'):
                e.throw('AssertionError')
            if not isinstance(padding, bytes) or len(padding) != 1:
                e.throw('TypeError' if not isinstance(padding, bytes) else 'AssertionError', 'padding')
            s = e.str_(v)
            b = e.call(e.get_attr(s, 'encode'), [enc])
            bv = as_bv(b)
            if size is not None and not isinstance(size, Poly):
                size_i = int(size)
                n = bv.length()
                if isinstance(n, Poly):
                    raise Unsupported('padding text of unknown length')
                pad = [[padding[0]] * max(0, size_i - n)]
                bv = BytesV(bv.segs + pad if justify == 'left' else pad + bv.segs)
            return View(e, bv=bv)

        def unpacker(e_, view, size, ctx):
            n = view.nbytes()
            if not isinstance(size, Poly) and size and not e.truth(e.cmp('>=', n, size)):
                e.throw('ValueError', 'str byte_size is %r but got buffer with len %r' % (size, n))
            w = view.slice(0, size).bytesv('bytes')
            c = w.concrete()
            if c is not None:
                if justify == 'left':
                    c = c.rstrip(strip).rstrip(padding)
                elif justify == 'right':
                    c = c.lstrip(strip).lstrip(padding)
                else:
                    c = c.strip(strip).strip(padding)
                return e.native(lambda: c.decode(enc)), n
            if e.truth(compare('==', w.length(), 0)):
                return '', n
            return StrV((('text', w, enc, justify, strip, padding),)), n
        f.packer, f.unpacker = packer, unpacker
        return f

    def pack_buffer(e_, v, size):
        return to_view(e, e.call_method(v, 'pack'))

    def unpack_buffer(cls, view):
        o = e.call(cls)
        n = e.call_method(o, 'unpack', [view_value(view)])
        return o, n

    def selector(sel, ctx, view, kw):
        o = e.call(sel, [ctx.obj, view_value(view)], kw)
        if isinstance(o, Cls) and o.issub(B):
            return unpack_buffer(o, view)
        if isinstance(o, (list, tuple)):
            if len(o) != 2:
                e.throw('AssertionError', 'selector returned a list but not a (obj, byte_size)-kind of list')
            return tuple(o)
        if o is None:
            return None, 0
        e.throw('AssertionError', "selector didn't return a Buffer type")

    def buffer_field_(eng, a, k):
        k = dict(k)
        for n, v in zip(('type', 'unpack_selector', 'set_before_pack'), a):
            k[n] = v
        if 'type' not in k:
            e.throw('TypeError', "buffer_field() missing argument 'type'")
        ty, sel, bs = k.pop('type'), k.pop('unpack_selector', None), k.pop('byte_size', None)
        f = mkfield('buffer_field', False, k, ())
        f.info = {'type': ty, 'selector': sel}
        f.packer = pack_buffer
        if sel is not None:
            f.unpacker = lambda e_, view, size, ctx: selector(sel, ctx, view, {'byte_size': size, 'unpack_size': None, 'type': ty})
        else:
            f.unpacker = lambda e_, view, size, ctx: unpack_buffer(ty, view)
        return f

    def list_field_(eng, a, k):
        k = dict(k)
        for n, v in zip(('type', 'n', 'unpack_selector'), a):
            k[n] = v
        if 'type' not in k:
            e.throw('TypeError', "list_field() missing argument 'type'")
        ty, cnt, sel = k.pop('type'), k.pop('n', None), k.pop('unpack_selector', None)
        if not (isinstance(ty, tuple) or isinstance(ty, Cls) and ty.issub(B)):
            e.throw('AssertionError', 'list type argument must be a predefined type or a subclass of Buffer')
        f = mkfield('list_field', False, k, ())
        f.info = {'type': ty, 'n': cnt, 'selector': sel}
        nref = to_ref(cnt)

        def packer(e_, v, size):
            bits, aligned, segs = [], True, []
            for x in e.iterate(v):
                w = ty[0](x, size) if isinstance(ty, tuple) else pack_buffer(e, x, None)
                if w.bits is not None:
                    aligned = False
                segs.append(w)
            if aligned:
                return View(e, bv=BytesV([s for w in segs for s in w.bv.segs]))
            return View(e, bits=[b for w in segs for b in w.all_bits()])

        def unpacker(e_, view, size, ctx):
            n = nref.deref(ctx)
            if isinstance(n, Cond):
                n = int(e.truth(n))
            if n is not None and not isinstance(n, (int, Poly)):
                e.throw('AssertionError', 'n must be either an integer or None but instead got %r' % (n,))
            out, off, index = [], 0, 0
            cap = e.opts.get('list_unroll')
            while e.truth(e.cmp('<', off, view.length())) and (n is None or e.truth(e.cmp('<', index, n))):
                if cap is not None and index >= cap:
                    e.event('list_cap', cls=ctx.obj.cls.name, field=f.name)
                    raise PathEnd('list longer than the unrolling bound')
                part = view.slice(off, size)
                kw = {'index': index, 'n': n, 'container': out, 'byte_size': size, 'unpack_size': None}
                if sel is not None:
                    item, ln = selector(sel, ctx, part, kw)
                elif isinstance(ty, tuple):
                    item, ln = ty[1](part, size)
                else:
                    item, ln = unpack_buffer(ty, part)
                if n is None and not e.truth(e.cmp('>', ln, 0)):
                    e.event('endless_list', cls=ctx.obj.cls.name, field=f.name)
                    raise Diverges('list field %s of %s: an element of size 0 never ends' % (f.name, ctx.obj.cls.name))
                out.append(item)
                off = num_add(off, ln)
                index += 1
            return out, off
        f.packer, f.unpacker = packer, unpacker
        return f

    def json_field_(eng, a, k):
        raise Unsupported('json_field')

    def int_marshal(size, sign, endian):
        return (lambda v, s: pack_int(e, v, size, sign, endian), lambda view, s: unpack_int(e, view, size, sign, endian))

    macros = {}
    for pre, en in (('', 'native'), ('n_', 'native'), ('b_', 'big'), ('l_', 'little')):
        for sg, s in (('int', 'signed'), ('uint', 'unsigned')):
            for n in (1, 2, 4, 8):
                macros['%s%s%d' % (pre, sg, 8 * n)] = int_marshal(n, s, en)

    def str_type_factory(eng, a, k):
        raise Unsupported('str_type_factory')
    macros['str_type'] = (lambda v, s: _unsup('str_type'), lambda v, s: _unsup('str_type'))

    def _unsup(n):
        raise Unsupported(n)

    def fn(name, f):
        macros[name] = N(name, f)

    fn('int_field', int_field_)
    fn('uint_field', with_kw(int_field_, sign='unsigned'))
    fn('be_int_field', with_kw(int_field_, endian='big'))
    fn('le_int_field', with_kw(int_field_, endian='little'))
    fn('be_uint_field', with_kw(int_field_, sign='unsigned', endian='big'))
    fn('le_uint_field', with_kw(int_field_, sign='unsigned', endian='little'))
    fn('float_field', float_field_)
    fn('bytearray_field', bytearray_field_)
    fn('str_field', str_field_)
    fn('json_field', json_field_)
    fn('str_type_factory', str_type_factory)
    fn('buffer_field', buffer_field_)
    fn('list_field', list_field_)
    fn('after_ref', lambda eng, a, k: AfterRef(a[0]))
    fn('member_func_ref', lambda eng, a, k: CallRef(e, False, a[0], [ObjRef()]))

    def make_field_ref(x):
        return x if isinstance(x, Ref) else AttrRef(e, x)
    fn('len_ref', lambda eng, a, k: CallRef(e, True, N('len', ref_len), [make_field_ref(a[0])]))
    fn('num_ref', lambda eng, a, k: NumCast(a[0]))
    fn('min_ref', lambda eng, a, k: CallRef(e, True, e.builtins['min'], a))
    fn('max_ref', lambda eng, a, k: CallRef(e, True, e.builtins['max'], a))

    def ref_len(eng, a, k):
        v = a[0]
        return e.call(e.builtins['len'], [v])

    macros['bytes_ref'] = ByteFactory()
    macros['total_size'] = TotalSize()
    macros['input_buffer_length'] = InputLen()

    class SelfProxy(object):
        def sa_getattr(self, eng, name):
            if name.startswith('__'):
                return _MISSING
            r = AttrRef(e, name)
            e.opts.setdefault('self_refs', []).append((name, e.where()))
            return r
    macros['self_ref'] = SelfProxy()

    def module(name, ns, all_=None):
        def make(eng):
            m = Module(name)
            m.ns.update(ns() if callable(ns) else ns)
            if all_:
                m.ns['__all__'] = list(all_)
            m.is_pkg = True
            return m
        e.ext[name] = make

    module('infi.instruct.buffer.macros', macros, ALL)
    module('infi.instruct.buffer.buffer', {'Buffer': B, 'InstructBufferError': exc['InstructBufferError']})
    module('infi.instruct.buffer.reference', {'Reference': ic['Reference'], 'FieldReference': ic['FieldReference']})

    # ------------------------------------------------------------ Struct
    def low_bits(eng, a, k):
        """pack [(value, nbits)] least significant first"""
        bits = []
        for v, n in a[0]:
            if isinstance(v, Cond):
                v = int(e.truth(v))
            if not isinstance(v, (int, Poly)):
                e.throw('TypeError', 'unsupported operand type(s) for &: %r and int' % (v,))
            bits += e.bits_of(v, n)
        return norm_bytes(BytesV([[e.mk_bits(bits[i:i + 8]) for i in range(0, len(bits), 8)]]))

    def split_bits(eng, a, k):
        data, sizes = a
        v = View(e, bv=as_bv(data))
        bits = v.all_bits()
        out, pos = [], 0
        for n in sizes:
            if pos + n > len(bits):
                e.throw('OSError', 'attempting to read past the end of the buffer')
            out.append(e.mk_bits(bits[pos:pos + n]))
            pos += n
        return out

    def int_repr(eng, a, k):
        return e.format_percent(a[0], a[1])

    def arg_names(eng, a, k):
        f = a[0]
        if isinstance(f, Func):
            return [x.arg for x in f.node.args.posonlyargs + f.node.args.args]
        e.throw('AttributeError', '__code__')

    def num_pack(eng, a, k):
        v, size, signed, big = a
        if isinstance(v, float) or not isinstance(v, (int, Poly, Cond, Opaque)):
            e.throw('struct.error', 'required argument is not an integer')
        return norm_bytes(BytesV([int_cells(e, v, size, signed, big, lambda m: e.throw('struct.error', m))]))

    def num_unpack(eng, a, k):
        b, size, signed, big = a
        return int_from_cells(e, View(e, bv=as_bv(b)).cells(), signed, big)

    def list_step(eng, a, k):
        cap = e.opts.get('list_unroll')
        if cap is not None and not isinstance(a[0], Poly) and a[0] > cap:
            e.event('list_cap', cls='array', field='array')
            raise PathEnd('list longer than the unrolling bound')
        return None

    def no_progress(eng, a, k):
        e.event('endless_list', cls='array', field='array')
        raise Diverges('array element of size 0 never ends')

    def is_func_named_copy(eng, a, k):
        return None

    state = {}

    def prelude():
        if not state:
            active, e.path_active = e.path_active, False
            dec = {'_sa_low_bits': N('low_bits', low_bits), '_sa_split_bits': N('split_bits', split_bits),
                   '_sa_percent': N('percent', int_repr), '_sa_arg_names': N('arg_names', arg_names),
                   '_sa_num_pack': N('num_pack', num_pack), '_sa_num_unpack': N('num_unpack', num_unpack),
                   '_sa_list_step': N('list_step', list_step), '_sa_no_progress': N('no_progress', no_progress),
                   'struct_error': exc['struct.error']}
            for n in ('InstructError', 'NotEnoughDataError', 'StructNotWellDefinedError', 'BitFieldNotInByteBoundry',
                      'FieldTypeNotSupportedError', 'InvalidValueError', 'ValidationValueIsNoneError'):
                dec[n] = exc[n]
            try:
                m = e.run_source(STRUCT_PRELUDE, '<infi.instruct>', dec)
            finally:
                e.path_active = active
            state.update(m.ns)
            S = state['Struct']
            S.on_subclass = struct_subclass
            ic['Struct'] = S
        return state

    def struct_subclass(eng, cls):
        user_init = cls.ns.pop('__init__', None)
        fields = cls.lookup('_fields_')
        if fields is None and not cls.has('_fields_'):
            e.throw('StructNotWellDefinedError', 'Class %s is missing a _fields_ declaration' % cls.name)
        if isinstance(fields, (list, tuple)):
            fields = e.call(prelude()['FieldListContainer'], [fields])
        cls.ns['_container_'] = fields
        e.call_method(fields, 'prepare_class', [cls])

        def sinit(eng2, a, k):
            self_, args = a[0], list(a[1:])
            kwargs = dict(k)
            if self_.cls is cls:
                e.call_method(cls.ns['_container_'], 'prepare_instance', [self_, tuple(args), kwargs])
            if user_init is None:
                e.call(e.get_attr(Super(cls, self_), '__init__'), args, kwargs)
            else:
                names = arg_names(e, [user_init], {}) if isinstance(user_init, Func) else []
                for n in names:
                    if n in k:
                        kwargs[n] = k[n]
                e.call(user_init, [self_] + args, kwargs)
            return None
        cls.ns['__init__'] = N(cls.name + '.__init__', sinit)
        cls.info['user_init'] = user_init

    HIDDEN = ('__name__', '__package__')

    def struct_ns():
        ns = {n: v for n, v in prelude().items() if not n.startswith('_') and n not in ('struct_error',)}
        ns['functools'] = e.load('functools')
        ns['struct'] = e.load('struct')
        ns['t'] = 'NFloat64'
        ns['v'] = {}
        return ns

    def top(eng):
        m = Module('infi.instruct')
        m.is_pkg = True
        m.ns.update(struct_ns())
        return m
    e.ext['infi.instruct'] = top
    module('infi.instruct.macros', struct_ns)
    module('infi.instruct.struct', lambda: {n: prelude()[n] for n in ('Struct', 'Field', 'FieldBase', 'AnonymousField',
                                                                     'FieldListContainer', 'FieldMarshal')})
    module('infi.instruct.base', lambda: {n: prelude()[n] for n in ('Marshal', 'MarshalBase', 'FixedSizer', 'MinMax',
                                                                   'EMPTY_CONTEXT', 'ReadOnlyContext', 'WritableContext',
                                                                   'ConstReader', 'UNBOUNDED_MIN_MAX', 'ZERO_MIN_MAX')})
    module('infi.instruct.errors', lambda: dict({n: exc[n] for n in (
        'InstructError', 'NotEnoughDataError', 'StructNotWellDefinedError', 'BitFieldNotInByteBoundry',
        'FieldTypeNotSupportedError', 'InvalidValueError', 'ValidationValueIsNoneError')}))
    e.ext['infi.instruct.buffer'] = lambda eng: _bufmod(e, B, macros)
    module('infi.instruct.buffer.compat', lambda: {'buffer_to_struct_adapter': prelude()['buffer_to_struct_adapter'],
                                                   'StructTypeAdapter': prelude()['StructTypeAdapter']})
    e.instruct_prelude = prelude


def _bufmod(e, B, macros):
    m = Module('infi.instruct.buffer')
    m.is_pkg = True
    m.ns['Buffer'] = B
    for n in ALL:
        m.ns[n] = macros[n]
    return m


def to_view(e, buf):
    if isinstance(buf, View):
        return buf
    b = as_bv(buf)
    if b is None and hasattr(buf, 'sa_bytes'):
        b = as_bv(buf.sa_bytes(e))
    if b is None:
        if isinstance(buf, Opaque):
            raise Unsupported('unpacking %r' % (buf,))
        e.throw('TypeError', "object of type %r has no len()" % (buf,))
    return View(e, bv=b)


def view_value(view):
    if view.bits is not None:
        return view
    return BytesV(list(view.bv.segs), 'view')


class Out(object):
    def __init__(self, e):
        self.e, self.bits, self.tail = e, [], []

    def set(self, view, ranges, name):
        e = self.e
        pos = 0
        n = view.nbytes()
        for a, z in ranges:
            ln = num_sub(z, a)
            if not e.truth(e.cmp('<=', ln, num_sub(n, pos))):
                e.throw('ValueError', "trying to assign a value with smaller length than the range it's given")
            part = view.slice(pos, num_add(pos, ln))
            pos = num_add(pos, ln)
            if isinstance(a, Poly) or isinstance(z, Poly) or self.tail or \
                    (part.bits is None and isinstance(part.bv.length(), Poly)):
                if not isinstance(a, Poly) and not self.tail and whole(a) and int(a) * 8 == len(self.bits):
                    self.tail = list(part.bytesv('bytes').segs)
                    continue
                if e.truth(e.cmp('==', ln, 0)):
                    continue
                end = add(len(self.bits) // 8, BytesV(self.tail).length())
                if self.tail and whole(a) and e.truth(compare('==', toint(a), end)):
                    self.tail += part.bytesv('bytes').segs
                    continue
                if not isinstance(a, Poly) and not isinstance(z, Poly) and int(z * 8) <= len(self.bits):
                    self._put(int(a * 8), part.all_bits())
                    continue
                raise Unsupported('field %s packed at a symbolic position' % name)
            b0, b1 = int(a * 8), int(z * 8)
            if len(self.bits) < b0:
                self.bits += [0] * (b0 - len(self.bits))
            bits = part.all_bits()[:b1 - b0]
            self._put(b0, bits)

    def _put(self, at, bits):
        self.bits[at:at + len(bits)] = bits

    def result(self):
        bits = self.bits + [0] * (-len(self.bits) % 8)
        cells = [self.e.mk_bits(bits[i:i + 8]) for i in range(0, len(bits), 8)]
        return BytesV([cells] + self.tail, 'bytearray')


STRUCT_PRELUDE = r'''
class ReadOnlyContext(object):
    def __init__(self, d=None):
        self.d = d or {}
    def get(self, key, default=None):
        return self.d.get(key, default)
    def get_dict(self):
        return dict(self.d)
    def writable_copy(self, d=None):
        c = dict(self.d)
        c.update(d or {})
        return WritableContext(c)

class WritableContext(ReadOnlyContext):
    def put(self, key, value):
        self.d[key] = value
    def update(self, d):
        self.d.update(d)
    def remove(self, key):
        del self.d[key]

EMPTY_CONTEXT = ReadOnlyContext()

class MinMax(object):
    def __init__(self, min_val=0, max_val=9223372036854775807):
        if isinstance(min_val, (list, tuple)):
            min_val, max_val = min_val
        elif isinstance(min_val, MinMax):
            min_val, max_val = min_val.min, min_val.max
        assert min_val <= max_val
        self.min = max(0, min_val)
        self.max = min(max_val, 9223372036854775807)
    def __add__(self, other):
        return MinMax(other.min + self.min, other.max + self.max)
    def __getitem__(self, i):
        return (self.min, self.max)[i]
    def __iter__(self):
        return iter((self.min, self.max))
    def is_unbounded(self):
        return self.max >= 9223372036854775807

UNBOUNDED_MIN_MAX = MinMax(0, 9223372036854775807)
ZERO_MIN_MAX = MinMax(0, 0)

class _Stream(object):
    def __init__(self, data=b''):
        self.data, self.pos = data, 0
    def read(self, n=None):
        if n is None:
            r = self.data[self.pos:]
        else:
            r = self.data[self.pos:self.pos + n]
        self.pos = self.pos + len(r)
        return r
    def tell(self):
        return self.pos
    def seek(self, pos):
        self.pos = pos
    def write(self, b):
        self.data = self.data + b
    def getvalue(self):
        return self.data
    def close(self):
        pass

class MarshalBase(object):
    def sizeof(self, obj):
        raise NotImplementedError()
    def min_max_sizeof(self):
        return UNBOUNDED_MIN_MAX
    def to_repr(self, obj, context=EMPTY_CONTEXT):
        return repr(obj)
    def is_fixed_size(self):
        m = self.min_max_sizeof()
        return m.min == m.max

class Marshal(MarshalBase):
    def create_from_string(self, string, context=EMPTY_CONTEXT, *args, **kwargs):
        if not isinstance(string, bytes):
            raise TypeError("string should be an instance of bytes in Python 3")
        return self.create_from_stream(_Stream(string), context, *args, **kwargs)
    def write_to_string(self, obj, context=EMPTY_CONTEXT):
        io = _Stream()
        self.write_to_stream(obj, io, context)
        return io.getvalue()

class FixedSizer(object):
    def sizeof(self, obj):
        return self.size
    def min_max_sizeof(self):
        return MinMax(self.size, self.size)

class ConstReader(FixedSizer, Marshal):
    def __init__(self, value):
        self.value = value
        self.size = 0
    def create_from_stream(self, stream, context=EMPTY_CONTEXT, *args, **kwargs):
        return self.value
    def write_to_stream(self, obj, stream, context=EMPTY_CONTEXT):
        pass

class ReadPointer(FixedSizer, Marshal):
    def __init__(self, name):
        self.name = name
        self.size = 0
    def create_from_stream(self, stream, context=EMPTY_CONTEXT, *args, **kwargs):
        return getattr(context.get("struct", None), self.name)
    def write_to_stream(self, obj, stream, context=EMPTY_CONTEXT):
        pass

class NumericMarshal(FixedSizer, Marshal):
    def __init__(self, size, signed, big):
        self.size, self.signed, self.big = size, signed, big
    def create_from_stream(self, stream, context=EMPTY_CONTEXT):
        packed = stream.read(self.size)
        if len(packed) < self.size:
            raise NotEnoughDataError("expected to read %d bytes" % self.size)
        return _sa_num_unpack(packed, self.size, self.signed, self.big)
    def write_to_stream(self, obj, stream, context=EMPTY_CONTEXT):
        try:
            stream.write(_sa_num_pack(obj, self.size, self.signed, self.big))
        except struct_error:
            raise InstructError("Packing error occurred")
    def to_repr(self, obj, context=EMPTY_CONTEXT):
        return _sa_percent(context.get('int_repr_format', '%d'), obj)

class FieldMarshal(MarshalBase):
    def prepare_class(self, cls):
        pass
    def prepare_instance(self, obj, args, kwargs):
        pass

class FieldBase(FieldMarshal):
    def __init__(self, marshal):
        self.marshal = marshal
    def write_fields(self, obj, stream, context=EMPTY_CONTEXT):
        self.marshal.write_to_stream(self.get_value(obj), stream, context)
    def read_fields(self, obj, stream, context=EMPTY_CONTEXT, *args, **kwargs):
        self.set_value(obj, self.marshal.create_from_stream(stream, context, *args, **kwargs))
    def to_repr(self, obj, context=EMPTY_CONTEXT):
        return self.marshal.to_repr(self.get_value(obj), context)
    def sizeof(self, obj):
        return self.marshal.sizeof(self.get_value(obj))
    def min_max_sizeof(self):
        return self.marshal.min_max_sizeof()
    def set_value(self, obj, value):
        pass
    def get_value(self, obj):
        return None

class AnonymousField(FieldBase):
    pass

class Field(FieldBase):
    def __init__(self, name, marshal, default=None):
        self.marshal = marshal
        self.name = name
        self.default = default
    def prepare_instance(self, obj, args, kwargs):
        if self.name in kwargs:
            setattr(obj, self.name, kwargs.pop(self.name))
        elif not hasattr(obj, self.name):
            d = self.default
            setattr(obj, self.name, d.copy() if hasattr(d, 'copy') else d)
    def to_repr(self, obj, context=EMPTY_CONTEXT):
        return "%s=%s" % (self.name, self.marshal.to_repr(self.get_value(obj), context))
    def get_value(self, obj):
        return getattr(obj, self.name, self.default)
    def set_value(self, obj, value):
        setattr(obj, self.name, value)

class OptionalField(Field):
    def __init__(self, name, marshal, predicate, default=None):
        self.marshal, self.name, self.default, self.predicate = marshal, name, default, predicate
    def write_fields(self, obj, stream, context=EMPTY_CONTEXT):
        value = self.get_value(obj)
        if value is not None:
            self.marshal.write_to_stream(value, stream, context)
    def read_fields(self, obj, stream, context=EMPTY_CONTEXT, *args, **kwargs):
        if self.predicate(obj, stream, context):
            self.set_value(obj, self.marshal.create_from_stream(stream, context, *args, **kwargs))
    def sizeof(self, obj):
        value = self.get_value(obj)
        return 0 if value is None else self.marshal.sizeof(value)
    def min_max_sizeof(self):
        return MinMax(0, self.marshal.min_max_sizeof().max)

class _ConstField(Field):
    def __init__(self, name, marshal, value):
        self.marshal, self.name, self.default = marshal, name, None
        self.value = value
    def prepare_class(self, cls):
        setattr(cls, self.name, self)
    def prepare_instance(self, obj, args, kwargs):
        pass
    def read_fields(self, obj, stream, context=EMPTY_CONTEXT, *args, **kwargs):
        value = self.marshal.create_from_stream(stream, context, *args, **kwargs)
        if value != self.value:
            raise InstructError("constant field %s has another value" % self.name)
    def get_value(self, obj):
        return self.value
    def set_value(self, obj, value):
        pass
    def __get__(self, obj, owner):
        return self.value
    def __set__(self, obj, value):
        if value != self.value:
            raise InstructError("trying to set a new value to const field %s" % self.name)

class FieldListContainer(FieldMarshal):
    def __init__(self, fields):
        self.fields = fields
    def prepare_class(self, cls):
        for field in self.fields:
            field.prepare_class(cls)
    def prepare_instance(self, obj, args, kwargs):
        for field in self.fields:
            field.prepare_instance(obj, args, kwargs)
    def read_fields(self, obj, stream, context=EMPTY_CONTEXT, *args, **kwargs):
        for field in self.fields:
            field.read_fields(obj, stream, context, *args, **kwargs)
    def write_fields(self, obj, stream, context=EMPTY_CONTEXT):
        for field in self.fields:
            field.write_fields(obj, stream, context)
    def to_repr(self, obj, context=EMPTY_CONTEXT):
        return ", ".join([field.to_repr(obj, context) for field in self.fields])
    def sizeof(self, obj):
        n = 0
        for field in self.fields:
            n = n + field.sizeof(obj)
        return n
    def min_max_sizeof(self):
        m = ZERO_MIN_MAX
        for field in self.fields:
            m = m + field.min_max_sizeof()
        return m

class BitValues(object):
    def __init__(self, values):
        self.values, self.at = values, 0
    def read(self, size):
        self.at += 1
        return self.values[self.at - 1]
    def write(self, value, size):
        self.values.append((value, size))

class BitMarshal(FixedSizer, Marshal):
    def __init__(self, size):
        self.size = size
    def create_from_stream(self, stream, context=EMPTY_CONTEXT, *args, **kwargs):
        return stream.read(self.size)
    def write_to_stream(self, obj, stream, context=EMPTY_CONTEXT):
        stream.write(obj, self.size)
    def to_repr(self, obj, context=EMPTY_CONTEXT):
        return _sa_percent(context.get('int_repr_format', '%d'), obj)

class BitPaddingMarshal(BitMarshal):
    def write_to_stream(self, obj, stream, context=EMPTY_CONTEXT):
        stream.write(0, self.size)
    def to_repr(self, obj, context=EMPTY_CONTEXT):
        return "<padding>"

class BitFieldListContainer(FixedSizer, FieldListContainer):
    def __init__(self, fields):
        self.fields = fields
        n = 0
        for f in fields:
            if not f.is_fixed_size():
                raise InstructError("all fields in a bit field list must be fixed size")
            n = n + f.min_max_sizeof().min
        if n % 8 != 0:
            raise BitFieldNotInByteBoundry()
        self.size = n // 8
    def write_fields(self, obj, stream, context=EMPTY_CONTEXT):
        values = BitValues([])
        for f in self.fields:
            f.write_fields(obj, values, context)
        stream.write(_sa_low_bits(values.values))
    def read_fields(self, obj, stream, context=EMPTY_CONTEXT, *args, **kwargs):
        data = stream.read(self.size)
        if len(data) < self.size:
            raise IOError("attempting to read past the end of the buffer")
        values = BitValues(_sa_split_bits(data, [f.marshal.size for f in self.fields]))
        for f in self.fields:
            f.read_fields(obj, values, context, *args, **kwargs)

class VarSizeArrayMarshal(Marshal):
    def __init__(self, size_marshal, element_marshal):
        self.size_marshal, self.element_marshal = size_marshal, element_marshal
    def create_from_stream(self, stream, context=EMPTY_CONTEXT, *args, **kwargs):
        size = self.size_marshal.create_from_stream(stream, context, *args, **kwargs)
        obj = []
        i = 0
        while i < size:
            _sa_list_step(i + 1)
            obj.append(self.element_marshal.create_from_stream(stream, context, *args, **kwargs))
            i += 1
        return obj
    def write_to_stream(self, obj, stream, context=EMPTY_CONTEXT):
        self.size_marshal.write_to_stream(len(obj), stream, context)
        for element in obj:
            self.element_marshal.write_to_stream(element, stream, context)
    def sizeof(self, obj):
        return self.size_marshal.sizeof(len(obj)) + sum([self.element_marshal.sizeof(x) for x in obj])
    def to_repr(self, obj, context=EMPTY_CONTEXT):
        return "[ " + ", ".join([self.element_marshal.to_repr(element, context) for element in obj]) + " ]"

class FixedSizeArrayMarshal(VarSizeArrayMarshal):
    def __init__(self, size, element_marshal):
        self.size_marshal, self.element_marshal = ConstReader(size), element_marshal
        self.size = size
    def min_max_sizeof(self):
        m = self.element_marshal.min_max_sizeof()
        return MinMax(m.min * self.size, m.max * self.size)

class SumSizeArrayMarshal(VarSizeArrayMarshal):
    def create_from_stream(self, stream, context=EMPTY_CONTEXT, *args, **kwargs):
        obj = []
        total_bytes = self.size_marshal.create_from_stream(stream, context)
        i = 0
        while total_bytes > 0:
            i += 1
            _sa_list_step(i)
            at = stream.tell()
            obj.append(self.element_marshal.create_from_stream(stream, context, *args, **kwargs))
            n = stream.tell() - at
            if n <= 0:
                _sa_no_progress()
            total_bytes -= n
        assert total_bytes == 0
        return obj
    def write_to_stream(self, obj, stream, context=EMPTY_CONTEXT):
        sum_size = sum([self.element_marshal.sizeof(element) for element in obj])
        self.size_marshal.write_to_stream(sum_size, stream, context)
        for element in obj:
            self.element_marshal.write_to_stream(element, stream, context)
    def sizeof(self, obj):
        sum_size = sum([self.element_marshal.sizeof(element) for element in obj])
        return self.size_marshal.sizeof(sum_size) + sum_size

PADDING_DIRECTION_NONE = 0
PADDING_DIRECTION_RIGHT = 1
PADDING_DIRECTION_LEFT = 2
PADDING_DIRECTION_BOTH = 3

def _strip(obj, d, padding):
    if d == 0:
        return obj
    elif d == 1:
        return obj.rstrip(padding)
    elif d == 2:
        return obj.lstrip(padding)
    return obj.strip(padding)

class VarSizeStringMarshal(Marshal):
    def __init__(self, size_marshal, padding=b'\x00', padding_direction=1):
        self.size_marshal, self.padding, self.padding_direction = size_marshal, padding, padding_direction
    def create_from_stream(self, stream, context=EMPTY_CONTEXT, *args, **kwargs):
        buffer_len = self.size_marshal.create_from_stream(stream, context)
        obj = stream.read(buffer_len)
        if len(obj) < buffer_len:
            raise InstructError("Expected to read %d bytes from stream but read only %d" % (buffer_len, len(obj)))
        return _strip(obj, self.padding_direction, self.padding)
    def write_to_stream(self, obj, stream, context=EMPTY_CONTEXT):
        obj = _strip(obj, self.padding_direction, self.padding)
        self.size_marshal.write_to_stream(len(obj), stream, context)
        stream.write(obj)
    def sizeof(self, obj):
        return self.size_marshal.sizeof(obj) + len(_strip(obj, self.padding_direction, self.padding))

class PaddedStringMarshal(FixedSizer, VarSizeStringMarshal):
    def __init__(self, size, padding=b'\x00', padding_direction=1):
        self.size_marshal, self.padding, self.padding_direction = ConstReader(size), padding, padding_direction
        self.size = size
    def write_to_stream(self, obj, stream, context=EMPTY_CONTEXT):
        obj = _strip(obj, self.padding_direction, self.padding)
        stream.write(obj)
        if len(obj) < self.size:
            stream.write(bytes([self.padding[0]]) * (self.size - len(obj)))

class VarSizeBufferMarshal(VarSizeStringMarshal):
    def __init__(self, size_marshal):
        self.size_marshal, self.padding, self.padding_direction = size_marshal, b'', 0

class FixedSizeBufferMarshal(PaddedStringMarshal):
    def __init__(self, size):
        self.size_marshal, self.padding, self.padding_direction = ConstReader(size), b'', 0
        self.size = size

class BytePaddingMarshal(FixedSizer, Marshal):
    def __init__(self, size, char=b"\x00"):
        self.size, self.char = size, char
        assert len(char) == 1
    def write_to_stream(self, obj, stream, context=EMPTY_CONTEXT):
        stream.write(self.char * self.size)
    def create_from_stream(self, stream, context=EMPTY_CONTEXT, *args, **kwargs):
        stream.read(self.size)
    def to_repr(self, obj, context=EMPTY_CONTEXT):
        return "<padding>"

class FixedSizeMappingMarshal(FixedSizer, Marshal):
    def __init__(self, value_map, value_marshal):
        assert value_marshal.is_fixed_size()
        self.value_map, self.value_marshal = value_map, value_marshal
        self.reverse_value_map = {}
        self.size = value_marshal.min_max_sizeof().min
        for key, value in value_map.items():
            assert value not in self.reverse_value_map
            self.reverse_value_map[value] = key
    def create_from_stream(self, stream, context=EMPTY_CONTEXT, *args, **kwargs):
        value = self.value_marshal.create_from_stream(stream, context, *args, **kwargs)
        return self.reverse_value_map[value]
    def write_to_stream(self, obj, stream, context=EMPTY_CONTEXT):
        self.value_marshal.write_to_stream(self.value_map[obj], stream, context)

class StructSelectorMarshal(Marshal):
    def __init__(self, key_marshal, mapping, default=None):
        self.key_marshal, self.default = key_marshal, default
    def write_to_stream(self, obj, stream, context=EMPTY_CONTEXT):
        type(obj).write_to_stream(obj, stream, context)
    def create_from_stream(self, stream, context=EMPTY_CONTEXT, *args, **kwargs):
        at = stream.tell()
        key = self.key_marshal.create_from_stream(stream, context)
        seen = stream.tell()
        stream.seek(at)
        if self.default is None:
            raise InstructError("key is not mapped and no default")
        result = self.default.create_from_stream(stream, context, *args, **kwargs)
        if stream.tell() < seen:
            raise InstructError("deserialized but still have bytes in read-ahead buffer")
        return result
    def to_repr(self, obj, context=EMPTY_CONTEXT):
        return type(obj).to_repr(obj, context)
    def sizeof(self, obj):
        return type(obj).sizeof(obj)

class FuncStructSelectorMarshal(Marshal):
    def __init__(self, func, min_max_size=UNBOUNDED_MIN_MAX):
        self.func, self.min_max_size = func, MinMax(min_max_size)
    def write_to_stream(self, obj, stream, context=EMPTY_CONTEXT):
        type(obj).write_to_stream(obj, stream, context)
    def create_from_stream(self, stream, context=EMPTY_CONTEXT, *args, **kwargs):
        at = stream.tell()
        reader = self.func(stream, context)
        seen = stream.tell()
        stream.seek(at)
        result = reader.create_from_stream(stream, context, *args, **kwargs)
        if stream.tell() < seen:
            raise InstructError("deserialized but still have bytes in read-ahead buffer")
        return result
    def to_repr(self, obj, context=EMPTY_CONTEXT):
        return type(obj).to_repr(obj, context)
    def sizeof(self, obj):
        return type(obj).sizeof(obj)
    def min_max_sizeof(self):
        return self.min_max_size

class Struct(object):
    def __init__(self, *args, **kwargs):
        type(self)._container_.prepare_instance(self, args, kwargs)
    @classmethod
    def write_to_stream(cls, obj, stream, context=EMPTY_CONTEXT):
        context = cls.get_updated_context(obj, context)
        type(obj)._container_.write_fields(obj, stream, context)
    @classmethod
    def create_from_stream(cls, stream, context=EMPTY_CONTEXT, *args, **kwargs):
        obj = cls(*args, **kwargs)
        context = cls.get_updated_context(obj, context)
        cls._container_.read_fields(obj, stream, context, *args, **kwargs)
        return obj
    @classmethod
    def min_max_sizeof(cls):
        return cls._container_.min_max_sizeof()
    @classmethod
    def sizeof(cls, obj):
        return cls._container_.sizeof(obj)
    @classmethod
    def is_fixed_size(cls):
        m = cls.min_max_sizeof()
        return m.min == m.max
    @classmethod
    def write_to_string(cls, obj, context=EMPTY_CONTEXT):
        stream = _Stream()
        type(obj).write_to_stream(obj, stream, context)
        return stream.getvalue()
    @classmethod
    def create_from_string(cls, s, context=EMPTY_CONTEXT, *args, **kwargs):
        if not isinstance(s, bytes):
            raise TypeError("s should be an instance of bytes in Python 3")
        return cls.create_from_stream(_Stream(s), context, *args, **kwargs)
    @classmethod
    def to_repr(cls, obj, context=EMPTY_CONTEXT):
        if obj is None:
            return "<none>"
        cls = type(obj)
        context = cls.get_updated_context(obj, context)
        return "%s(%s)" % (cls.__name__, cls._container_.to_repr(obj, context))
    @classmethod
    def get_updated_context(cls, obj, context):
        cls = type(obj)
        new_context = WritableContext(dict(cls._context_) if hasattr(cls, '_context_') else dict(struct=obj))
        new_context.update(context.get_dict())
        return new_context
    def to_bytes(self):
        return type(self).write_to_string(self)
    def __str__(self):
        raise NotImplementedError("Structs should not be treated as strings in Python 3. Use to_bytes instead")
    def __repr__(self):
        return type(self).to_repr(self)

class MarshalWithField(Marshal):
    def __init__(self, marshal):
        self.marshal = marshal
    def __call__(self, name, default=None):
        return Field(name, self.marshal, default)
    def create_from_stream(self, stream, context=EMPTY_CONTEXT, *args, **kwargs):
        return self.marshal.create_from_stream(stream, context, *args, **kwargs)
    def write_to_stream(self, obj, stream, context=EMPTY_CONTEXT):
        return self.marshal.write_to_stream(obj, stream, context)
    def sizeof(self, obj):
        return self.marshal.sizeof(obj)
    def min_max_sizeof(self):
        return self.marshal.min_max_sizeof()
    def to_repr(self, obj, context=EMPTY_CONTEXT):
        return self.marshal.to_repr(obj, context)

UBInt8 = MarshalWithField(NumericMarshal(1, False, True))
UBInt16 = MarshalWithField(NumericMarshal(2, False, True))
UBInt32 = MarshalWithField(NumericMarshal(4, False, True))
UBInt64 = MarshalWithField(NumericMarshal(8, False, True))
SBInt8 = MarshalWithField(NumericMarshal(1, True, True))
SBInt16 = MarshalWithField(NumericMarshal(2, True, True))
SBInt32 = MarshalWithField(NumericMarshal(4, True, True))
SBInt64 = MarshalWithField(NumericMarshal(8, True, True))
ULInt8 = MarshalWithField(NumericMarshal(1, False, False))
ULInt16 = MarshalWithField(NumericMarshal(2, False, False))
ULInt32 = MarshalWithField(NumericMarshal(4, False, False))
ULInt64 = MarshalWithField(NumericMarshal(8, False, False))
SLInt8 = MarshalWithField(NumericMarshal(1, True, False))
SLInt16 = MarshalWithField(NumericMarshal(2, True, False))
SLInt32 = MarshalWithField(NumericMarshal(4, True, False))
SLInt64 = MarshalWithField(NumericMarshal(8, True, False))
UNInt8 = MarshalWithField(NumericMarshal(1, False, False))
UNInt16 = MarshalWithField(NumericMarshal(2, False, False))
UNInt32 = MarshalWithField(NumericMarshal(4, False, False))
UNInt64 = MarshalWithField(NumericMarshal(8, False, False))
SNInt8 = MarshalWithField(NumericMarshal(1, True, False))
SNInt16 = MarshalWithField(NumericMarshal(2, True, False))
SNInt32 = MarshalWithField(NumericMarshal(4, True, False))
SNInt64 = MarshalWithField(NumericMarshal(8, True, False))

def ConstField(name, value, marshal=None):
    if marshal is None:
        marshal = value
    if isinstance(marshal, Struct):
        marshal = type(marshal)
    elif not isinstance(marshal, Marshal):
        raise InstructError("don't know how to serialize const field %s" % (name,))
    return _ConstField(name, marshal, value)

def BitFields(*args):
    return BitFieldListContainer(args)

def BitField(name, size, default=None):
    if not isinstance(size, int):
        raise NotImplementedError('positional bit fields')
    return Field(name, BitMarshal(size), default)

def BitFlag(name, default=None):
    return Field(name, BitMarshal(1), default)

def BitPadding(size):
    return AnonymousField(BitPaddingMarshal(size))

def BytePadding(size, char=b'\x00'):
    return AnonymousField(BytePaddingMarshal(size, char))

Padding = BytePadding

def StructSelector(key_marshal, mapping, default=None):
    return StructSelectorMarshal(key_marshal, mapping, default)

def StructFunc(func):
    def wrapper(stream, context):
        return func(context.get('struct', None), stream, context)
    return wrapper

def SelectStructByFunc(name, func, min_max_size=UNBOUNDED_MIN_MAX, default=None):
    return Field(name, FuncStructSelectorMarshal(StructFunc(func), min_max_size), default)

def MappingField(name, value_marshal, mapping, default=None):
    return Field(name, FixedSizeMappingMarshal(mapping, value_marshal), default)

def FixedSizeArray(name, n, element_io, default=None):
    if default is not None:
        assert len(default) == n
    return Field(name, FixedSizeArrayMarshal(n, element_io), default)

def SumSizeArray(name, size_io, element_io, default=None):
    return Field(name, SumSizeArrayMarshal(size_io, element_io), default)

def VarSizeArray(name, size_io, element_io, default=None):
    return Field(name, VarSizeArrayMarshal(size_io, element_io), default)

def PaddedString(name, size, padding=b"\x00", padding_direction=1, default=None):
    if default is not None and isinstance(size, int):
        assert len(default) <= size
    return Field(name, PaddedStringMarshal(size, padding, padding_direction), default)

def VarSizeString(name, size_marshal, padding="\x00", padding_direction=1, default=None):
    return Field(name, VarSizeStringMarshal(size_marshal, padding, padding_direction), default)

FixedSizeString = PaddedString

def FixedSizeBuffer(name, size, default=None):
    if default is not None:
        assert len(default) == size
    return Field(name, FixedSizeBufferMarshal(size), default)

def VarSizeBuffer(name, size_marshal, default=None):
    return Field(name, VarSizeBufferMarshal(size_marshal), default)

class StructTypeAdapter(object):
    def __init__(self, buffer_type):
        self.buffer_type = buffer_type
    def create_from_string(self, s):
        if not isinstance(s, bytes):
            raise TypeError("s should be an instance of bytes in Python 3")
        buf = self.buffer_type()
        buf.unpack(s)
        return buf
    def write_to_stream(self, obj, stream, context=None):
        stream.write(bytes(obj.pack()))
    def create_from_stream(self, stream, context=None, *args, **kwargs):
        if self.buffer_type.byte_size is not None:
            packed_data = stream.read(self.buffer_type.byte_size)
            result = self.buffer_type()
            result.unpack(packed_data)
            return result
        raise ValueError("cannot unpack a non-fixed size buffer")
    def min_max_sizeof(self):
        raise NotImplementedError()
    def sizeof(self, obj):
        return len(obj.pack())
    def write_to_string(self, obj, context=None):
        return obj.pack()
    def to_repr(self, obj, context=None):
        return repr(obj)
    def get_updated_context(self, *args, **kwargs):
        raise NotImplementedError()

def buffer_to_struct_adapter(buffer_type):
    return StructTypeAdapter(buffer_type)
'''
