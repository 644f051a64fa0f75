"""Transfer functions for the part of ctypes the code uses.

Memory blocks are abstract byte strings; an address is a symbolic integer that
names its block, so that pointers survive being serialised into a C structure
and parsed back.  Structure layout follows the C ABI of the analysed platform.
"""
from .values import *
from .interp import Slice3, PyIter, _MISSING
from . import lib_py


class Mem(object):
    def __init__(self, data, label):
        self.data, self.label = data, label     # data: BytesV (bytearray)
        self.atom = None

    def size(self):
        return self.data.length()

    def __repr__(self):
        return '<memory %s>' % self.label


class CData(object):
    """payload of a ctypes instance: a window into a memory block"""

    def __init__(self, mem, off, size):
        self.mem, self.off, self.size = mem, off, size
        self.keep = []


def new_mem(e, segs, label):
    n = e.fresh_n.get('mem:' + label, 0)
    e.fresh_n['mem:' + label] = n + 1
    m = Mem(BytesV(segs, 'bytearray'), label if n == 0 else '%s#%d' % (label, n))
    return m


def address(e, mem):
    if mem.atom is None:
        mem.atom = Atom('sym', '&' + mem.label)
    e.static_doms[mem.atom] = Dom(1 << 12, (1 << (8 * e.pointer_size)) - (1 << 12))
    e.addr[mem.atom] = mem
    return P(mem.atom)


def resolve(e, v):
    """(mem, off) of an address value"""
    if isinstance(v, Poly):
        for mono, c in v.terms:
            if c == 1 and len(mono) == 1 and mono[0] in e.addr:
                return e.addr[mono[0]], sub(v, P(mono[0]))
    return None


def read_cells(e, cd, off, n):
    b = lib_py.cut(e, cd.mem.data, add(cd.off, off), add(add(cd.off, off), n))
    cs = b.cells()
    if cs is None:
        raise Unsupported('read of %r' % (b,))
    if len(cs) != n:
        e.event('oob', mem=cd.mem, off=off, n=n)
        cs = cs + [e.fresh('garbage', 0, 255) for _ in range(n - len(cs))]
    return cs


def write_cells(e, cd, off, cells):
    d = cd.mem.data
    e.touch(d)
    a = add(cd.off, off)
    z = add(a, len(cells))
    n = d.length()
    if not e.truth(compare('<=', z, n)):
        e.event('oob', mem=cd.mem, off=off, n=len(cells))
        return
    head, tail = lib_py.cut(e, d, 0, a), lib_py.cut(e, d, z, n)
    d.segs = BytesV(head.segs + [list(cells)] + tail.segs).segs


def ct(cls):
    for c in cls.mro:
        if c.info.get('ctype') is not None:
            return c.info['ctype']
    return None


def ct_size(e, cls):
    t = ct(cls)
    if t is None:
        e.throw('TypeError', 'this type has no size')
    return t['size']


def instance(e, cls, mem=None, off=0):
    size = ct_size(e, cls)
    if mem is None:
        mem = new_mem(e, [[0] * size] if isinstance(size, int) else [Opq('zeros', 0, size)], cls.name)
    return Obj(cls, payload=CData(mem, off, size))


def read_simple(e, t, cd, off=0):
    cells = read_cells(e, cd, off, t['size'])
    k = t['kind']
    if k == 'int':
        return lib_py.int_from_cells(e, cells, t['signed'], e.opts.get('big_endian', False))
    if k == 'bool':
        return compare('!=', cells[0], 0)
    if k == 'char':
        return norm_bytes(BytesV([cells]))
    if k == 'ptr':
        v = lib_py.int_from_cells(e, cells, False, e.opts.get('big_endian', False))
        if not isinstance(v, Poly):
            return v or None
        return v if e.truth(compare('!=', v, 0)) else None
    raise Unsupported('ctypes kind %s' % k)


def simple_value(e, t, v):
    """integer stored for a Python value assigned to a simple ctypes field"""
    k = t['kind']
    if isinstance(v, Obj) and isinstance(v.payload, CData):
        st = ct(v.cls)
        if st['kind'] in ('int', 'bool', 'ptr') and (st['kind'] == k or v.cls is t.get('cls') or k != 'ptr'):
            r = read_simple(e, st, v.payload)
            return 0 if r is None else r, v.payload.keep
        e.throw('TypeError', 'incompatible types, %s instance instead of %s' % (v.cls.name, k))
    if k == 'ptr':
        if v is None:
            return 0, []
        if isinstance(v, (int, Poly)):
            return v, []
        if isinstance(v, Opaque) and v.cls is None:
            return P(Atom('sym', 'int(%s)' % v.name)), []
        e.throw('TypeError', 'cannot be converted to pointer: %r' % (v,))
    if isinstance(v, Cond):
        v = int(e.truth(v))
    if k == 'char':
        b = as_bv(v)
        if b is not None:
            c = b.cells()
            if c is None or len(c) != 1:
                e.throw('TypeError', 'one character bytes, bytearray or integer expected')
            return c[0], []
    if isinstance(v, Opaque) and v.cls is None:
        v = P(Atom('sym', 'int(%s)' % v.name))
    if isinstance(v, Obj) and v.cls.has('__index__'):
        v = e.call_method(v, '__index__')
    if not isinstance(v, (int, Poly)):
        e.throw('TypeError', 'an integer is required (got %r)' % (v,))
    return v, []


def write_simple(e, t, cd, off, v):
    n, keep = simple_value(e, t, v)
    if t['kind'] == 'bool':
        n = int(e.truth(n))
    bits = e.bits_of(n, 8 * t['size'])
    lo, hi = e.interval(n)
    if lo is None or hi is None or lo < -(1 << (8 * t['size'] - 1)) or hi >= 1 << (8 * t['size']):
        e.event('truncate', value=n, size=t['size'])
    elif t.get('signed') and hi >= 1 << (8 * t['size'] - 1):
        e.event('wrap', value=n, size=t['size'])
    cells = [e.mk_bits(bits[8 * i:8 * i + 8]) for i in range(t['size'])]
    if e.opts.get('big_endian', False):
        cells = cells[::-1]
    write_cells(e, cd, off, cells)
    cd.keep.extend(keep)
    r = resolve(e, n)
    if r is not None and keep:
        cd.keep.append(r[0])


def read_field(e, o, cls, off):
    t = ct(cls)
    if t['kind'] in ('int', 'bool', 'char', 'ptr'):
        return read_simple(e, t, o, off)
    x = Obj(cls, payload=CData(o.mem, add(o.off, off), t['size']))
    return x


def write_field(e, cd, cls, off, v):
    t = ct(cls)
    if t['kind'] in ('int', 'bool', 'char', 'ptr'):
        return write_simple(e, t, cd, off, v)
    if isinstance(v, Obj) and isinstance(v.payload, CData):
        write_cells(e, cd, off, read_cells(e, v.payload, 0, t['size']))
        return
    if t['kind'] == 'array':
        b = as_bv(v)
        vals = list(lib_py.iterate(e, v)) if b is None else b.cells()
        if vals is None or len(vals) > t['n']:
            e.throw('ValueError', 'too many initializers')
        es = ct(t['item'])['size']
        for i, x in enumerate(vals):
            write_field(e, cd, t['item'], add(off, i * es), x)
        return
    raise Unsupported('assignment to ctypes field of kind %s' % t['kind'])


def ptr_target(e, p):
    """CData designated by an argument used as an address"""
    if isinstance(p, Obj):
        if p.cls is e.ct['byref']:
            return ptr_target(e, p.attrs['_obj'])
        if isinstance(p.payload, CData):
            t = ct(p.cls)
            if t['kind'] in ('ptr',):
                return ptr_target(e, read_simple(e, t, p.payload))
            return p.payload
    if isinstance(p, (int, Poly)) or p is None:
        r = resolve(e, p)
        if r is None:
            return None
        return CData(r[0], r[1], sub(r[0].size(), r[1]))
    b = as_bv(p)
    if b is not None:
        return CData(Mem(BytesV(list(b.segs), 'bytearray'), 'bytes'), 0, b.length())
    return None


def wrecked(e, p, what='memory is accessed through an address that names no buffer'):
    """the address p, which names no buffer, is used"""
    if isinstance(p, Obj) and p.cls is e.ct['byref']:
        p = p.attrs['_obj']
    v = p
    if isinstance(v, Obj) and isinstance(v.payload, CData) and ct(v.cls)['kind'] == 'ptr':
        v = read_simple(e, ct(v.cls), v.payload)
    if isinstance(v, Poly):
        v = e.pinned(v)
    e.event('badptr', value=p)
    if v is None or isinstance(v, int):
        raise Wrecked('%s at %s' % (what, e.where()))
    raise Unsupported('%s: %r at %s' % (what, v, e.where()))


def cdata_bytes(e, cd, n=None):
    if n is None:
        n = cd.size
    size = cd.mem.size()
    end = add(cd.off, n)
    if e.known(compare('<=', end, size)) is not True:
        if not e.truth(compare('<=', end, size)):
            e.event('oob', mem=cd.mem, off=cd.off, n=n)
            b = lib_py.cut(e, cd.mem.data, cd.off, size)
            return BytesV(b.segs + [Opq('out-of-bounds', 0, sub(end, size))])
    return BytesV(lib_py.cut(e, cd.mem.data, cd.off, end).segs)


def install(e):
    e.addr = {}
    obj = e.T['object']
    CD = Cls('_CData', [obj])
    K = e.ct = {}
    N = Native

    def simple(name, kind, size, signed=False):
        c = Cls(name, [CD])
        c.info['ctype'] = {'kind': kind, 'size': size, 'signed': signed, 'cls': c}
        K[name] = c

        def new(e_, cls, a, k):
            o = instance(e, cls)
            if a:
                write_simple(e, ct(cls), o.payload, 0, a[0])
                if isinstance(a[0], Obj) and isinstance(a[0].payload, CData):
                    o.payload.keep.extend(a[0].payload.keep)
            return o
        c.call_hook = new
        c.ns['value'] = Prop(N('value', lambda e_, a, k: read_simple(e, ct(a[0].cls), a[0].payload)),
                             N('value=', lambda e_, a, k: write_simple(e, ct(a[0].cls), a[0].payload, 0, a[1])))
        return c
    L, PS = e.long_size, e.pointer_size
    for n, s in (('byte', 1), ('short', 2), ('int', 4), ('long', L), ('longlong', 8)):
        simple('c_' + n, 'int', s, True)
        simple('c_u' + n, 'int', s, False)
    for n in (8, 16, 32, 64):
        simple('c_int%d' % n, 'int', n // 8, True)
        simple('c_uint%d' % n, 'int', n // 8, False)
    simple('c_size_t', 'int', PS)
    simple('c_ssize_t', 'int', PS, True)
    simple('c_bool', 'bool', 1)
    simple('c_char', 'char', 1)
    simple('c_void_p', 'ptr', PS)
    simple('c_char_p', 'ptr', PS)
    simple('c_wchar_p', 'ptr', PS)
    simple('c_float', 'float', 4)
    simple('c_double', 'float', 8)

    # ---- arrays
    AR = Cls('Array', [CD])
    cache = {}

    def ct_array(item, n):
        if not isinstance(n, (int, Poly)):
            e.throw('TypeError', 'array length must be an integer')
        if (item, n) in cache:
            return cache[(item, n)]
        if not isinstance(n, Poly) and n < 0:
            e.throw('ValueError', 'Array length must be >= 0')
        c = Cls('%s_Array_%r' % (item.name, n), [AR])
        c.info['ctype'] = {'kind': 'array', 'size': mul(n, ct_size(e, item)), 'item': item, 'n': n,
                           'align': ct(item).get('align', ct(item)['size'])}
        c.ns['_length_'] = n
        c.ns['_type_'] = item

        def new(e_, cls, a, k):
            o = instance(e, cls)
            for i, x in enumerate(a):
                write_field(e, o.payload, item, i * ct_size(e, item), x)
            return o
        c.call_hook = new
        cache[(item, n)] = c
        return c
    e.ct_array = ct_array

    def char_array(o):
        return ct(ct(o.cls)['item'])['kind'] == 'char'

    def ar_get(e_, a, k):
        o, i = a
        t = ct(o.cls)
        es = ct_size(e, t['item'])
        if isinstance(i, Slice3):
            if es == 1:
                b = lib_py.slice_bytes(e, cdata_bytes(e, o.payload), i)
                return norm_bytes(b) if char_array(o) else b.cells()
            if isinstance(t['n'], int) and i.concrete():
                return [read_field(e, o.payload, t['item'], j * es) for j in range(*i.py().indices(t['n']))]
            raise Unsupported('array slice')
        i = lib_py._index(e, i, t['n'])
        if e.truth(compare('<', i, 0)):
            i = add(i, t['n'])
        if not (e.truth(compare('<', i, t['n'])) and e.truth(compare('>=', i, 0))):
            e.throw('IndexError', 'invalid index')
        return read_field(e, o.payload, t['item'], mul(i, es))

    def ar_set(e_, a, k):
        o, i, v = a
        t = ct(o.cls)
        es = ct_size(e, t['item'])
        if isinstance(i, Slice3):
            b = as_bv(v)
            vals = b.cells() if b is not None else list(lib_py.iterate(e, v))
            idx = list(range(*slice(*[None if x is None else lib_py.concretise(e, x) for x in (i.start, i.stop, i.step)]).indices(t['n'])))
            if vals is None or len(vals) != len(idx):
                e.throw('ValueError', 'Can only assign sequence of same size')
            for j, x in zip(idx, vals):
                write_field(e, o.payload, t['item'], j * es, x)
            return
        i = lib_py._index(e, i, t['n'])
        if e.truth(compare('<', i, 0)):
            i = add(i, t['n'])
        if not (e.truth(compare('<', i, t['n'])) and e.truth(compare('>=', i, 0))):
            e.throw('IndexError', 'invalid index')
        write_field(e, o.payload, t['item'], mul(i, es), v)

    def ar_iter(e_, a, k):
        t = ct(a[0].cls)
        return PyIter(read_field(e, a[0].payload, t['item'], j * ct_size(e, t['item'])) for j in range(lib_py.concretise(e, t['n'])))
    AR.ns['__getitem__'] = N('__getitem__', ar_get)
    AR.ns['__setitem__'] = N('__setitem__', ar_set)
    AR.ns['__iter__'] = N('__iter__', ar_iter)
    AR.ns['__len__'] = N('__len__', lambda e_, a, k: ct(a[0].cls)['n'])
    CD.ns['__bytes__'] = N('__bytes__', lambda e_, a, k: norm_bytes(cdata_bytes(e, a[0].payload)))

    def raw_get(e_, a, k):
        if not char_array(a[0]):
            e.throw('AttributeError', 'raw')
        b = cdata_bytes(e, a[0].payload)
        b.mem = a[0].payload.mem
        c = norm_bytes(b)
        return c

    def raw_set(e_, a, k):
        b = as_bv(a[1])
        if b is None:
            e.throw('TypeError', 'a bytes-like object is required')
        put_bytes(a[0].payload, b)

    def put_bytes(cd, b):
        d = cd.mem.data
        n = b.length()
        if not e.truth(compare('<=', n, cd.size)):
            e.throw('ValueError', 'byte string too long')
        e.touch(d)
        tot = d.length()
        head, tail = lib_py.cut(e, d, 0, cd.off), lib_py.cut(e, d, add(cd.off, n), tot)
        d.segs = BytesV(head.segs + b.segs + tail.segs).segs
    e.ct_put = put_bytes

    def value_get(e_, a, k):
        b = cdata_bytes(e, a[0].payload)
        c = b.concrete()
        if c is not None:
            return c.split(b'\0')[0]
        n = e.fresh('len', 0)
        return BytesV([Opq('cstr(%s)' % a[0].payload.mem.label, 0, n)])
    AR.ns['raw'] = Prop(N('raw', raw_get), N('raw=', raw_set))
    AR.ns['value'] = Prop(N('value', value_get), N('value=', raw_set))

    # ---- structures
    ST = Cls('Structure', [CD])

    def layout(e_, cls):
        if '_fields_' not in cls.ns:
            return
        base = None
        for c in cls.mro[1:]:
            if c.info.get('ctype'):
                base = c.info['ctype']
                break
        pack = cls.lookup('_pack_')
        off = base['end'] if base else 0
        fields = dict(base['fields']) if base else {}
        align = base['align'] if base else 1
        for f in lib_py.iterate(e, cls.ns['_fields_']):
            f = list(lib_py.iterate(e, f))
            if len(f) != 2:
                raise Unsupported('bit field in structure %s' % cls.name)
            name, t = f
            if not isinstance(t, Cls) or ct(t) is None:
                e.throw('TypeError', 'second item in _fields_ tuple must be a C type')
            tt = ct(t)
            al = tt.get('align', tt['size'])
            if pack:
                al = min(al, pack)
            al = max(al, 1)
            off = (off + al - 1) // al * al
            fields[name] = (off, t, tt['size'])
            off += tt['size']
            align = max(align, al)
        size = (off + align - 1) // align * align
        cls.info['ctype'] = {'kind': 'struct', 'size': size, 'fields': fields, 'align': align, 'end': off}
    ST.on_subclass = layout

    def st_new(e_, cls, a, k):
        o = instance(e, cls)
        return st_init_user(o, a, k)

    def st_init_user(o, a, k):
        init = o.cls.lookup('__init__')
        e.call(e.bind(init, o), a, k)
        return o

    def st_init(e_, a, k):
        o = a[0]
        names = list(ct(o.cls)['fields'])
        if len(a) - 1 > len(names):
            e.throw('TypeError', 'too many initializers')
        for n, v in list(zip(names, a[1:])) + list(k.items()):
            e.set_attr(o, n, v)
    ST.ns['__init__'] = N('Structure.__init__', st_init)
    ST.call_hook = st_new

    def st_getattr(e_, o, name):
        f = (ct(o.cls) or {}).get('fields', {}).get(name)
        if f is None or not isinstance(o.payload, CData):
            return _MISSING
        return read_field(e, o.payload, f[1], f[0])

    def st_setattr(e_, o, name, v):
        f = (ct(o.cls) or {}).get('fields', {}).get(name)
        if f is None:
            return False
        write_field(e, o.payload, f[1], f[0], v)
        return True
    ST.info['getattr'] = st_getattr
    ST.info['setattr'] = st_setattr

    FD = Cls('CField', [obj])

    def st_clsattr(e_, cls, name):
        f = (ct(cls) or {}).get('fields', {}).get(name)
        if f is None:
            return _MISSING
        return Obj(FD, {'offset': f[0], 'size': f[2]})
    ST.info['cls_getattr'] = st_clsattr

    def window(cls, src, off, what):
        size = ct_size(e, cls)
        if isinstance(src, Obj) and isinstance(src.payload, CData):
            cd = src.payload
            mem, base, avail = cd.mem, cd.off, cd.size
        elif isinstance(src, BytesV) and src.kind == 'bytearray':
            mem, base, avail = Mem(src, 'bytearray'), 0, src.length()
        else:
            e.throw('TypeError', 'underlying buffer is not writable')
        if not e.truth(compare('>=', avail, add(size, off))):
            e.throw('ValueError', 'Buffer size too small (%r instead of at least %r bytes)' % (avail, size))
        return Obj(cls, payload=CData(mem, add(base, off), size)), mem

    def from_buffer(e_, a, k):
        o, mem = window(a[0], a[1], a[2] if len(a) > 2 else k.get('offset', 0), 'from_buffer')
        o.payload.keep.append(mem)
        return o

    def from_buffer_copy(e_, a, k):
        cls = a[0]
        b = as_bv(a[1])
        if b is None and isinstance(a[1], Obj) and isinstance(a[1].payload, CData):
            b = cdata_bytes(e, a[1].payload)
        if b is None:
            e.throw('TypeError', 'a bytes-like object is required')
        off = a[2] if len(a) > 2 else k.get('offset', 0)
        size = ct_size(e, cls)
        if not e.truth(compare('>=', b.length(), add(size, off))):
            e.throw('ValueError', 'Buffer size too small')
        m = new_mem(e, lib_py.cut(e, b, off, add(off, size)).segs, cls.name)
        return Obj(cls, payload=CData(m, 0, size))

    def from_address(e_, a, k):
        cd = ptr_target(e, a[1])
        if cd is None:
            wrecked(e, a[1])
        return Obj(a[0], payload=CData(cd.mem, cd.off, ct_size(e, a[0])))
    CD.ns['from_buffer'] = ClassMethod(N('from_buffer', from_buffer))
    CD.ns['from_buffer_copy'] = ClassMethod(N('from_buffer_copy', from_buffer_copy))
    CD.ns['from_address'] = ClassMethod(N('from_address', from_address))

    # ---- functions
    K['byref'] = Cls('CArgObject', [obj])

    def csb(e_, a, k):
        init = a[0] if a else k.get('init')
        size = a[1] if len(a) > 1 else k.get('size')
        if isinstance(init, Cond):
            init = int(e.truth(init))
        b = as_bv(init)
        if b is not None:
            n = b.length()
            if size is None:
                segs, total = b.segs + [[0]], add(n, 1)
            else:
                total = size
                if not e.truth(compare('<=', n, size)):
                    e.throw('ValueError', 'byte string too long')
                d = sub(size, n)
                segs = list(b.segs) + ([[0] * d] if isinstance(d, int) else [Opq('zeros', 0, d)])
        elif isinstance(init, (int, Poly)):
            if not e.truth(compare('>=', init, 0)):
                e.throw('ValueError', 'Array length must be >= 0')
            total = init
            segs = [[0] * init] if isinstance(init, int) else [Opq('zeros', 0, init)]
        else:
            e.throw('TypeError', '%r' % (init,))
        mem = new_mem(e, [list(s) if isinstance(s, list) else s for s in segs], 'buffer')
        cls = ct_array(K['c_char'], total)
        return Obj(cls, payload=CData(mem, 0, total))

    def sizeof(e_, a, k):
        x = a[0]
        if isinstance(x, Obj) and isinstance(x.payload, CData):
            return x.payload.size
        if isinstance(x, Cls) and ct(x) is not None:
            return ct_size(e, x)
        e.throw('TypeError', 'this type has no size: %r' % (x,))

    def cast(e_, a, k):
        x, t = a
        if isinstance(x, Obj) and isinstance(x.payload, CData):
            xt = ct(x.cls)
            if xt['kind'] == 'ptr':
                v, keep = read_simple(e, xt, x.payload), list(x.payload.keep)
            else:
                v, keep = add(address(e, x.payload.mem), x.payload.off), [x.payload.mem]
        elif isinstance(x, Obj) and x.cls is K['byref']:
            cd = ptr_target(e, x)
            v, keep = add(address(e, cd.mem), cd.off), [cd.mem]
        elif x is None or isinstance(x, (int, Poly)):
            v, keep = x, []
        elif as_bv(x) is not None:
            cd = ptr_target(e, x)
            v, keep = address(e, cd.mem), [cd.mem]
        else:
            e.throw('ArgumentError' if 'ArgumentError' in e.exc else 'TypeError', 'cast: wrong type %r' % (x,))
        o = instance(e, t)
        write_simple(e, {'kind': 'ptr', 'size': PS}, o.payload, 0, v)
        o.payload.keep.extend(keep)
        return o

    def addressof(e_, a, k):
        cd = a[0].payload if isinstance(a[0], Obj) else None
        if not isinstance(cd, CData):
            e.throw('TypeError', 'invalid type')
        return add(address(e, cd.mem), cd.off)

    def byref(e_, a, k):
        if not (isinstance(a[0], Obj) and isinstance(a[0].payload, CData)):
            e.throw('TypeError', "byref() argument must be a ctypes instance, not %r" % (a[0],))
        return Obj(K['byref'], {'_obj': a[0]})

    def string_at(e_, a, k):
        cd = ptr_target(e, a[0])
        size = a[1] if len(a) > 1 else k.get('size', -1)
        if cd is None:
            wrecked(e, a[0])
        if not isinstance(size, (int, Poly)):
            e.throw('TypeError', 'an integer is required')
        if isinstance(size, int) and size == -1:
            c = cdata_bytes(e, cd).concrete()
            if c is not None:
                return c.split(b'\0')[0]
            return BytesV([Opq('cstr(%s)' % cd.mem.label, 0, e.fresh('len', 0))])
        b = cdata_bytes(e, cd, size)
        b.mem = cd.mem
        return norm_bytes(b)

    def memset(e_, a, k):
        cd = ptr_target(e, a[0])
        if cd is None:
            wrecked(e, a[0])
        n = a[2]
        put = BytesV([[a[1] & 0xff] * n]) if isinstance(n, int) else BytesV([Opq('fill:%r' % bytes([a[1] & 0xff]), 0, n)])
        size = cd.mem.size()
        if not e.truth(compare('<=', add(cd.off, n), size)):
            e.event('oob', mem=cd.mem, off=cd.off, n=n)
            return a[0]
        put_bytes(CData(cd.mem, cd.off, sub(size, cd.off)), put)
        return a[0]

    def memmove(e_, a, k):
        dst, src = ptr_target(e, a[0]), ptr_target(e, a[1])
        if dst is None or src is None:
            wrecked(e, a[0] if dst is None else a[1])
        b = cdata_bytes(e, src, a[2])
        if not e.truth(compare('<=', add(dst.off, a[2]), dst.mem.size())):
            e.event('oob', mem=dst.mem, off=dst.off, n=a[2])
            return a[0]
        put_bytes(CData(dst.mem, dst.off, sub(dst.mem.size(), dst.off)), b)
        return a[0]

    ptrs = {}

    def POINTER(e_, a, k):
        t = a[0]
        if t in ptrs:
            return ptrs[t]
        c = Cls('LP_' + t.name, [CD])
        c.info['ctype'] = {'kind': 'ptr', 'size': PS, 'cls': c}

        def target(o):
            cd = ptr_target(e, o)
            if cd is None:
                e.throw('ValueError', 'NULL pointer access')
            return cd

        def new(e2, cls, a2, k2):
            o = instance(e, cls)
            if a2:
                cd = a2[0].payload
                write_simple(e, {'kind': 'ptr', 'size': PS}, o.payload, 0, add(address(e, cd.mem), cd.off))
                o.payload.keep.append(cd.mem)
            return o
        c.call_hook = new
        c.ns['contents'] = Prop(N('contents', lambda e2, a2, k2: Obj(t, payload=CData(target(a2[0]).mem, target(a2[0]).off, ct_size(e, t)))))
        c.ns['__getitem__'] = N('__getitem__', lambda e2, a2, k2: read_field(e, target(a2[0]), t, mul(a2[1], ct_size(e, t)))
                                if not isinstance(a2[1], Slice3) else
                                norm_bytes(lib_py.slice_bytes(e, cdata_bytes(e, target(a2[0])), a2[1])))
        ptrs[t] = c
        return c

    def pointer(e_, a, k):
        return e.call(POINTER(e, [a[0].cls], {}), [a[0]])

    class Lib(object):
        """a loaded shared library: every symbol is an external function"""

        def __init__(self, name):
            self.name, self.fns = name, {}

        def sa_getattr(self, eng, attr):
            if attr.startswith('__'):
                return _MISSING
            if attr not in self.fns:
                nm = self.name + '.' + attr

                def run(e_, a, k):
                    r = lib_py.ext_call(e, nm, a, k)
                    check = fn.attrs.get('errcheck')
                    return r if check is None else e.call(check, [r, fn, tuple(a)])
                fn = self.fns[attr] = N(nm, run)
            return self.fns[attr]

        def sa_setattr(self, eng, attr, v):
            pass

        def sa_getitem(self, eng, i):
            return self.sa_getattr(eng, i)

        def __repr__(self):
            return '<library %s>' % self.name

    class Loader(object):
        def __init__(self):
            self.libs = {}

        def sa_getattr(self, eng, attr):
            if attr.startswith('__'):
                return _MISSING
            if attr == 'LoadLibrary':
                return N('LoadLibrary', lambda e_, a, k: self.sa_getattr(e, str(a[0])))
            return self.libs.setdefault(attr, Lib(attr))

        def sa_getitem(self, eng, i):
            return self.sa_getattr(eng, i)
    def CDLL(e_, a, k):
        nm = a[0] if a and isinstance(a[0], str) else k.get('name', 'libc')
        if not isinstance(nm, str):
            nm = 'libc'
        e.event('dlopen', name=nm)
        h = e.handlers.get('dlopen')
        if h is not None:
            h(e, [nm], k)
        return Lib('libc')

    def module(eng):
        m = Module('ctypes')
        m.ns.update({n: c for n, c in K.items() if n.startswith('c_')})
        fns = dict(create_string_buffer=csb, c_buffer=csb, sizeof=sizeof, cast=cast, addressof=addressof, byref=byref,
                   string_at=string_at, memset=memset, memmove=memmove, POINTER=POINTER, pointer=pointer, CDLL=CDLL,
                   PyDLL=CDLL, alignment=lambda e_, a, k: (ct(a[0]) or {}).get('align', 1),
                   get_errno=lambda e_, a, k: lib_py.ext_call(e, 'ctypes.get_errno', a, k),
                   set_errno=lambda e_, a, k: lib_py.ext_call(e, 'ctypes.set_errno', a, k),
                   ARRAY=lambda e_, a, k: ct_array(a[0], a[1]))
        m.ns.update({n: N(n, f) for n, f in fns.items()})
        m.ns.update(Structure=ST, Array=AR, cdll=Loader(), ArgumentError=e.exc['ArgumentError'], DEFAULT_MODE=0,
                    RTLD_GLOBAL=256, RTLD_LOCAL=0)
        for n in ('BigEndianStructure', 'LittleEndianStructure', 'Union', 'CFUNCTYPE', 'PYFUNCTYPE', 'py_object',
                  'wstring_at', 'create_unicode_buffer', 'resize', 'pythonapi', 'pydll', 'LibraryLoader', 'SetPointerType',
                  'c_wchar', 'c_longdouble', 'HRESULT'):
            m.ns[n] = Opaque('ctypes.' + n)
        if e.platform == 'windows':
            m.ns['windll'] = Loader()
            m.ns['WinDLL'] = N('WinDLL', CDLL)
            m.ns['oledll'] = Loader()
            m.ns['GetLastError'] = N('GetLastError', lambda e_, a, k: lib_py.ext_call(e, 'kernel32.GetLastError', a, k))
            m.ns['WinError'] = Opaque('ctypes.WinError')
            m.ns['FormatError'] = N('FormatError', lambda e_, a, k: StrV(('FormatError',)))
        return m
    e.exc['ArgumentError'] = Cls('ArgumentError', [e.exc['Exception']])
    e.ext['ctypes'] = module

    def util(eng):
        m = Module('ctypes.util')
        m.ns['find_library'] = N('find_library', lambda e_, a, k: 'libc')
        return m
    e.ext['ctypes.util'] = util

    def wintypes(eng):
        m = Module('ctypes.wintypes')
        for n, t in dict(DWORD='c_ulong', WORD='c_ushort', BYTE='c_byte', BOOL='c_int', ULONG='c_ulong', LONG='c_long',
                         USHORT='c_ushort', SHORT='c_short', HANDLE='c_void_p', LPVOID='c_void_p', LPCVOID='c_void_p',
                         UINT='c_uint', INT='c_int', LARGE_INTEGER='c_longlong', ULARGE_INTEGER='c_ulonglong').items():
            m.ns[n] = K[t]
        return m
    e.ext['ctypes.wintypes'] = wintypes
