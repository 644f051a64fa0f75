"""C01..C07: what a command puts on the wire, for every value of its parameters."""
import sys
import os
from ..core import *
from ..core import Broken
sys.path.insert(0, ROOT)
from spec import cdbs  # noqa

WIDE = 1 << 80


class Stop(Exception):
    pass


class Recorder(object):
    """an executer that records the commands it is given and answers with a fixed outcome"""

    def __init__(self, e, answer=None):
        self.e, self.calls, self.answer = e, [], answer
        self.obj = native_obj(e, 'RecordingExecuter', {'call': self.call, 'send': self.call})

    def call(self, e, args, kw):
        c = kw.get('command', args[0] if args else None)
        self.calls.append(c)
        if self.answer is None:
            e.throw('AsiStop', 'recorded')
        return self.answer(e, c)


def stop_exc(e):
    if 'AsiStop' not in e.exc:
        base = load_attr(e, 'infi.asi.errors', 'AsiSCSIError')
        e.exc['AsiStop'] = Cls('AsiStop', [base], {})
    return e.exc['AsiStop']


class Sent(object):
    """what one execute() handed to the executer"""

    def __init__(self, e, c):
        self.cdb = as_bv(e.get_attr(c, 'command'))
        self.names = [k.name for k in c.cls.mro]
        self.read = 'SCSIReadCommand' in self.names
        self.write = 'SCSIWriteCommand' in self.names
        self.alloc = e.get_attr(c, 'max_response_length') if self.read else None
        self.data = e.get_attr(c, 'data') if self.write else None


def execute(e, cmd, rec):
    """outcome of cmd.execute(rec): ('ok', value) or ('raise', exc)"""
    try:
        g = e.call_method(cmd, 'execute', [rec.obj])
        return 'ok', e.drive(g)
    except PyRaise as x:
        return 'raise', x.exc


def submit(e, cmd, n=1):
    """the commands handed to the executer by n executions of cmd"""
    stop_exc(e)
    out = []
    for _ in range(n):
        rec = Recorder(e)
        r = execute(e, cmd, rec)
        out.append((rec.calls, r))
    return out


def different(e, name, v, lo, hi):
    """any other value of the same range"""
    w = e.fresh(name, lo, hi)
    e.assume(compare('!=', w, v), True)
    return w


def similar_blocks(e, mod, cls, args, kw, limits, bs):
    """executes commands of the same class that differ from the one about to be made in one parameter only; any of
    them may be the last one before it"""
    ints = [(i, l) for i, a in enumerate(args) for l in limits if a is l[1]]
    out = []
    for i, (what, v, lo, hi) in ints:
        def other(i=i, v=v, lo=lo, hi=hi, what=what):
            a = list(args)
            a[i] = different(e, 'earlier ' + what, v, lo, hi)
            return a, kw
        out.append(other)
    if len(args) > 1 and isinstance(args[1], BytesV):
        def same_size():
            return [args[0], BytesV([Opq('earlier', 0, args[1].length())])] + args[2:], kw

        def other_size():
            n = e.fresh('earlier size', 1, 255)
            return [args[0], BytesV([Opq('earlier2', 0, mul(n, bs))])] + args[2:], kw
        out += [same_size, other_size]
    if kw:
        def other_block():
            if len(args) > 1 and isinstance(args[1], BytesV):
                return [args[0], b'\xAA' * 512] + args[2:], {}
            return args, {'block_size': different(e, 'earlier block size', bs, 1, 1 << 20)}
        out.append(other_block)
    k = e.choose(len(out), 'last similar command')
    for f in out[k + 1:] + out[:k + 1]:
        a, w = f()
        submit(e, build(e, mod, cls, a, w))


def with_control(e, cmd, control, layout, vals):
    """sets the control byte of the command; the layout and values that are then expected"""
    naca, vendor = e.fresh('naca', 0, 1), e.fresh('vendor_specific', 0, 3)
    c = e.call(load_attr(e, cdbs.R + 'control', control), [], {'naca': naca, 'vendor_specific': vendor})
    e.set_attr(cmd, 'control', c)
    at = layout['length'] - 1
    return (dict(layout, fields=tuple(layout['fields']) + (('naca', at, 2, 1), ('vendor specific', at, 6, 2))),
            dict(vals, **{'naca': naca, 'vendor specific': vendor}))


def expected_bits(e, layout, vals):
    n = layout['length']
    bits = [[0] * 8 for _ in range(n)]
    for src, byte, lsb, width in layout['fields']:
        v = vals[src] if isinstance(src, str) else src
        b = e.bits_of(v, width)
        at = (n - 1 - byte) * 8 + lsb
        for i in range(width):
            p = at + i
            bits[n - 1 - p // 8][p % 8] = b[i]
    return bits


def check_cdb(run, e, rule, name, cdb_, layout, vals, key=None):
    """every bit of the descriptor block against the frozen layout"""
    n = layout['length']
    k = '%s: %s' % (rule, name)
    if not run.ob(rule, name + ' length', cdb_ is not None and eq_int(e, cdb_.length(), n),
                  lambda: 'descriptor block is %r, %d bytes expected (%s)' % (cdb_, n, doms(e)), key=k + ' length'):
        return False
    cells = cdb_.cells()
    want = expected_bits(e, layout, vals)
    ok = True
    for i in range(n):
        got = e.bits_of(cells[i], 8)
        good = all(bit_eq(e, g, w) for g, w in zip(got, want[i]))
        ok &= run.ob(rule, '%s byte %d' % (name, i), good,
                     lambda: 'byte %d is %s, expected %s (%s)' % (i, _b(got), _b(want[i]), doms(e)),
                     key=k + ' byte %d' % i)
    return ok


def _b(bits):
    from ..num import fmt_bits
    return fmt_bits(bits)


# ------------------------------------------------------------------------------------------- block commands
def blocks_cases(e, which):
    """(name, make(ranges) -> (args, kw, vals, data, limits)) for every block command"""
    out = []
    for name, (mod, cls, lw, tw, layout, flags) in cdbs.READS.items():
        def mk(wide, bs, mod=mod, cls=cls, lw=lw, tw=tw):
            lba = e.fresh('lba', -WIDE if wide else 0, WIDE if wide else 2 ** lw - 1)
            n = e.fresh('blocks', -WIDE if wide else 0, WIDE if wide else 2 ** tw - 1)
            return [lba, n], {'lba': lba, 'blocks': n}, None, [('lba', lba, 0, 2 ** lw - 1), ('transfer length', n, 0, 2 ** tw - 1)]
        out.append((name, mod, cls, mk, layout, flags))
    for name, (mod, cls, lw, (t0, t1), layout, flags) in cdbs.WRITES.items():
        def mk(wide, bs, lw=lw, t0=t0, t1=t1):
            lba = e.fresh('lba', -WIDE if wide else 0, WIDE if wide else 2 ** lw - 1)
            n = e.fresh('blocks', 0 if wide else t0, 2 ** 48 if wide else t1)
            data = BytesV([Opq('data', 0, mul(n, bs))])
            return [lba, data], {'lba': lba, 'blocks': n}, data, [('lba', lba, 0, 2 ** lw - 1), ('block count', n, t0, t1)]
        out.append((name, mod, cls, mk, layout, flags))
    for name, (mod, cls, lw, tw, layout, flags) in cdbs.WRITE_SAME.items():
        def mk(wide, bs, lw=lw, tw=tw):
            lba = e.fresh('lba', -WIDE if wide else 0, WIDE if wide else 2 ** lw - 1)
            n = e.fresh('blocks', -WIDE if wide else 0, WIDE if wide else 2 ** tw - 1)
            d = e.fresh('datablocks', 1, 1 if not wide else 2 ** 20)
            data = BytesV([Opq('data', 0, mul(d, bs))])
            return [lba, data, n], {'lba': lba, 'blocks': n}, data, [('lba', lba, 0, 2 ** lw - 1), ('number of blocks', n, 0, 2 ** tw - 1)]
        out.append((name, mod, cls, mk, layout, flags))
    mod, cls, lw, tw, layout, flags = cdbs.COMPARE_AND_WRITE

    def mk(wide, bs):
        lba = e.fresh('lba', -WIDE if wide else 0, WIDE if wide else 2 ** 64 - 1)
        n = e.fresh('blocks', -WIDE if wide else 0, WIDE if wide else 255)
        if wide:
            d = e.fresh('datablocks', 0, 2 ** 20)
        else:
            d = mul(2, n)
        data = BytesV([Opq('data', 0, mul(d, bs))])
        return [lba, data, n], {'lba': lba, 'blocks': n}, data, [('lba', lba, 0, 2 ** 64 - 1), ('number of blocks', n, 0, 255)]
    out.append(('COMPARE AND WRITE', mod, cls, mk, layout, flags))
    return out


def with_flags(layout, flags, vals, fl):
    fields = list(layout['fields'])
    v = dict(vals)
    for k, (byte, lsb, width) in flags.items():
        if k in fl:
            fields.append((k, byte, lsb, width))
            v[k] = fl[k]
    return {'length': layout['length'], 'fields': tuple(fields)}, v


def block_sizes(e, name):
    return [('default', None), ('symbolic', 'bs')]


def build(e, mod, cls, args, kw):
    return e.call(load_attr(e, mod, cls), args, kw)


@prop('C01', 500)
def c01(run):
    e = run.engine()
    stop_exc(e)
    R1 = 'block command encoding'
    for name, mod, cls, mk, layout, flags in blocks_cases(e, None):
        load_attr(e, mod, cls)
        run.unit('commands', name)
        variants = [('plain', None), ('block size', 'bs'), ('after similar commands', 'similar'), ('control', 'control')]
        variants += [('flag ' + f, f) for f in flags]
        for vname, v in variants:
            def path(v=v):
                bs, kw = 512, {}
                if v == 'bs':
                    bs = e.fresh('bs', 1, 1 << 20)
                    kw = {'block_size': bs}
                args, vals, data, limits = mk(False, bs)
                lay, vv, fl = layout, vals, {}
                try:
                    if v == 'similar':
                        similar_blocks(e, mod, cls, args, kw, limits, bs)
                    cmd = build(e, mod, cls, args, kw)
                    other = build(e, mod, cls, [1] + ([b'\xAA' * 512] if data is not None else [1]) + ([1] if len(args) > 2 else []), {})
                    if v in flags or v == 'control':
                        if e.choose(2, 'executed before'):
                            submit(e, cmd)
                    if v in flags:
                        fl[v] = e.fresh('flag', 0, 2 ** flags[v][2] - 1)
                        e.set_attr(cmd, v, fl[v])
                        lay, vv = with_flags(layout, flags, vals, fl)
                    elif v == 'control':
                        lay, vv = with_control(e, cmd, 'Control', layout, vals)
                except PyRaise as x:
                    run.ob(R1, '%s (%s) accepted' % (name, vname), False,
                           'parameters in range are rejected: %s (%s)' % (show(x), doms(e)), key='%s: %s accepted' % (R1, name))
                    return
                for i, (calls, r) in enumerate(submit(e, cmd, 2)):
                    if not run.ob(R1, '%s (%s) submitted' % (name, vname), len(calls) >= 1,
                                  lambda: 'parameters in range are rejected: %s (%s)' % (show(r[1]), doms(e)),
                                  key='%s: %s accepted' % (R1, name)):
                        return
                    s = Sent(e, calls[0])
                    check_cdb(run, e, R1 if i == 0 else 'encoding of a re-executed command',
                              '%s%s' % (name, '' if not fl else ' with ' + v), s.cdb, lay, vv)
            run.explore(e, path, '%s %s' % (name, vname))


@prop('C03', 60)
def c03(run):
    e = run.engine()
    stop_exc(e)
    R1 = 'out-of-range parameter rejected before submission'
    for name, mod, cls, mk, layout, flags in blocks_cases(e, None):
        load_attr(e, mod, cls)
        run.unit('commands', name)
        for vname, v in (('default block size', None), ('any block size', 'bs')):
            reached = [0]

            def path(v=v):
                bs, kw = 512, {}
                if v:
                    bs = e.fresh('bs', 1, 1 << 20)
                    kw = {'block_size': bs}
                args, vals, data, limits = mk(True, bs)
                try:
                    cmd = build(e, mod, cls, args, kw)
                except PyRaise:
                    return
                calls, r = submit(e, cmd)[0]
                if not calls:
                    run.ob(R1, name + ' rejected by an exception', r[0] == 'raise',
                           lambda: 'execute() neither submits nor raises (%s)' % doms(e))
                    return
                reached[0] += 1
                for what, val, lo, hi in limits:
                    inside = e.truth(compare('>=', val, lo)) and e.truth(compare('<=', val, hi))
                    run.ob(R1, '%s %s' % (name, what), inside,
                           lambda: 'a command with %s outside %d..%d is sent (%s)' % (what, lo, hi, doms(e)))
            run.explore(e, path, '%s %s' % (name, vname))
            if not reached[0] and not run.broken:
                run.ob(R1, name + ' reaches the executer', False, 'no path submits the command')
    for name, (mod, cls, params, layout, alloc) in cdbs.MANAGEMENT.items():
        for pname, w in params:
            if w in (1, None) and pname != 'parameter_data_format' or pname == 'control':
                continue
            load_attr(e, mod, cls)
            lo, hi = w if isinstance(w, tuple) else (0, 2 ** w - 1)
            code = pname in ('service_action', 'page_code', 'subpage_code', 'select_report', 'parameter_data_format')
            if pname == 'service_action':
                hi = 31             # what the field can hold; which of these exist is not a matter of range

            def path():
                vals = {}
                for p, pw in params:
                    if pw is None:
                        vals[p] = None
                    elif p == pname:
                        vals[p] = e.fresh(p, 0 if code else -WIDE, WIDE)
                    else:
                        vals[p] = pw[0] if isinstance(pw, tuple) else 0
                try:
                    cmd = build(e, mod, cls, [], vals)
                except PyRaise:
                    return
                calls, r = submit(e, cmd)[0]
                if not calls:
                    return
                inside = e.truth(compare('>=', vals[pname], lo)) and e.truth(compare('<=', vals[pname], hi))
                run.ob(R1, '%s %s' % (name, pname), inside,
                       lambda: 'a command with %s outside %d..%d is sent (%s)' % (pname, lo, hi, doms(e)))
            run.explore(e, path, '%s %s' % (name, pname))
    # parameters that travel in parameter lists
    def listed(name, make, limits):
        def path():
            vals = [e.fresh(what, 0, WIDE) for what, hi in limits]
            try:
                cmd = make(vals)
            except PyRaise:
                return
            calls, r = submit(e, cmd)[0]
            if not calls:
                return
            for v, (what, hi) in zip(vals, limits):
                run.ob(R1, '%s %s' % (name, what), e.truth(compare('<=', v, hi)),
                       lambda: 'a command with %s above %d is sent (%s)' % (what, hi, doms(e)))
        run.unit('commands', name)
        run.explore(e, path, name)
    um = cdbs.UNMAP[:2]
    ulim = [('LBA', 2 ** 64 - 1), ('number of blocks', 2 ** 32 - 1)]
    listed('UNMAP', lambda v: build(e, um[0], um[1], [[tuple(v)]], {}), ulim)
    listed('UNMAP (second range)', lambda v: build(e, um[0], um[1], [[(0, 1), tuple(v)]], {}), ulim)
    for name, mod, cls in (('RESERVE(10)', cdbs.R + 'reserve', 'Reserve10Command'), ('RELEASE(10)', cdbs.R + 'release', 'Release10Command')):
        listed(name, lambda v: build(e, mod, cls, [], {'third_party_device_id': v[0]}), [('device id', 2 ** 64 - 1)])
    keys = [('reservation key', 2 ** 64 - 1), ('service action reservation key', 2 ** 64 - 1), ('type', 15)]
    for sa in (0, 1, 2, 3, 4, 5, 6, 8):
        listed('PERSISTENT RESERVE OUT %d' % sa, lambda v: build(e, cdbs.R + 'persist.output', 'PersistentReserveOutCommand', [
            sa], {'reservation_key': v[0], 'service_action_reservation_key': v[1], 'pr_type': v[2]}), keys)

    # more ranges than the length fields of UNMAP can count
    def ranges():
        n = e.choose(2, 'ranges')
        count = (4096, 4100)[n]
        try:
            cmd = build(e, um[0], um[1], [[(1, 2)] * count], {})
        except PyRaise:
            run.ob(R1, 'UNMAP number of ranges', True)
            return
        calls, r = submit(e, cmd)[0]
        run.ob(R1, 'UNMAP number of ranges', not calls, lambda: 'a command with %d ranges is sent' % count)
    run.explore(e, ranges, 'UNMAP of too many ranges')
    # data that is not a whole number of blocks cannot be described by a block count
    R2 = 'data that is not a whole number of blocks rejected'
    for name, mod, cls, mk, layout, flags in blocks_cases(e, None):
        if name.startswith('READ'):
            continue
        for bs in (512, 520, 4096):
            def path():
                t = e.fresh('blocks', 0, 300)
                r = e.fresh('extra', 1, bs - 1)
                data = BytesV([Opq('data', 0, add(mul(t, bs), r))])
                args = [0, data] + ([1] if 'SAME' in name or 'COMPARE' in name else [])
                try:
                    cmd = build(e, mod, cls, args, {} if bs == 512 else {'block_size': bs})
                except PyRaise:
                    run.ob(R2, '%s block size %d' % (name, bs), True)
                    return
                calls, res = submit(e, cmd)[0]
                run.ob(R2, '%s block size %d' % (name, bs), not calls and res[0] == 'raise',
                       lambda: 'a command with %r bytes of data is sent (%s)' % (data.length(), doms(e)),
                       key='%s: %s' % (R2, name))
            run.explore(e, path, '%s misaligned' % name)


@prop('C04', 60)
def c04(run):
    e = run.engine()
    stop_exc(e)
    R1 = 'data-out sent verbatim, as a write command'
    for name, mod, cls, mk, layout, flags in blocks_cases(e, None):
        if name.startswith('READ'):
            continue
        load_attr(e, mod, cls)
        run.unit('commands', name)
        for vname, v in (('default', None), ('any block size', 'bs'), ('after similar commands', 'similar')):
            def path(v=v):
                bs, kw = 512, {}
                if v:
                    bs = e.fresh('bs', 1, 1 << 20)
                    kw = {'block_size': bs}
                args, vals, data, limits = mk(False, bs)
                try:
                    if v == 'similar':
                        similar_blocks(e, mod, cls, args, kw, limits, bs)
                    cmd = build(e, mod, cls, args, kw)
                    other = build(e, mod, cls, [1, b'\xAA' * 512] + ([1] if len(args) > 2 else []), {})
                except PyRaise:
                    return
                for calls, r in submit(e, cmd, 2):
                    if not calls:
                        continue
                    s = Sent(e, calls[0])
                    run.ob(R1, name + ' direction', s.write, lambda: 'handed over as %s' % s.names[0])
                    if s.write:
                        run.ob(R1, name + ' data', eq_bytes(e, s.data, data),
                               lambda: 'data sent is %r, given %r (%s)' % (s.data, data, doms(e)))
                    if s.write and name.startswith('WRITE('):
                        # the count on the wire (0 means 256 in WRITE(6)) times the block size is the data length
                        src, byte, lsb, width = layout['fields'][2]
                        cs = s.cdb.cells()
                        lo = byte - width // 8 + 1
                        bits = []
                        for i in range(byte, lo - 1, -1):
                            bits += e.bits_of(cs[i], 8)
                        cnt = e.mk_bits(bits)
                        if name == 'WRITE(6)' and e.truth(compare('==', cnt, 0)):
                            cnt = 256
                        run.ob('block count describes the data', name, eq_int(e, mul(cnt, bs), as_bv(s.data).length()),
                               lambda: 'count %r of blocks of %r for %r bytes (%s)' % (cnt, bs, as_bv(s.data).length(), doms(e)))
            run.explore(e, path, '%s %s' % (name, vname))


def wire_int(e, cells, byte, width):
    bits = []
    for i in range(byte, byte - width // 8, -1):
        bits += e.bits_of(cells[i], 8)
    return e.mk_bits(bits)


@prop('C05', 50)
def c05(run):
    e = run.engine()
    stop_exc(e)
    R1 = 'data-in buffer is as long as the transfer the command asks for'
    for name, mod, cls, mk, layout, flags in blocks_cases(e, None):
        if not name.startswith('READ'):
            continue
        load_attr(e, mod, cls)
        run.unit('commands', name)
        for vname, v in (('default', None), ('any block size', 'bs'), ('after similar commands', 'similar')):
            def path(v=v):
                bs, kw = 512, {}
                if v:
                    bs = e.fresh('bs', 1, 1 << 20)
                    kw = {'block_size': bs}
                args, vals, data, limits = mk(False, bs)
                try:
                    if v == 'similar':
                        similar_blocks(e, mod, cls, args, kw, limits, bs)
                    cmd = build(e, mod, cls, args, kw)
                    other = build(e, mod, cls, [1, 1], {'block_size': 16})
                except PyRaise:
                    return
                for calls, r in submit(e, cmd, 2):
                    if not calls:
                        continue
                    s = Sent(e, calls[0])
                    run.ob(R1, name + ' direction', s.read, lambda: 'handed over as %s' % s.names[0])
                    n = vals['blocks']
                    if name == 'READ(6)' and e.truth(compare('==', n, 0)):
                        n = 256
                    if s.read:
                        run.ob(R1, name, eq_int(e, s.alloc, mul(n, bs)),
                               lambda: '%r bytes for %r blocks of %r (%s)' % (s.alloc, n, bs, doms(e)))
            run.explore(e, path, '%s %s' % (name, vname))
    for name, spec in management(e):
        mod, cls, params, layout, alloc = spec
        if alloc is None:
            continue
        run.unit('commands', name)

        def path():
            r = make_management(run, e, name, spec)
            if r is None:
                return
            cmd, vals = r
            f = [x for x in layout['fields'] if x[0] == 'alloc']
            grown = None
            if f and cmd.attrs.get('allocation_length') is not None and e.choose(2, 'another allocation length'):
                # the caller asks for another length than the default one
                if e.choose(2, 'executed before'):
                    submit(e, cmd)
                grown = e.fresh('new allocation_length', 0, 2 ** f[0][3] - 1)
                e.set_attr(cmd, 'allocation_length', grown)
            for calls, r in submit(e, cmd, 2):
                if not calls:
                    continue
                s = Sent(e, calls[0])
                if grown is not None:
                    run.ob(R1, name + ' with another allocation length', s.read and eq_int(e, s.alloc, grown) and eq_int(
                        e, wire_int(e, s.cdb.cells(), f[0][1], f[0][3]), grown),
                        lambda: 'buffer of %r bytes, allocation length set to %r (%s)' % (s.alloc, grown, doms(e)))
                    continue
                if not run.ob(R1, name + ' direction', s.read, lambda: 'handed over as %s' % s.names[0]):
                    continue
                if isinstance(alloc, tuple):
                    run.ob('default allocation holds the fixed part of the response', name,
                           e.truth(compare('>=', s.alloc, alloc[1])),
                           lambda: '%r bytes asked for, at least %d needed' % (s.alloc, alloc[1]))
                else:
                    want = vals[alloc] if isinstance(alloc, str) else alloc
                    run.ob(R1, name + ' as requested', eq_int(e, s.alloc, want),
                           lambda: 'buffer of %r bytes, %r asked for (%s)' % (s.alloc, want, doms(e)))
                f = [x for x in layout['fields'] if x[0] in ('alloc', 'allocation_length')]
                if f:
                    cs = s.cdb.cells()
                    w = wire_int(e, cs, f[0][1], f[0][3])
                    run.ob(R1, name + ' allocation length field', eq_int(e, s.alloc, w),
                           lambda: 'buffer of %r bytes but allocation length %r (%s)' % (s.alloc, w, doms(e)))
        run.explore(e, path, name)


def management(e):
    for name, spec in cdbs.MANAGEMENT.items():
        yield name, spec
    for name, (mod, fac, layout, alloc) in cdbs.FACTORIES.items():
        yield name, (mod, fac, 'factory', layout, alloc)


def make_management(run, e, name, spec):
    mod, cls, params, layout, alloc = spec
    try:
        if params == 'factory':
            page = e.fresh('page', 0, 255)
            k = e.call(load_attr(e, mod, cls), [page])
            other = e.call(load_attr(e, mod, cls), [0xEE])
            return e.call(k), {'page': page}
        vals, rng = {}, {}
        for p, w in params:
            if w is None:
                vals[p] = None
            elif isinstance(w, tuple):
                vals[p] = e.fresh(p, *w) if w[0] != w[1] else w[0]
                if w[0] != w[1]:
                    rng[p] = w
            else:
                vals[p] = e.fresh(p, 0, 2 ** w - 1)
                rng[p] = (0, 2 ** w - 1)
        history = e.choose(3 if rng else 1, 'before')
        if history == 1:            # similar commands were executed before
            names = list(rng)
            k = e.choose(len(names), 'last similar command')
            for p in names[k + 1:] + names[:k + 1]:
                submit(e, build(e, mod, cls, [], dict(vals, **{p: different(e, 'earlier ' + p, vals[p], *rng[p])})))
        cmd = build(e, mod, cls, [], vals)
        if history == 2:            # the command was executed before, and its fields are changed
            submit(e, cmd)
            for p in rng:
                vals[p] = e.fresh('new ' + p, *rng[p])
                e.set_attr(cmd, p, vals[p])
        other = build(e, mod, cls, [], {p: (None if w is None else w[1] if isinstance(w, tuple) else 2 ** w - 1)
                                        for p, w in params})
        return cmd, vals
    except PyRaise as x:
        run.ob('parameters in range accepted', name, False, '%s (%s)' % (show(x), doms(e)))
        return None


@prop('C02', 300)
def c02(run):
    e = run.engine()
    stop_exc(e)
    R1 = 'management command encoding'
    for name, spec in management(e):
        load_attr(e, spec[0], spec[1])
        run.unit('commands', name)

        def path():
            r = make_management(run, e, name, spec)
            if r is None:
                return
            cmd, vals = r
            layout = spec[3]
            if name == 'LOG SENSE':
                layout = dict(layout, fields=tuple(layout['fields']) + (('pc', 2, 6, 2), ('sp', 1, 0, 1), ('parameter_pointer', 6, 0, 16)))
                # fields that are set on the command object, before or after which other fields are set
                for f, w in (('pc', 2), ('sp', 1), ('parameter_pointer', 16)):
                    if e.choose(2, f):
                        vals[f] = e.fresh(f, 0, 2 ** w - 1)
                        e.set_attr(cmd, f, vals[f])
                    else:
                        vals[f] = 0
            control = {'RESERVE(6)': 'ControlBuffer', 'RELEASE(6)': 'ControlBuffer'}.get(
                name, 'Control' if 'CDB' in [k.name for k in cmd.cls.mro] else None)
            if control and e.choose(2, 'control'):
                layout, vals = with_control(e, cmd, control, layout, vals)
            for i, (calls, r) in enumerate(submit(e, cmd, 2)):
                if not run.ob(R1, name + ' submitted', len(calls) >= 1,
                              lambda: 'parameters in range are rejected: %s (%s)' % (show(r[1]), doms(e)),
                              key='%s: %s accepted' % (R1, name)):
                    return
                s = Sent(e, calls[0])
                v = dict(vals)
                v['alloc'] = s.alloc
                check_cdb(run, e, R1 if i == 0 else 'encoding of a re-executed command', name, s.cdb, layout, v)
        run.explore(e, path, name)
    # RESERVE(10) / RELEASE(10), PERSISTENT RESERVE OUT, UNMAP: descriptor block and parameter list together
    for case in parameter_cases(run, e):
        case(run, e, 'cdb')


@prop('C07', 200)
def c07(run):
    e = run.engine()
    stop_exc(e)
    for case in parameter_cases(run, e):
        case(run, e, 'data')


def check_layout(run, e, rule, name, bv, layout, vals):
    return check_cdb(run, e, rule, name, bv, layout, vals)


def parameter_cases(run, e):
    out = []
    RP = 'parameter list encoding'
    RC = 'management command encoding'

    def emit(run, e, part, name, cmd, cdb_layout, cdb_vals, data_layout, data_vals):
        for i, (calls, r) in enumerate(submit(e, cmd, 2)):
            if not run.ob(RP if part == 'data' else RC, name + ' submitted', len(calls) >= 1,
                          lambda: 'parameters in range are rejected: %s (%s)' % (show(r[1]), doms(e)),
                          key='%s: %s accepted' % (RP if part == 'data' else RC, name)):
                return
            s = Sent(e, calls[0])
            if part == 'cdb':
                check_cdb(run, e, RC if i == 0 else 'encoding of a re-executed command', name, s.cdb, cdb_layout, cdb_vals)
            else:
                if not run.ob(RP, name + ' direction', s.write, lambda: 'handed over as %s' % s.names[0]):
                    return
                check_cdb(run, e, RP, name, as_bv(s.data), data_layout, data_vals)
                # the length announced in the descriptor block
                f = [x for x in cdb_layout['fields'] if x[0] == 'length']
                if f:
                    w = wire_int(e, s.cdb.cells(), f[0][1], f[0][3])
                    run.ob('announced parameter list length', name, eq_int(e, w, as_bv(s.data).length()),
                           lambda: 'announces %r, sends %r bytes' % (w, as_bv(s.data).length()))

    def guard(run, name, f):
        try:
            return f()
        except PyRaise as x:
            run.ob('parameters in range accepted', name, False, '%s (%s)' % (show(x), doms(e)))

    def similar(mod, cls, variants):
        """commands that differ in one parameter were executed before; any of them may be the last one"""
        if not e.choose(2, 'before'):
            return
        k = e.choose(len(variants), 'last similar command')
        for f in variants[k + 1:] + variants[:k + 1]:
            a, kw = f()
            submit(e, build(e, mod, cls, a, kw))

    # UNMAP with 0..4 ranges, and with many
    def unmap(run, e, part):
        mod, cls, layout, flags = cdbs.UNMAP
        for n in list(range(0, 7 if run.thorough else 4)) + [16, 257] + ([4095] if run.thorough else []):
            name = 'UNMAP'
            run.unit('commands', name)

            def path():
                rs, vals = [], {}
                fields = [(6 + 16 * n, 1, 0, 16), (16 * n, 3, 0, 16)]
                for i in range(n):
                    if i < 6:
                        a, b = e.fresh('lba%d' % i, 0, 2 ** 64 - 1), e.fresh('n%d' % i, 0, 2 ** 32 - 1)
                    else:
                        a, b = i << 20, i
                    rs.append((a, b))
                    vals['a%d' % i], vals['b%d' % i] = a, b
                    fields += [('a%d' % i, 8 + 16 * i + 7, 0, 64), ('b%d' % i, 8 + 16 * i + 11, 0, 32)]
                dl = {'length': 8 + 16 * n, 'fields': tuple(fields)}
                if 0 < n < 4:
                    earlier = [lambda: ([rs + [(5, 6)]], {}), lambda: ([[(7, 8)] + rs[1:]], {}), lambda: ([rs[1:]], {}),
                               lambda: ([[(rs[0][0], different(e, 'earlier blocks', rs[0][1], 0, 2 ** 32 - 1))] + rs[1:]], {})]
                    if guard(run, name, lambda: similar(mod, cls, earlier) or True) is None:
                        return
                cmd = guard(run, name, lambda: (build(e, mod, cls, [rs], {}), build(e, mod, cls, [[(1, 2)]], {}))[0])
                if cmd is None:
                    return
                lay, v = layout, {'length': 8 + 16 * n}
                if n == 1 and part == 'cdb' and e.choose(2, 'control'):
                    lay, v = with_control(e, cmd, 'Control', lay, v)
                if n == 1 and part == 'cdb' and e.choose(2, 'group number'):
                    g = e.fresh('group number', 0, 31)
                    e.set_attr(cmd, 'GROUP_NUMBER', g)
                    lay, v = with_flags(lay, flags, v, {'GROUP_NUMBER': g})
                emit(run, e, part, name, cmd, lay, v, dl, vals)
            run.explore(e, path, '%s %d' % (name, n))
    out.append(unmap)

    # RESERVE(10) / RELEASE(10)
    def reserve(run, e, part):
        for name, mod, cls, op in (('RESERVE(10)', cdbs.R + 'reserve', 'Reserve10Command', 0x56),
                                   ('RELEASE(10)', cdbs.R + 'release', 'Release10Command', 0x57)):
            run.unit('commands', name)
            load_attr(e, mod, cls)
            for lo, hi in ((0, 0), (1, 254), (255, 255), (256, 2 ** 64 - 1)):
                def path():
                    d = e.fresh('device_id', lo, hi) if lo != hi else lo
                    earlier = [lambda k=k: ([], {'third_party_device_id': k}) for k in (0, 9, 2 ** 40)]
                    if guard(run, name, lambda: similar(mod, cls, earlier) or True) is None:
                        return
                    cmd = guard(run, name, lambda: (build(e, mod, cls, [], {'third_party_device_id': d}),
                                                    build(e, mod, cls, [], {'third_party_device_id': 7}))[0])
                    if cmd is None:
                        return
                    if hi == 0:
                        lay, v = cdbs.cdb(10, op), {}
                        dl = {'length': 0, 'fields': ()}
                    elif hi <= 254:
                        lay, v = cdbs.cdb(10, op, (1, 1, 4, 1), ('d', 3, 0, 8)), {'d': d}
                        dl = {'length': 0, 'fields': ()}
                    else:
                        # the device id travels in the parameter list; byte 3 is not significant
                        lay, v = cdbs.cdb(10, op, (1, 1, 1, 1), (1, 1, 4, 1), (8, 8, 0, 16)), {}
                        dl = {'length': 8, 'fields': (('d', 7, 0, 64),)}
                    if part == 'cdb' and e.choose(2, 'control'):
                        if e.choose(2, 'executed before'):
                            submit(e, cmd)
                        lay, v = with_control(e, cmd, 'ControlBuffer', lay, v)
                    emit(run, e, part, name, cmd, lay, v, dl, {'d': d})
                run.explore(e, path, '%s %d' % (name, lo))
    out.append(reserve)

    # PERSISTENT RESERVE OUT
    def prout(run, e, part):
        mod, cls = cdbs.R + 'persist.output', 'PersistentReserveOutCommand'
        load_attr(e, mod, cls)
        opts = {'activate_persist_through_power_loss': (20, 0), 'all_target_ports': (20, 2), 'specify_initiator_ports': (20, 3)}
        for sa in range(0, 9):
            if sa == 7:
                continue
            for opt in [None] + list(opts):
                name = 'PERSISTENT RESERVE OUT'
                run.unit('commands', '%s service action %d' % (name, sa))

                def path():
                    k1, k2 = e.fresh('key', 0, 2 ** 64 - 1), e.fresh('sakey', 0, 2 ** 64 - 1)
                    ty = e.fresh('type', 0, 8)
                    kw = {'reservation_key': k1, 'service_action_reservation_key': k2, 'pr_type': ty}
                    fields = [('k1', 7, 0, 64), ('k2', 15, 0, 64)]
                    vals = {'k1': k1, 'k2': k2}
                    if opt:
                        kw[opt] = e.fresh('opt', 0, 1)
                        vals['o'] = kw[opt]
                        fields.append(('o', opts[opt][0], opts[opt][1], 1))
                    earlier = [lambda p=p, v=v, hi=hi: ([sa], dict(kw, **{p: different(e, 'earlier ' + p, v, 0, hi)}))
                               for p, v, hi in (('reservation_key', k1, 2 ** 64 - 1), ('service_action_reservation_key', k2, 2 ** 64 - 1),
                                                ('pr_type', ty, 8))]
                    earlier += [lambda: ([(sa + 1) % 6], kw)]
                    if opt is None and guard(run, name, lambda: similar(mod, cls, earlier) or True) is None:
                        return
                    cmd = guard(run, name, lambda: (build(e, mod, cls, [sa], kw),
                                                    build(e, mod, cls, [0], {'reservation_key': 5, 'service_action_reservation_key': 6}))[0])
                    if cmd is None:
                        return
                    emit(run, e, part, name, cmd, cdbs.cdb(10, 0x5F, (sa, 1, 0, 5), ('ty', 2, 0, 4), ('length', 8, 0, 32)),
                         {'ty': ty, 'length': 24}, {'length': 24, 'fields': tuple(fields)}, vals)
                run.explore(e, path, '%s %d %s' % (name, sa, opt))
    out.append(prout)

    # REGISTER AND MOVE with transport ids of several lengths
    def prmove(run, e, part):
        mod, cls = cdbs.R + 'persist.output', 'PersistentReserveOutCommand'
        T = load_attr(e, cdbs.R + 'persist.transport', 'TransportId')
        opts = {'activate_persist_through_power_loss': (17, 0, 1), 'unregister': (17, 1, 1),
                'relative_target_port_identifier': (19, 0, 16)}
        for n in (0, 1, 3, 23, 27):
            for opt in [None] + list(opts):
                name = 'PERSISTENT RESERVE OUT (REGISTER AND MOVE)'
                run.unit('commands', name)

                def path():
                    k1, k2 = e.fresh('key', 0, 2 ** 64 - 1), e.fresh('sakey', 0, 2 ** 64 - 1)
                    spec = BytesV([[P(Atom('wb', 'tid', i)) for i in range(n)]], 'bytearray')
                    proto, fmt = e.fresh('proto', 0, 15), e.fresh('fmt', 0, 3)
                    fields = [('k1', 7, 0, 64), ('k2', 15, 0, 64), (n + 1, 23, 0, 32), ('p', 24, 0, 4), ('f', 24, 6, 2)]
                    vals = {'k1': k1, 'k2': k2, 'p': proto, 'f': fmt}
                    for i in range(n):
                        fields.append(('s%d' % i, 25 + i, 0, 8))
                        vals['s%d' % i] = P(Atom('wb', 'tid', i))

                    def mk():
                        t = e.call(T, [], {'protocol_identifier': proto, 'format_code': fmt, 'specific_data': spec})
                        kw = {'reservation_key': k1, 'service_action_reservation_key': k2, 'transport_id': t}
                        if opt:
                            kw[opt] = e.fresh('opt', 0, 2 ** opts[opt][2] - 1)
                            vals['o'] = kw[opt]
                            fields.append(('o',) + opts[opt])
                        return build(e, mod, cls, [7], kw)
                    cmd = guard(run, name, mk)
                    if cmd is None:
                        return
                    emit(run, e, part, name, cmd, cdbs.cdb(10, 0x5F, (7, 1, 0, 5), (1, 2, 0, 4), ('length', 8, 0, 32)),
                         {'length': 25 + n}, {'length': 25 + n, 'fields': tuple(fields)}, vals)
                run.explore(e, path, '%s %d' % (name, n))
    out.append(prmove)
    return out


ERRORS = ('AsiSCSIError', 'AsiOSError', 'AsiCheckConditionError', 'AsiRequestQueueFullError', 'AsiReservationConflictError',
          'AsiInternalError', 'OSError', 'IOError', 'KeyError', 'AssertionError', 'ValueError', 'TypeError', 'NotEnoughDataError', 'KeyboardInterrupt')


def make_error(e, name):
    if name == 'NotEnoughDataError':
        k = load_attr(e, 'infi.instruct.errors', name)
        return e.call(k, [4, 1])
    if name.startswith('Asi'):
        k = load_attr(e, 'infi.asi.errors', name)
        args = {'AsiCheckConditionError': [b'\x70' + bytes(17), None], 'AsiRequestQueueFullError': [],
                'AsiReservationConflictError': []}.get(name, ['broken'])
        return e.call(k, args)
    return e.call(e.exc[name], ['broken'])


def check_condition(e, key):
    """a check condition of that sense key, decoded from what a device sends"""
    get = load_attr(e, 'infi.asi.sense', 'get_sense_object_from_buffer')
    k = load_attr(e, 'infi.asi.errors', 'AsiCheckConditionError')
    buf = bytes([0x70, 0, key] + [0] * 4 + [10] + [0] * 4 + [0x29, key & 1] + [0] * 4)
    return e.call(k, [buf, e.call(get, [buf])])


def all_commands(run, e):
    """(name, make(), verbatim) of every command class, in range parameters"""
    for name, mod, cls, mk, layout, flags in blocks_cases(e, None):
        load_attr(e, mod, cls)

        def make(mod=mod, cls=cls, mk=mk):
            return build(e, mod, cls, mk(False, 512)[0], {})
        yield name, make, True
    for name, spec in management(e):
        def make(spec=spec):
            mod, cls, params, layout, alloc = spec
            if params == 'factory':
                return e.call(e.call(load_attr(e, mod, cls), [e.fresh('page', 0, 255)]))
            vals = {}
            for p, w in params:
                if w is None:
                    vals[p] = None
                elif p == 'allocation_length':
                    vals[p] = 64
                elif isinstance(w, tuple):
                    vals[p] = e.fresh(p, *w) if w[0] != w[1] else w[0]
                else:
                    vals[p] = e.fresh(p, 0, 2 ** w - 1)
            return build(e, mod, cls, [], vals)
        yield name, make, name == 'LOG SENSE'
    R = cdbs.R
    yield 'UNMAP', lambda: build(e, R + 'unmap', 'UnmapCommand', [[(e.fresh('a', 0, 99), e.fresh('b', 0, 99))]], {}), False
    for n, m, c in (('RESERVE(10)', 'reserve', 'Reserve10Command'), ('RELEASE(10)', 'release', 'Release10Command')):
        for d in (0, 7, 1 << 40):
            yield '%s %d' % (n, d), lambda m=m, c=c, d=d: build(e, R + m, c, [], {'third_party_device_id': d}), False
    for sa in (0, 1, 2, 3, 4, 5, 6, 8):
        yield 'PERSISTENT RESERVE OUT', lambda sa=sa: build(e, R + 'persist.output', 'PersistentReserveOutCommand', [sa],
                                                            {'reservation_key': 1, 'service_action_reservation_key': 2}), False

    def move():
        t = e.call(load_attr(e, R + 'persist.transport', 'TransportId'), [],
                   {'protocol_identifier': 6, 'format_code': 0, 'specific_data': BytesV([[1, 2, 3]], 'bytearray')})
        return build(e, R + 'persist.output', 'PersistentReserveOutCommand', [7],
                     {'reservation_key': 1, 'service_action_reservation_key': 2, 'transport_id': t})
    yield 'PERSISTENT RESERVE OUT (REGISTER AND MOVE)', move, False


@prop('C06', 700)
def c06(run):
    e = run.engine()
    stop_exc(e)
    R1, R2 = 'one exchange with the transport', "the transport's error reaches the caller"
    make_error(e, 'NotEnoughDataError')
    make_error(e, 'AsiSCSIError')
    load_attr(e, 'infi.asi.sense', '__name__')
    for mod in ('persist.output', 'persist.transport', 'unmap', 'reserve', 'release'):
        load_attr(e, cdbs.R + mod, '__name__')
    for m in cdbs.MANAGEMENT.values():
        load_attr(e, m[0], m[1])
    for m in cdbs.FACTORIES.values():
        load_attr(e, m[0], m[1])
    for name, make, verbatim in all_commands(run, e):
        run.unit('commands', name)

        def fails():
            which = (ERRORS + tuple(range(16)))[e.choose(len(ERRORS) + 16, 'error')]
            cmd = make()
            for again in (0, 1):
                err = make_error(e, which) if which in ERRORS else check_condition(e, which)

                def answer(e_, c):
                    raise PyRaise(err)
                rec = Recorder(e, answer)
                r = execute(e, cmd, rec)
                run.ob(R2, name, r[0] == 'raise' and r[1] is err,
                       lambda: 'the transport raises %s, the caller sees %s %s' % (which, r[0], show(r[1])))
                run.ob(R1, name, len(rec.calls) == 1, lambda: '%d exchanges when the transport raises %s' % (len(rec.calls), which))
        run.explore(e, fails, name + ' failing')

        def works():
            kind = e.choose(3 if verbatim else 2, 'answer')
            cmd = make()
            for again in (0, 1):
                if kind == 2:
                    data = None
                elif kind == 1:
                    data = b''
                else:
                    data = BytesV([Opq('answer', 0, e.fresh('len', 1, 1 << 40))]) if verbatim else b'\x00' * 96
                rec = Recorder(e, lambda e_, c: data)
                r = execute(e, cmd, rec)
                run.ob(R1, name, len(rec.calls) == 1, lambda: '%d exchanges for one command' % len(rec.calls))
                if name == 'TEST UNIT READY':
                    run.ob('a ready unit is reported as ready', name, r == ('ok', True), lambda: '%s %s' % (r[0], show(r[1])))
                if verbatim:
                    same = r[0] == 'ok' and (r[1] is None if data is None else as_bv(r[1]) is not None and eq_bytes(e, r[1], data))
                    run.ob("the transport's data is returned unchanged", name, same,
                           lambda: 'the transport answers %s, the caller gets %s %s' % (show(data), r[0], show(r[1])))
        run.explore(e, works, name)
