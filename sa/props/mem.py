"""M01..M04: what the kernel is handed, and what comes back from it."""
from ..core import *
from ..core import Broken
from .. import oskit
from ..oskit import Kernel, command, call, engine_for, PLATFORMS
from .. import lib_ctypes as lc
from .. import lib_py
from spec import abi


def cases(run):
    for kind in ('read', 'write'):
        for size in ('n', 0):
            for cdb_len in ((6, 10, 12, 16) if size else (6, 16)):
                yield kind, size, cdb_len


def cell_bytes(e, x, off, n):
    return lc.read_cells(e, x.cd, off, n)


def bad_events(e):
    return [v for v in e.events if v['kind'] in ('oob', 'badptr', 'truncate')]


def exchange_path(run, pl, kind, size, cdb_len, check, bits=64, big=(1 << 31) - 1, prep=None, kw=None):
    e = engine_for(run, pl, bits)

    def path():
        k = Kernel(e, pl, bits)
        x = k.make(**(kw or {}))
        n = e.fresh('n', 1, big) if size else 0
        cmd, cdb, data = command(e, kind, cdb_len, n)
        state = {'n': n, 'cdb': cdb, 'data': data, 'kind': kind, 'checked': 0}

        def respond(x):
            check(e, k, x, state, 'request')
            if prep:
                prep(e, k, x, state)
            else:
                if kind == 'read' and size:
                    k.fill_data(x)
                k.good(x)
        k.respond = respond
        r = call(e, x, cmd)
        if not k.exchanges:
            run.ob('a request reaches the kernel', '%s %s' % (pl, kind), False,
                   lambda: 'nothing was submitted: %s %s (%s)' % (r[0], show(r[1]), doms(e)))
            return
        check(e, k, k.exchanges[0], state, r)
    run.unit('executers', pl)
    run.explore(e, path, '%s %s %s %s' % (pl, kind, size, cdb_len))


@prop('M01', 200)
def m01(run):
    for pl in PLATFORMS:
        for kind, size, cdb_len in cases(run):
            what = '%s %s%s' % (pl, kind, '' if size else ' without data')

            def check(e, k, x, st, r):
                if r != 'request':
                    ev = bad_events(e)
                    run.ob('no access outside a buffer and no truncated field', what, not ev,
                           lambda: '; '.join('%s at %s' % (v['kind'], v['where']) for v in ev[:3]))
                    return
                f = k.family
                alive = x.live | set()
                both = x.live & x.live_done

                def region(rule, t, n):
                    """pointer t designates n accessible bytes that stay alive"""
                    if not run.ob(rule + ' pointer designates a buffer', what, t is not None, 'the pointer field holds no address of a buffer'):
                        return False
                    mem, off = t
                    run.ob(rule + ' buffer is kept alive until the response is in', what, id(mem) in both,
                           lambda: '%r is referred to by nothing but the request' % mem)
                    return run.ob(rule + ' buffer holds the length passed with it', what,
                                  e.truth(compare('>=', off, 0)) and e.truth(compare('<=', add(off, n), mem.size())),
                                  lambda: '%r bytes at offset %r of %r, which has %r (%s)' % (n, off, mem, mem.size(), doms(e)))
                if f == 'linux':
                    run.ob('the data is one buffer, not a scatter list', what, eq_int(e, x.field('iovec_count'), 0), lambda: 'iovec_count is %s' % show(x.field('iovec_count')))
                # the request structure itself
                run.ob('the request is a whole structure', what, e.truth(compare('>=', x.cd.size, k.size)),
                       lambda: '%r bytes, the kernel reads %d' % (x.cd.size, k.size))
                if k.platform == 'linux':
                    run.ob('write() and read() move one header', what, eq_int(e, x.length, k.size), lambda: '%r bytes written' % x.length)
                if f == 'windows':
                    for nm, v in (('input', x.insz), ('output', x.outsz)):
                        run.ob('%s size of the control call' % nm, what,
                               e.truth(compare('<=', v, x.cd.size)) and e.truth(compare('>=', v, k.size)),
                               lambda: '%r bytes of a buffer of %r' % (v, x.cd.size))
                run.ob('device handle', what, eq_int(e, k.code_fd, k.fd), lambda: 'submitted on %r' % (k.code_fd,))
                # command bytes
                if 'cdb' in k.PTRS[f]:
                    p, ln = k.PTRS[f]['cdb']
                    n = x.field(ln)
                    run.ob('command length', what, eq_int(e, n, cdb_len), lambda: '%r for %d bytes' % (n, cdb_len))
                    t = x.target(p)
                    if region('command', t, n):
                        got = BytesV([lc.read_cells(e, lc.CData(t[0], 0, t[0].size()), t[1], cdb_len)])
                        run.ob('command bytes', what, eq_bytes(e, got, st['cdb']), lambda: '%r, given %r' % (got, st['cdb']))
                else:
                    nm, ln = {'aix': ('scsi_cdb', 'command_length'), 'windows': ('Cdb', 'CdbLength')}[f]
                    off, room, _ = k.fields[nm]
                    n = x.field(ln)
                    run.ob('command length', what, eq_int(e, n, cdb_len), lambda: '%r for %d bytes' % (n, cdb_len))
                    got = BytesV([cell_bytes(e, x, off, cdb_len)])
                    run.ob('command bytes', what, eq_bytes(e, got, st['cdb']), lambda: '%r, given %r' % (got, st['cdb']))
                    rest = cell_bytes(e, x, off + cdb_len, room - cdb_len)
                    run.ob('unused command bytes are zero', what, all(eq_int(e, c, 0) for c in rest), lambda: '%r' % (rest,))
                # sense buffer
                if f == 'windows':
                    off, n = x.field('SenseInfoOffset'), x.field('SenseInfoLength')
                    run.ob('sense buffer inside the request, after the header', what,
                           e.truth(compare('>=', off, k.size)) and e.truth(compare('<=', add(off, n), x.cd.size)) and
                           e.truth(compare('<=', add(off, n), x.outsz)),
                           lambda: '%r bytes at %r of %r' % (n, off, x.cd.size))
                    run.ob('sense buffer holds fixed format sense data', what, e.truth(compare('>=', n, 18)), lambda: '%r bytes' % n)
                else:
                    p, ln = k.PTRS[f]['sense']
                    n = x.field(ln)
                    region('sense', x.target(p), n)
                    run.ob('sense buffer holds fixed format sense data', what, e.truth(compare('>=', n, 18)), lambda: '%r bytes' % n)
                # data
                p, ln = k.PTRS[f]['data']
                n = x.field(ln)
                run.ob('data length', what, eq_int(e, n, st['n']), lambda: '%r, the command transfers %r (%s)' % (n, st['n'], doms(e)))
                if size:
                    t = x.target(p)
                    if region('data', t, n) and kind == 'write':
                        got = BytesV(lib_py.cut(e, t[0].data, t[1], add(t[1], n)).segs)
                        run.ob('data-out bytes', what, eq_bytes(e, got, st['data']), lambda: '%r, given %r' % (got, st['data']))
            exchange_path(run, pl, kind, size, cdb_len, check)
            if 32 in Kernel.ABI[pl] and cdb_len in (10, 16):
                what += ', 32 bits'
                exchange_path(run, pl, kind, size, cdb_len, check, bits=32)
        disjoint(run, pl)


def disjoint(run, pl):
    """what the kernel may write for one outstanding command is no part of another"""
    e = engine_for(run, pl)
    what = pl + ' two commands outstanding'

    def path():
        k = Kernel(e, pl)
        x = k.make(max_queue_size=2)
        kinds = [('read', 'write')[e.choose(2, 'kind %d' % i)] for i in range(2)]
        try:
            for kind in kinds:
                cmd, _, _ = command(e, kind, 10, e.fresh('n', 1, 1 << 20))
                e.drive(e.call_method(x, 'send', [cmd, None]))
        except PyRaise as p:
            run.ob('two commands can be outstanding', what, False, lambda: 'raises %s' % show(p))
            return
        own = []
        for ex in k.exchanges:
            mems = {'request': ex.cd.mem}
            for name in k.PTRS[k.family]:
                t = ex.target(k.PTRS[k.family][name][0])
                if t is not None:
                    mems[name] = t[0]
            own.append(mems)
        if len(own) != 2:
            return
        clash = [(a, b) for a, m in own[0].items() for b, n in own[1].items() if m is n]
        run.ob('the buffers of outstanding commands are their own', what, not clash,
               lambda: 'the %s buffer of one is the %s buffer of the other' % clash[0])
    run.explore(e, path, what)


DIRECTION = {
    'linux': ('dxfer_direction', lambda e, v: eq_int(e, v, -3) or eq_int(e, v, -4), lambda e, v: eq_int(e, v, -2)),
    'solaris': ('flags', lambda e, v: eq_int(e, e.int_bin('&', v, 8), 8), lambda e, v: eq_int(e, e.int_bin('&', v, 8), 0)),
    'aix': ('flags', lambda e, v: eq_int(e, e.int_bin('&', v, 1), 1), lambda e, v: eq_int(e, e.int_bin('&', v, 1), 0)),
    'windows': ('DataIn', lambda e, v: eq_int(e, v, 1), lambda e, v: eq_int(e, v, 0)),
}


# bits of the request that keep the data from being moved, or have other effects than the command
FLAGS = {
    'linux': [('flags', 0x10000, 'SG_FLAG_NO_DXFER: the data is not copied'), ('flags', 4, 'SG_FLAG_MMAP_IO: the data is in the mapping, not in the buffer')],
    'solaris': [('flags', 0x4000, 'USCSI_RESET: the target is reset'), ('flags', 0x8000, 'USCSI_RESET_ALL: every target is reset'),
                ('flags', 0x40000, 'USCSI_RESET_LUN: the unit is reset'), ('flags', 0x3000, 'USCSI_ASYNC, USCSI_SYNC: the bus mode is changed')],
}


@prop('M02', 120)
def m02(run):
    for pl in PLATFORMS:
        for kind, size, cdb_len in cases(run):
            if cdb_len not in (6, 16) and not run.thorough:
                continue
            what = '%s %s%s' % (pl, kind, '' if size else ' without data')

            def check(e, k, x, st, r):
                f = k.family
                if r == 'request':
                    name, rd, wr = DIRECTION[f]
                    v = x.field(name)
                    if size:
                        run.ob('direction', what, (rd if kind == 'read' else wr)(e, v), lambda: '%s is %r' % (name, v))
                    else:
                        ln = x.field(k.PTRS[f]['data'][1])
                        run.ob('nothing is transferred', what, eq_int(e, ln, 0), lambda: 'length %r' % ln)
                    for name, bad, why in FLAGS.get(f, ()):
                        v = x.field(name)
                        run.ob('the data moves, and nothing else is asked for', what, eq_int(e, e.int_bin('&', v, bad), 0),
                               lambda: '%s is %s: %s' % (name, show(v), why))
                    if f == 'solaris':
                        run.ob('sense data is asked for', what, eq_int(e, e.int_bin('&', x.field('flags'), 0x10000), 0x10000),
                               'USCSI_RQENABLE is not set')
                    return
                o, v = r
                if not run.ob('a successful command succeeds', what, o == 'ok', lambda: 'raises %s' % show(v)):
                    return
                if kind == 'read' and size:
                    n = st.get('moved', st['n'])
                    want = BytesV([Opq('kdata', 0, n)])
                    run.ob('data-in is returned as delivered', what, eq_bytes(e, v, want), lambda: 'returns %s, the kernel delivered %r' % (show(v), want))
                else:
                    b = as_bv(v) if v is not None else None
                    run.ob('no data is returned', what, v is None or b is not None and eq_int(e, b.length(), 0), lambda: 'returns %s' % show(v))
            exchange_path(run, pl, kind, size, cdb_len, check)
            if pl == 'windows' and kind == 'read' and size:
                def prep(e, k, x, st):
                    n = x.field('DataTransferLength')
                    m = e.fresh('moved', 1, 1 << 20)
                    if not e.truth(compare('<=', m, n)):
                        raise PathEnd('the device cannot deliver more')
                    t = x.target('DataBuffer')
                    if t is None:
                        return
                    e.ct_put(lc.CData(t[0], t[1], sub(t[0].size(), t[1])), BytesV([Opq('kdata', 0, m)]))
                    x.put('DataTransferLength', m)
                    st['moved'] = m
                exchange_path(run, pl, kind, size, cdb_len, check, prep=prep)
    # two commands outstanding at once: each gets its own data
    for pl in PLATFORMS:
        e = engine_for(run, pl)
        what = pl + ' two commands outstanding'

        def path():
            k = Kernel(e, pl)
            x = k.make(max_queue_size=2)
            got = []
            m = e.run_source('def cb(i):\n    def f(data, exception):\n        note(i, data, exception)\n    return f\n', 'cb',
                             {'note': Native('note', lambda e_, a, kw: got.append(tuple(a)))})
            served = []

            def respond(ex):
                i = next(j for j, y in enumerate(k.exchanges) if y is ex)
                served.append(i)
                k.fill_data(ex, 'kdata%d' % i)
            k.respond = respond
            k.early = pl == 'linux' and bool(e.choose(2, 'when the device is done'))
            ns = [e.fresh('n%d' % i, 1, 1 << 20) for i in range(2)]
            try:
                for i in range(2):
                    cmd, _, _ = command(e, 'read', 10, ns[i])
                    e.drive(e.call_method(x, 'send', [cmd, e.call(m.ns['cb'], [i])]))
                if pl == 'linux' and e.choose(2, 'order of responses'):
                    k.queue.reverse()
                e.drive(e.call_method(x, 'wait', []))
            except PyRaise as p:
                run.ob('successful commands succeed', what, False, lambda: 'raises %s' % show(p))
                return
            run.ob('each command is completed once', what, sorted(g[0] for g in got) == [0, 1], lambda: 'callbacks %r' % [g[0] for g in got])
            for i, d, ex in got:
                run.ob('each command gets the data delivered into its own buffer', what,
                       ex is None and eq_bytes(e, d, BytesV([Opq('kdata%d' % i, 0, ns[i])])),
                       lambda: 'command %d gets %s / %s' % (i, show(d), show(ex)))
        run.explore(e, path, what)
    many_outstanding(run)
    # two executers, each with a command outstanding: each completes its own
    for pl in PLATFORMS:
        e = engine_for(run, pl)
        what = pl + ' two executers'

        def path2():
            k = Kernel(e, pl)
            got = []
            m = e.run_source('def cb(i):\n    def f(data, exception):\n        note(i, data, exception)\n    return f\n', 'cb',
                             {'note': Native('note', lambda e_, a, kw: got.append(tuple(a)))})

            def respond(ex):
                i = next(j for j, y in enumerate(k.exchanges) if y is ex)
                k.fill_data(ex, 'kdata%d' % i)
            k.respond = respond
            ns = [e.fresh('n%d' % i, 1, 1 << 20) for i in range(2)]
            xs, fds = [], []
            try:
                for i in range(2):
                    k.fd = 77 + i
                    xs.append(k.make(max_queue_size=2))
                for i in range(2):
                    k.executer = xs[i]
                    cmd, _, _ = command(e, 'read', 10, ns[i])
                    e.drive(e.call_method(xs[i], 'send', [cmd, e.call(m.ns['cb'], [i])]))
                    fds.append(k.code_fd)
                first = e.choose(2, 'which waits first')
                for i in (first, 1 - first):
                    k.executer = xs[i]
                    done = len(got)
                    e.drive(e.call_method(xs[i], 'wait', []))
                    run.ob('waiting on one executer completes its own commands', what, [g[0] for g in got[done:]] == [i],
                           lambda: 'executer %d completes commands of executers %r' % (i, [g[0] for g in got[done:]]))
            except PyRaise as p:
                run.ob('successful commands succeed', what, False, lambda: 'raises %s' % show(p))
                return
            run.ob('each executer uses its own device file', what, len(fds) == 2 and all(eq_int(e, f, 77 + i) for i, f in enumerate(fds)), lambda: show(fds))
            for i, d, ex in got:
                run.ob('each command gets the data delivered into its own buffer', what,
                       ex is None and eq_bytes(e, d, BytesV([Opq('kdata%d' % i, 0, ns[i])])),
                       lambda: 'command %d gets %s / %s' % (i, show(d), show(ex)))
        run.explore(e, path2, what)


def many_outstanding(run):
    """a deep queue: every command gets its own data, in whatever order the device answers"""
    for pl in PLATFORMS:
        e = engine_for(run, pl)
        for depth in (70, 300):
            what = '%s %d commands outstanding' % (pl, depth)

            def path():
                k = Kernel(e, pl)
                x = k.make(max_queue_size=depth)
                got = []
                m = e.run_source('def cb(i):\n    def f(data, exception):\n        note(i, data, exception)\n    return f\n', 'cb',
                                 {'note': Native('note', lambda e_, a, kw: got.append(tuple(a)))})
                at = {}

                def respond(ex):
                    at.update((id(y), j) for j, y in enumerate(k.exchanges))
                    k.fill_data(ex, 'kdata%d' % at[id(ex)])
                k.respond = respond
                order = e.choose(3, 'order of responses') if pl == 'linux' else 0
                try:
                    for i in range(depth):
                        cmd, _, _ = command(e, 'read', 10, 8)
                        e.drive(e.call_method(x, 'send', [cmd, e.call(m.ns['cb'], [i])]))
                    if order == 1:
                        k.queue.reverse()
                    elif order == 2:
                        k.queue = k.queue[depth // 2:] + k.queue[:depth // 2]
                    e.drive(e.call_method(x, 'wait', []))
                except PyRaise as p:
                    run.ob('successful commands succeed', what, False, lambda: 'raises %s' % show(p))
                    return
                run.ob('each command is completed once', what, sorted(g[0] for g in got) == list(range(depth)), lambda: 'callbacks %r' % [g[0] for g in got])
                bad = [i for i, d, ex in got if ex is not None or not eq_bytes(e, d, BytesV([Opq('kdata%d' % i, 0, 8)]))]
                run.ob('each command gets the data delivered into its own buffer', what, not bad, lambda: 'commands %r do not' % bad[:8])
            run.explore(e, path, what)


STRUCTS = [('linux', 'infi.asi.linux', 'SGIO', abi.SG_IO_HDR, {}),
           ('solaris', 'infi.asi.solaris', 'SCSICMD', abi.USCSI_CMD, None),
           ('aix', 'infi.asi.aix', 'sc_passthru', abi.SC_PASSTHRU, {}),
           ('windows', 'infi.asi.win32', 'SCSIPassThroughDirect', abi.SPTD, {})]


@prop('M03', 100)
def m03(run):
    for pl, mod, cls, table, _ in STRUCTS:
        for bits, a in table.items():
            e = engine_for(run, pl, bits)
            c = load_attr(e, mod, cls)
            t = lc.ct(c)
            run.unit('structures', '%s.%s (%d bit)' % (mod, cls, bits))
            if not run.ob('request is a C structure', cls, t is not None and t['kind'] == 'struct'):
                continue
            lay = {n.lower(): (o, s, ct, n) for n, (o, ct, s) in t['fields'].items()}
            covered = [False] * a['size']
            for n, (off, size, signed) in a['fields'].items():
                nm = n
                cand = [n.lower(), ('uscsi_' + n).lower()]
                if pl == 'solaris' and n == 'reason':
                    cand = ['uscsi_reason', 'uscsi_status']
                hit = next((lay[c_] for c_ in cand if c_ in lay), None)
                where = '%s.%s (%d bit)' % (cls, n, bits)
                if hit is None:
                    # renamed: the field at that place counts
                    hit = next((v for v in lay.values() if v[0] == off and v[1] == size), None)
                if not run.ob('field exists', where, hit is not None, 'no field at offset %d of %d bytes' % (off, size)):
                    continue
                o, s, ct, nm = hit
                if pl == 'solaris' and n in ('status', 'reason'):
                    ok = o <= off and off + size <= o + s and o >= 4 and o + s <= 6
                else:
                    ok = (o, s) == (off, size)
                run.ob('field offset and width', where, ok, 'at offset %d, %d bytes; the ABI has offset %d, %d bytes' % (o, s, off, size))
                tt = lc.ct(ct)
                if tt['kind'] == 'int' and n in ('dxfer_direction', 'pack_id', 'interface_id') or \
                        tt['kind'] == 'int' and n in ('status', 'host_status', 'driver_status', 'dxfer_len', 'timeout', 'ScsiStatus',
                                                     'DataTransferLength', 'status_validity', 'einval_arg', 'data_length') and pl != 'solaris':
                    run.ob('signedness', where, bool(tt['signed']) == signed, 'signed' if tt['signed'] else 'unsigned')
            if pl != 'windows':
                run.ob('total size', '%s (%d bit)' % (cls, bits), t['size'] == a['size'], '%d bytes, the ABI has %d' % (t['size'], a['size']))
            else:
                run.ob('room for the header', '%s (%d bit)' % (cls, bits), t['size'] >= a['size'], '%d bytes' % t['size'])
    # request codes and constants the interface requires, in every request
    must = {'linux': [('interface_id', 83), ('iovec_count', 0)], 'solaris': [], 'aix': [('version', 2), ('variable_cdb_length', 0)],
            'windows': [('Length', None)]}
    for pl in PLATFORMS:
        for bits in ((64, 32) if pl in ('linux', 'linux_ioctl', 'windows') else (64,)):
            for kind in ('read', 'write'):
                def check(e, k, x, st, r):
                    if r != 'request':
                        return
                    if pl in k.CODE:
                        run.ob('control code', '%s %s' % (pl, kind), eq_int(e, k.code, k.CODE[pl]), lambda: '%r' % (k.code,))
                    for n, v in must[k.family]:
                        want = k.size if v is None else v
                        run.ob('constant required by the interface', '%s %s' % (pl, n), eq_int(e, x.field(n), want),
                               lambda: '%s is %r, must be %r (%d bit)' % (n, x.field(n), want, bits))
                exchange_path(run, pl, kind, 'n', 10, check, bits)


TIMEOUT = {'linux': ('timeout', 30000, (1, 2 ** 31 - 1)), 'linux_ioctl': ('timeout', 30000, (1, 2 ** 31 - 1)),
           'solaris': ('timeout', 30, (1, 32767)), 'solaris_be': ('timeout', 30, (1, 32767)),
           'aix': ('timeout_value', 30, (1, 2 ** 31 - 1)), 'aix_fcntl': ('timeout_value', 30, (1, 2 ** 31 - 1)),
           'windows': ('TimeOutValue', 10, None)}


@prop('M04', 50)
def m04(run):
    for pl in PLATFORMS:
        name, default, custom = TIMEOUT[pl]
        for kind, size in (('read', 'n'), ('read', 0), ('write', 'n'), ('write', 0)):
            what = '%s %s%s' % (pl, kind, '' if size else ' without data')

            def check(e, k, x, st, r):
                if r == 'request':
                    v = x.field(name)
                    run.ob('default timeout', what, eq_int(e, v, default), lambda: '%s is %r, %d expected' % (name, v, default))
            for cdb_len in (6, 10, 12, 16):
                exchange_path(run, pl, kind, size, cdb_len, check)
            if custom is None:
                continue
            e = engine_for(run, pl)

            def path():
                k = Kernel(e, pl)
                t = e.fresh('t', *custom)
                x = k.make(timeout=t)
                cmd, _, _ = command(e, kind, (6, 10, 12, 16)[e.choose(4, 'command length')], e.fresh('n', 1, 1 << 20) if size else 0)
                seen = []

                def respond(x):
                    seen.append(1)
                    v = x.field(name)
                    run.ob("the caller's timeout", what, eq_int(e, v, t), lambda: '%s is %r, the caller gave %r' % (name, v, t))
                k.respond = respond
                call(e, x, cmd)
                if not seen:
                    run.ob('a request reaches the kernel', what, False, 'nothing was submitted')
            run.explore(e, path, what)
    contexts(run)


def contexts(run):
    """the executer contexts: the default, 3 seconds on a Linux sg device"""
    from .files import CONTEXTS, Files, platform_engine, WITH
    for cname, (fam, pl) in CONTEXTS.items():
        e = platform_engine(run, fam)
        ctx = load_attr(e, 'infi.asi.executers', cname)
        name, default, custom = TIMEOUT[pl]
        want = 3000 if cname == 'linux_sg' else default
        what = 'executers.%s' % cname

        def path():
            k = Kernel(e, pl)
            Files(e)
            seen = []

            def body(e_, a, kw):
                k.executer = a[0]
                cmd, _, _ = command(e, 'read', 10, 16)

                def respond(x):
                    v = x.field(name)
                    seen.append(1)
                    run.ob('timeout of the executer context', what, eq_int(e, v, want), lambda: '%s is %r, %d expected' % (name, v, want))
                k.respond = respond
                call(e, a[0], cmd)
            m = e.run_source(WITH, 'with', {'note': Native('note', lambda e_, a, kw: None), 'X': None})
            e.call(m.ns['scope'], [ctx, '/dev/sg7', Native('body', body)])
            if not seen:
                run.ob('a request reaches the kernel', what, False, 'nothing was submitted')
        run.explore(e, path, what)
