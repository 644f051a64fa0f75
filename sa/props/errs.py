"""E01..E06: every failure of the device, the transport and the operating system reaches the caller."""
from ..core import *
from ..core import Broken
from .. import oskit
from ..oskit import Kernel, command, call, engine_for, PLATFORMS
from .. import lib_ctypes as lc
from .queue import histories, T

SENSE_FIXED = {0: 0x70, 1: 0, 2: 0x05, 7: 244, 12: 0x24, 13: 0x00}
SENSE_DESC = {0: 0x72, 1: 0x06, 2: 0x29, 3: 0x00, 4: 0, 5: 0, 6: 0, 7: 0}


SMALL = {'status': (0, 2, 8, 0x18), 'host_status': (0, 1, 7), 'driver_status': (0, 6, 8, 0x10),
         'reason': (0, 1), 'rqstatus': (0, 1, 2), 'status_validity': (0, 1, 2), 'scsi_bus_status': (0, 2, 8),
         'adapter_status': (0, 1), 'ScsiStatus': ()}
FULL = {'host_status': 65535}
FIELDS = {'linux': ('status', 'host_status', 'driver_status'), 'solaris': ('status', 'reason', 'rqstatus'),
          'aix': ('status_validity', 'scsi_bus_status', 'adapter_status'), 'windows': ('ScsiStatus',)}


def status_modes(run, pl):
    """one status field takes every value while the others take representative ones (thorough: two take every value)"""
    names = FIELDS[pl.split('_')[0]]
    for full in names:
        yield full, (full,)
    if run.thorough and len(names) == 3:
        for left in names:
            yield 'all but ' + left, tuple(n for n in names if n != left)


def status_fields(e, pl, full):
    """the status fields of a completion: [(field, value)]"""
    out = []
    for n in FIELDS[pl.split('_')[0]]:
        if n in full:
            top = FULL.get(n, 255)
            if top > 255 and e.choose(2, n + ' is large'):
                out.append((n, e.fresh(n, 256, top)))
            else:
                out.append((n, e.fresh(n, 0, 255)))
        else:
            v = SMALL[n]
            out.append((n, v[e.choose(len(v), n)]))
    return out


def failed(e, pl, st):
    """did the command fail, according to the interface (frozen)"""
    f = pl.split('_')[0]
    nz = lambda n: e.truth(compare('!=', st[n], 0))  # noqa
    if f == 'linux':
        return nz('status') or nz('host_status') or e.truth(compare('!=', e.int_bin('&', st['driver_status'], 15), 0))
    if f == 'solaris':
        return nz('status') or nz('rqstatus')
    if f == 'aix':
        return nz('status_validity')
    return nz('ScsiStatus')


def completions(run, pl, kind, size, judge, tag='', sense=None, fixed=None):
    """one command, whose completion carries any status; judge(e, k, status, outcome)"""
    e = engine_for(run, pl)
    run.unit('executers', pl)

    def path():
        k = Kernel(e, pl)
        x = k.make()
        n = e.fresh('n', 1, 1 << 20) if size else 0
        cmd, cdb, data = command(e, kind, 10, n)
        st = {}

        def respond(x):
            if kind == 'read' and size:
                k.fill_data(x)
            k.put_sense(x, sense(e) if sense else [0] * 32)
            for name, v in (fixed(e)):
                st[name] = v
                x.put(name, v)
        k.respond = respond
        r = call(e, x, cmd)
        if not st:
            run.ob('a request reaches the kernel', '%s %s' % (pl, kind), False, lambda: 'nothing completed: %s %s' % (r[0], show(r[1])))
            return
        judge(e, k, st, r, n)
    run.explore(e, path, '%s %s %s' % (pl, kind, tag), max_paths=200000)


@prop('E01', 200)
def e01(run):
    for pl in PLATFORMS:
        for kind, size in (('read', 'n'), ('read', 0), ('write', 'n')):
            def judge(e, k, st, r, n):
                what = '%s %s%s' % (pl, kind, '' if size else ' without data')
                if failed(e, pl, st):
                    run.ob('a failed command raises', what, r[0] == 'raise',
                           lambda: 'returns %s although %s' % (show(r[1]), doms(e)))
                else:
                    ok = r[0] == 'ok'
                    if ok and kind == 'read' and size:
                        ok = eq_bytes(e, r[1], BytesV([Opq('kdata', 0, n)]))
                    run.ob('a command that succeeded yields its data', what, ok, lambda: '%s %s (%s)' % (r[0], show(r[1]), doms(e)))
            for tag, full in status_modes(run, pl):
                completions(run, pl, kind, size, judge, tag, fixed=lambda e: status_fields(e, pl, full))


def check_condition_status(pl):
    f = pl.split('_')[0]
    if f == 'linux':
        # the status byte, or the driver saying that there is sense data
        return [('status', lambda e: [('status', 2), ('host_status', e.fresh('host', 0, 255)), ('driver_status', e.fresh('driver', 0, 255))]),
                ('driver sense', lambda e: [('status', 0), ('host_status', 0), ('driver_status', 8 | e.choose(16, 'suggestion') << 4)])]
    if f == 'solaris':
        return [('status', lambda e: [('status', 2), ('reason', e.fresh('reason', 0, 255)), ('rqstatus', 0)])]
    if f == 'aix':
        return [('status', lambda e: [('status_validity', 1), ('scsi_bus_status', 2), ('adapter_status', e.fresh('adapter', 0, 255))])]
    return [('status', lambda e: [('ScsiStatus', 2)])]


def sense_variants():
    """(name, constant bytes, decodable)"""
    yield 'fixed format', SENSE_FIXED, True
    yield 'fixed format, deferred', {**SENSE_FIXED, 0: 0x71}, True
    yield 'descriptor format', SENSE_DESC, True
    yield 'descriptor format, deferred', {**SENSE_DESC, 0: 0x73}, True
    yield 'unknown response code', {0: 0x7F}, False
    yield 'no sense data', {i: 0 for i in range(oskit.SENSE_N)}, False
    yield 'descriptors that do not add up', {**SENSE_DESC, 7: 3, 8: 0, 9: 10}, None
    yield 'unknown sense code', {**SENSE_FIXED, 12: 0xE1, 13: 0x77}, True


@prop('E02', 100)
def e02(run):
    for pl in PLATFORMS:
        for sname, const, dec in sense_variants():
            for cname, fixed in check_condition_status(pl):
                for kind in ('read', 'write') if run.thorough or sname == 'fixed format' else ('read',):
                    cells = [const.get(i, P(Atom('wb', 'sense', i))) for i in range(oskit.SENSE_N)]

                    def judge(e, k, st, r, n):
                        what = '%s, %s' % (pl, sname)
                        o, v = r
                        if not run.ob('a check condition raises AsiCheckConditionError', what,
                                      o == 'raise' and exc_is(e, v, 'AsiCheckConditionError'), lambda: '%s %s (%s)' % (o, show(v), doms(e))):
                            return
                        sb = as_bv(v.attrs.get('sense_buffer'))
                        got = sb.cells() if sb is not None else None
                        run.ob("the error holds the device's sense bytes", what,
                               got is not None and len(got) >= oskit.SENSE_N and
                               all(eq_int(e, a, b) for a, b in zip(got, cells)),
                               lambda: 'sense_buffer is %s, the device returned %r' % (show(v.attrs.get('sense_buffer')), BytesV([cells])))
                        so = v.attrs.get('sense_obj')
                        if dec is True:
                            run.ob('decodable sense data is decoded', what, isinstance(so, Obj), lambda: 'sense_obj is %s' % show(so))
                        elif dec is False:
                            run.ob('undecodable sense data has no decoded object', what, so is None, lambda: 'sense_obj is %s' % show(so))
                    completions(run, pl, kind, 'n', judge, tag=sname, sense=lambda e: cells, fixed=fixed)
        two_check_conditions(run, pl)


def two_check_conditions(run, pl):
    """two commands outstanding at once both fail: each error carries the sense data of its own command"""
    e = engine_for(run, pl)
    what = pl + ', two commands outstanding'
    cc = {'linux': {'status': 2}, 'solaris': {'status': 2}, 'aix': {'status_validity': 1, 'scsi_bus_status': 2}, 'windows': {'ScsiStatus': 2}}[pl.split('_')[0]]

    def path():
        k = Kernel(e, pl)
        x = k.make(max_queue_size=2)
        k.early = pl == 'linux' and bool(e.choose(2, 'when the device is done'))
        got = {}
        m = e.run_source('def cb(i):\n    def f(data, exception):\n        note(i, data, exception)\n    return f\n', 'cb',
                         {'note': Native('note', lambda e_, a, kw: got.setdefault(a[0], []).append(a[2]))})
        sense = [[SENSE_FIXED.get(i, P(Atom('wb', 'sense%d' % j, i))) for i in range(oskit.SENSE_N)] for j in range(2)]

        def respond(ex):
            i = next(j for j, y in enumerate(k.exchanges) if y is ex)
            k.put_sense(ex, sense[i])
            k.set(ex, **cc)
        k.respond = respond
        try:
            for i in range(2):
                cmd, _, _ = command(e, 'read', 10, e.fresh('n%d' % i, 1, 1 << 20))
                e.drive(e.call_method(x, 'send', [cmd, e.call(m.ns['cb'], [i])]))
            if pl == 'linux' and e.choose(2, 'order of responses'):
                k.queue.reverse()
            e.drive(e.call_method(x, 'wait', []))
        except PyRaise as p:
            run.ob('failing commands complete', what, False, lambda: 'wait() raises %s' % show(p))
            return
        for i in range(2):
            err = got.get(i, [None])[0]
            ok = isinstance(err, Obj) and exc_is(e, err, 'AsiCheckConditionError')
            sb = as_bv(err.attrs.get('sense_buffer')) if ok else None
            cells = sb.cells() if sb is not None else None
            run.ob("each error holds the sense bytes of its own command", what, cells is not None and len(cells) >= oskit.SENSE_N and
                   all(eq_int(e, a, b) for a, b in zip(cells, sense[i])), lambda: 'command %d: %s' % (i, show(err)))
    run.explore(e, path, what)


@prop('E03', 150)
def e03(run):
    for pl in PLATFORMS:
        fam = pl.split('_')[0]
        for kind in ('read', 'write'):
            def judge(e, k, st, r, n):
                what = '%s %s' % (pl, kind)
                o, v = r
                if not failed(e, pl, st) or o != 'raise':
                    return
                run.ob('a failure of the device is an exception of the library', what, exc_is(e, v, 'AsiException'),
                       lambda: 'raises %s (%s)' % (show(v), doms(e)))
                if fam == 'linux':
                    s, d = st['status'], st['driver_status']
                    sense = e.truth(compare('!=', e.int_bin('&', s, 2), 0)) or e.truth(compare('!=', e.int_bin('&', d, 8), 0))
                    if sense:
                        return
                    if e.truth(compare('==', s, 0x18)) and not e.truth(compare('==', st['host_status'], 7)):
                        run.ob('a reservation conflict is AsiReservationConflictError', what, exc_is(e, v, 'AsiReservationConflictError'),
                               lambda: 'raises %s (%s)' % (show(v), doms(e)))
                    elif not e.truth(compare('==', s, 0x18)):
                        run.ob('nothing else is a reservation conflict', what, not exc_is(e, v, 'AsiReservationConflictError'),
                               lambda: 'raises %s (%s)' % (show(v), doms(e)))
                    run.ob('a failure without sense data is not a check condition', what, not exc_is(e, v, 'AsiCheckConditionError'),
                           lambda: 'raises %s (%s)' % (show(v), doms(e)))
                    if not e.truth(compare('==', st['host_status'], 7)):
                        run.ob('a failure of the device is an AsiSCSIError', what, exc_is(e, v, 'AsiSCSIError'),
                               lambda: 'raises %s (%s)' % (show(v), doms(e)))
                elif fam == 'aix':
                    run.ob('a failure of the device is an AsiSCSIError', what, exc_is(e, v, 'AsiSCSIError'),
                           lambda: 'raises %s (%s)' % (show(v), doms(e)))
                    if not e.truth(compare('==', st['status_validity'], 1)):
                        run.ob('a failure without a SCSI status is not a check condition', what, not exc_is(e, v, 'AsiCheckConditionError'),
                               lambda: 'raises %s (%s)' % (show(v), doms(e)))
                else:
                    run.ob('a failure of the device is an AsiSCSIError', what, exc_is(e, v, 'AsiSCSIError'),
                           lambda: 'raises %s (%s)' % (show(v), doms(e)))
                    sn = 'status' if fam == 'solaris' else 'ScsiStatus'
                    cc = e.truth(compare('!=', e.int_bin('&', st[sn], 2), 0))
                    if not cc:
                        run.ob('a failure without sense data is not a check condition', what, not exc_is(e, v, 'AsiCheckConditionError'),
                               lambda: 'raises %s (%s)' % (show(v), doms(e)))
            for tag, full in status_modes(run, pl):
                completions(run, pl, kind, 'n', judge, tag, fixed=lambda e: status_fields(e, pl, full))


@prop('E04', 60)
def e04(run):
    for pl in PLATFORMS:
        fam = pl.split('_')[0]
        for kind, size in (('read', 'n'), ('write', 'n'), ('read', 0)):
            what = '%s %s%s' % (pl, kind, '' if size else ' without data')
            e = engine_for(run, pl)
            run.unit('executers', pl)
            modes = ['submit'] + (['receive'] if pl == 'linux' else [])
            for mode in modes:
                def path():
                    k = Kernel(e, pl)
                    x = k.make()
                    cmd, _, _ = command(e, kind, 10, e.fresh('n', 1, 1 << 20) if size else 0)
                    st = {}
                    if fam in ('windows', 'aix'):
                        k.errno = e.fresh('errno', 1, 2 ** 32 - 1 if fam == 'windows' else 133)
                    if mode == 'submit':
                        k.fail_submit = True
                        if fam == 'aix':
                            def on_fail(x):
                                # the kernel may have filled in the header before failing
                                for n, v in (('einval_arg', e.fresh('einval', 0, 255)), ('status_validity', e.fresh('validity', 0, 255)),
                                             ('scsi_bus_status', e.fresh('status', 0, 255)), ('adapter_status', e.fresh('adapter', 0, 255) if kind == 'read' and size else 0)):
                                    st[n] = v
                                    x.put(n, v)
                            k.on_fail = on_fail
                    else:
                        k.fail_receive = True
                    r = call(e, x, cmd)
                    run.ob('the system call is made', what, bool(k.syscalls), 'no system call')
                    run.ob('a failing system call raises', '%s %s' % (what, mode), r[0] == 'raise' and
                           (exc_is(e, r[1], 'AsiException', 'OSError')),
                           lambda: '%s %s (%s)' % (r[0], show(r[1]), doms(e)))
                    if r[0] == 'raise' and fam == 'windows':
                        run.ob('the Windows error is reported', what, exc_is(e, r[1], 'AsiOSError') and
                               eq_int(e, r[1].attrs.get('win32_errno'), k.errno), lambda: show(r[1]))
                    elif r[0] == 'raise' and fam == 'aix':
                        if not e.truth(compare('==', st['status_validity'], 0)) and e.truth(compare('==', st['einval_arg'], 0)):
                            run.ob('a status the kernel reports is the error', what, exc_is(e, r[1], 'AsiSCSIError'),
                                   lambda: '%s (%s)' % (show(r[1]), doms(e)))
                        else:
                            run.ob('an AIX failure without status is AsiOSError', what, exc_is(e, r[1], 'AsiOSError'),
                                   lambda: '%s (%s)' % (show(r[1]), doms(e)))
                    elif r[0] == 'raise':
                        run.ob('the OS error itself reaches the caller', what, exc_is(e, r[1], 'OSError', 'AsiOSError'), lambda: show(r[1]))
                    # the queue is usable again
                    if mode == 'submit' and fam != 'aix':
                        k.fail_submit = False
                        k.respond = lambda x: k.fill_data(x) if kind == 'read' and size else None
                        cmd2, _, _ = command(e, 'write', 6, 0)
                        r2 = call(e, x, cmd2)
                        run.ob('the executer works after a failed submission', what, r2[0] == 'ok', lambda: show(r2[1]))
                run.explore(e, path, '%s %s' % (what, mode))
            # the outcome is what the kernel wrote: another completion on the same executer does not change it
            def path2():
                k = Kernel(e, pl)
                x = k.make()
                n = e.fresh('n', 1, 1 << 20) if size else 0
                seq = [e.choose(2, 'outcome %d' % i) for i in range(3)]
                for i, bad in enumerate(seq):
                    def respond(x):
                        if kind == 'read' and size:
                            k.fill_data(x, 'kdata%d' % i)
                        if bad:
                            f = {'linux': 'status', 'solaris': 'status', 'aix': 'scsi_bus_status', 'windows': 'ScsiStatus'}[fam]
                            x.put(f, 8)
                            if fam == 'aix':
                                x.put('status_validity', 1)
                    k.respond = respond
                    cmd, _, _ = command(e, kind, 10, n)
                    r = call(e, x, cmd)
                    ok = r[0] == ('raise' if bad else 'ok')
                    if ok and not bad and kind == 'read' and size:
                        ok = eq_bytes(e, r[1], BytesV([Opq('kdata%d' % i, 0, n)]))
                    run.ob('the outcome is what the kernel wrote for this command', what, ok,
                           lambda: 'command %d of outcomes %r: %s %s' % (i, seq, r[0], show(r[1])))
            run.explore(e, path2, what)
    win32_async(run)


def failed_submissions(run):
    """Q04 on the executers of the platforms: the commands submitted around a failing one complete with their own outcome"""
    for pl in PLATFORMS:
        e = engine_for(run, pl)
        what = pl
        run.unit('executers', pl)

        def path():
            k = Kernel(e, pl)
            x = k.make(max_queue_size=3)
            got, good = [], []
            m = e.run_source('def cb(i):\n    def f(data, exception):\n        note(i, data, exception)\n    return f\n', 'cb',
                             {'note': Native('note', lambda e_, a, kw: got.append(tuple(a)))})
            tag = {}

            def respond(ex):
                k.fill_data(ex, 'kdata%d' % tag[id(ex)])
            k.respond = respond
            begin = k.begin

            def counted(*a):
                ex = begin(*a)
                tag[id(ex)] = i
                return ex
            k.begin = counted
            seq = [e.choose(3, 'submission %d' % j) for j in range(3)]
            for i, s in enumerate(seq):
                k.fail_submit, k.interrupt = s == 1, s == 2
                cmd, _, _ = command(e, 'read', 10, 16)
                try:
                    e.drive(e.call_method(x, 'send', [cmd, e.call(m.ns['cb'], [i])]))
                    r = ('ok', None)
                    good.append(i)
                except PyRaise as p:
                    r = ('raise', p.exc)
                run.ob('a failed submission raises, another one does not', what, (r[0] == 'raise') == bool(s) and
                       (s != 2 or exc_is(e, r[1], 'KeyboardInterrupt')), lambda: 'submissions %r: %s %s' % (seq, r[0], show(r[1])))
            k.fail_submit = k.interrupt = False
            say = lambda: 'submissions %r (1 fails, 2 is interrupted): callbacks %r' % (seq, [g[0] for g in got])
            try:
                e.drive(e.call_method(x, 'wait', []))
            except PyRaise as p:
                run.ob('waiting after a failed submission completes the other commands', what, False, lambda: 'submissions %r: raises %s' % (seq, show(p)))
                return
            run.ob('waiting after a failed submission completes the other commands', what, sorted(g[0] for g in got) == good, say)
            for j, d, ex in got:
                run.ob('each command gets its own data', what, ex is None and eq_bytes(e, d, BytesV([Opq('kdata%d' % j, 0, 16)])),
                       lambda: 'submissions %r: command %d gets %s / %s' % (seq, j, show(d), show(ex)))
            i = 7
            cmd, _, _ = command(e, 'read', 10, 16)
            r = call(e, x, cmd)
            run.ob('the executer works after failed submissions', what, r[0] == 'ok' and eq_bytes(e, r[1], BytesV([Opq('kdata7', 0, 16)])),
                   lambda: 'submissions %r: %s %s' % (seq, r[0], show(r[1])))
        run.explore(e, path, what + ' failed submissions')


def win32_async(run):
    """overlapped I/O: pending, immediate and failing operations"""
    e = engine_for(run, 'windows')
    what = 'overlapped control call'

    def path():
        k = Kernel(e, 'windows')
        mode = e.choose(4, 'mode')
        h = e.handlers
        h['kernel32.CreateEventW'] = lambda e_, a, kw: 99
        h['kernel32.DeviceIoControl'] = lambda e_, a, kw: 1 if mode == 0 else 0
        h['kernel32.GetLastError'] = lambda e_, a, kw: 997 if mode in (1, 2) else 31
        got = []

        def gor(e_, a, kw):
            got.append(a)
            return 1 if mode == 1 else 0
        h['kernel32.GetOverlappedResult'] = gor
        try:
            f = e.call(load_attr(e, 'infi.asi.win32', 'Win32AsyncFile'), ['path'])
            sw = load_attr(e, 'infi.asi.coroutines.sync_adapter', 'sync_wait')
            buf = e.call(load_attr(e, 'ctypes', 'create_string_buffer'), [16])
            g = e.call_method(f, 'ioctl', [5, buf, 16, buf, 16])
            v = e.call(sw, [g])
            r = ('ok', v)
        except PyRaise as x:
            r = ('raise', x.exc)
        if mode in (0, 1):
            run.ob('an overlapped operation that succeeds does not raise', what, r[0] == 'ok', lambda: show(r[1]))
            run.ob('a pending operation is waited for', what, bool(got) == (mode == 1), 'GetOverlappedResult called %d times' % len(got))
        else:
            run.ob('an overlapped operation that fails raises', what, r[0] == 'raise' and exc_is(e, r[1], 'AsiOSError'),
                   lambda: '%s %s' % (r[0], show(r[1])))
    try:
        run.explore(e, path, what)
    finally:
        e.handlers.pop('kernel32.CreateEventW', None)


def linux_unknown(run):
    """Q05 on the Linux executer: a response header with a foreign pack_id"""
    e = engine_for(run, 'linux')
    what = 'linux'

    def path():
        k = Kernel(e, 'linux')
        x = k.make()
        n = e.choose(3, 'outstanding')
        got = []
        m = e.run_source('def cb(i):\n    def f(data, exception):\n        note(i, data, exception)\n    return f\n', 'cb',
                         {'note': Native('note', lambda e_, a, kw: got.append(tuple(a)))})
        for i in range(n + 1):
            cmd, _, _ = command(e, ('read', 'write')[i % 2], 10, e.fresh('n%d' % i, 1, 4096))
            e.drive(e.call_method(x, 'send', [cmd, e.call(m.ns['cb'], [i])]))
        bad = e.choose(2, 'status')
        state = {'first': True}

        def respond(ex):
            if state['first']:
                state['first'] = False
                ids = [y.snapshot['pack_id'] for y in k.exchanges]
                off, size, _ = k.fields['pack_id']
                k.write(ex.cd, off, [P(Atom('wb', 'pid', i)) for i in range(size)])
                for i in ids:
                    if e.truth(compare('==', ex.field('pack_id'), i)):
                        raise PathEnd('not foreign')
                if bad:
                    ex.put('status', 8)
        k.respond = respond
        try:
            e.drive(e.call_method(x, 'wait', []))
            r = ('ok', None)
        except PyRaise as p:
            r = ('raise', p.exc)
        run.ob('an unknown response is an internal error', what, r[0] == 'raise' and exc_is(e, r[1], 'AsiInternalError'),
               lambda: '%s %s %s' % (r[0], show(r[1]),doms(e)))
        run.ob('an unknown response completes nothing', what, not got, lambda: 'callbacks %r %s %s' % (got, [y.snapshot['pack_id'] for y in k.exchanges], doms(e)))
    run.explore(e, path, what)


@prop('Q05', 200)
def q05(run):
    histories(run, (1, 2), T(run, 4, 5), 'SsCU', ('data',))
    histories(run, (3,), T(run, 4, 5), 'SCU', ('data',))
    histories(run, (2,), 3, 'SCU', ('data',), executers=2)
    linux_unknown(run)


def text_of(e, x):
    """('ok', str) or ('raise', exception)"""
    try:
        m = e.run_source('def text(x):\n    return str(x), repr(x)\n', 'text', {})
        return ('ok',) + tuple(e.call(m.ns['text'], [x]))
    except PyRaise as p:
        return 'raise', p.exc, None


def has_text(s):
    if isinstance(s, str):
        return s != ''
    return isinstance(s, StrV) and any(not isinstance(p, str) or p for p in s.parts)


def mentions_hex(s, cells):
    """does the text contain the hex dump of these bytes"""
    for p in (s.parts if isinstance(s, StrV) else [s]):
        if 'hexlify' in str(p) and repr(BytesV([cells])) in str(p):
            return True
    return False


def printable(run, e, rule, what, x, key=None):
    t = text_of(e, x)
    return run.ob(rule, what, t[0] == 'ok' and has_text(t[1]) and has_text(t[2]),
                  lambda: '%s: %s %s' % (show(x), t[0], show(t[1])), key=key)


@prop('E06', 2000)
def e06(run):
    # every exception class of the library
    for pl, mods in (('linux', ('infi.asi.errors', 'infi.asi.cdb.rtpg', 'infi.asi.cdb.report_luns')), ('aix', ('infi.asi.aix',)),
                     ('windows', ('infi.asi.win32',)), ('solaris', ('infi.asi.solaris',))):
        e = engine_for(run, pl)
        for mn in mods:
            load_attr(e, mn, '__name__')
        base = load_attr(e, 'infi.asi.errors', 'AsiException')
        for mn in mods:
            m = e.load(mn)
            for name, k in sorted(m.ns.items()):
                if not isinstance(k, Cls) or base not in k.mro:
                    continue
                run.unit('error classes', name)

                def path():
                    sense = BytesV([[P(Atom('wb', 'sense', i)) for i in range(24)]])
                    args = {'AsiCheckConditionError': [sense, None], 'AsiRequestQueueFullError': [],
                            'AsiReservationConflictError': [], 'AsiWin32OSError': [e.fresh('errno', 0, 2 ** 32 - 1), 'what failed'],
                            'AixAsiSCSIError': None,
                            'UnsupportedLunAdressing': [e.fresh('lun', 0, 2 ** 64 - 1)],
                            'UnsupportedLogicalUnitAddressingMethod': [e.fresh('lun', 0, 2 ** 64 - 1)]}.get(name, ['what failed'])
                    if args is None:
                        return          # built from a completed request below
                    k_ = Kernel(e, 'windows') if pl == 'windows' else None
                    try:
                        x = e.call(k, list(args))
                    except PyRaise as p:
                        run.ob('an error can be constructed', name, False, show(p.exc))
                        return
                    run.ob('an error can be constructed', name, True)
                    printable(run, e, 'an error can be converted to text', name, x)
                run.explore(e, path, name)
    # check conditions: any sense data in every format
    e = engine_for(run, 'linux')
    load_attr(e, 'infi.asi.sense', 'get_sense_object_from_buffer')
    shapes = [('fixed', {0: 0x70}), ('descriptor', {0: 0x72, 7: 0}), ('descriptor with information', {0: 0x73, 7: 12, 8: 0, 9: 10}),
              ('descriptor of another type', {0: 0x72, 7: 6, 8: 3, 9: 4}), ('descriptors that do not add up', {0: 0x72, 7: 3, 8: 9, 9: 10}),
              ('any response code', {7: 0, 12: 0x29, 13: 0})]
    for name, const in shapes:
        for size in (24, 18) if not name.startswith('descriptor ') else (24,):
            def path():
                cells = [const.get(i, P(Atom('wb', 'sense', i))) for i in range(size)]
                # the text of every code is decided by R09; here an assigned, a ranged and an unassigned one
                at = 12 if const.get(0) == 0x70 else 2
                cells[at:at + 2] = [(0x29, 0), (0xE1, 0x77), (0x40, 0xFF)][e.choose(3, 'code')]
                buf = BytesV([cells])
                x = e.call(load_attr(e, 'infi.asi', 'CommandExecuterBase'))
                try:
                    err = e.call_method(x, '_check_condition', [buf])
                except PyRaise as p:
                    run.ob('a check condition error can be built from any sense data', '%s, %d bytes' % (name, size), False,
                           '%s (%s)' % (show(p.exc), doms(e)))
                    return
                run.ob('a check condition error can be built from any sense data', '%s, %d bytes' % (name, size),
                       exc_is(e, err, 'AsiCheckConditionError'), lambda: show(err))
                if printable(run, e, 'a check condition error can be converted to text', '%s, %d bytes' % (name, size), err) and size:
                    t = text_of(e, err)
                    run.ob('the text of a check condition shows the sense bytes', '%s, %d bytes' % (name, size), mentions_hex(t[1], cells),
                           lambda: show(t[1]))
            run.explore(e, path, 'sense %s %d' % (name, size))
    # what the executers raise
    for pl in PLATFORMS:
        for tag, full in status_modes(run, pl):
            def judge(e, k, st, r, n):
                if r[0] == 'raise':
                    printable(run, e, 'the error of a failed command can be converted to text', pl, r[1])
            completions(run, pl, 'read', 'n', judge, tag, fixed=lambda e: status_fields(e, pl, full))


# ---------------------------------------------------------------------------------------------------- E07
def status_cases(pl):
    """(status fields the kernel writes, [(value, names)] the text of the error must show)"""
    from spec import codes
    T = codes.STATUS
    scsi, host, drv, adap, einval = (T[n] for n in ('SCSI_STATUS_CODES', 'HOST_STATUS_CODES', 'DRIVER_STATUS_CODES', 'ADAPTER_STATUS_CODES', 'EINVAL_CODES'))
    f = pl.split('_')[0]
    plain = [s for s in (4, 8, 0x10, 0x28, 0x30, 0x40, 0x18, 0x2c, 0xfc) if not s & 2]
    if f == 'linux':
        for s in plain:
            if s != 0x18:
                for h in (0, 1, 3, 0xb, 0x11):
                    for d in (0, 1, 6, 0x10, 0x24):
                        yield ([('status', s), ('host_status', h), ('driver_status', d)],
                               [(s, scsi.get(s))] + ([(h, host.get(h))] if h else []) + ([(d & 15, drv.get(d & 15))] if d & 15 else []))
        for d in list(range(1, 8)) + [0x16, 0x41]:
            for h in (0, 1, 5, 0x10):
                yield [('status', 0), ('host_status', h), ('driver_status', d)], [(d & 15, drv.get(d & 15))] + ([(h, host.get(h))] if h else [])
        for h in list(range(1, 20)) + [0xff, 0x100, 0xffff]:
            yield [('status', 0), ('host_status', h), ('driver_status', 0)], [(h, host.get(h))]
    elif f == 'solaris':
        for s in plain:
            for r in (0, 1, 7, 0x2a):
                yield [('status', s), ('reason', r), ('rqstatus', 0)], [(s, None)] + ([(r, None)] if r else [])
        for q in (1, 2, 8, 0x41):
            yield [('status', 0), ('reason', 0), ('rqstatus', q)], [(q, None)]
    elif f == 'aix':
        for s in (4, 8, 0x18):
            yield [('status_validity', 1), ('scsi_bus_status', s), ('adapter_status', 0)], [(s, scsi.get(s))]
        for a in list(range(1, 0x12)) + [0x80]:
            yield [('status_validity', 2), ('scsi_bus_status', 0), ('adapter_status', a)], [(a, adap.get(a))]
    else:
        for s in plain:
            yield [('ScsiStatus', s)], [(s, None)]


def shows(t, v):
    """is the number v written in the text (decimal or hexadecimal)"""
    import re
    for w in re.findall(r'[0-9A-Za-z_]+', t):
        w = w.lower()
        if w.startswith('0x'):
            if int(w, 16) == v:
                return True
        elif w.isdigit() and (int(w) == v or int(w, 16) == v):
            return True
        elif re.fullmatch(r'[0-9a-f]+h?', w) and int(w.rstrip('h'), 16) == v:
            return True
    return False


@prop('E07', 900)
def e07(run):
    for pl in PLATFORMS:
        for fields, must in status_cases(pl):
            what = '%s: %s' % (pl, ', '.join('%s=%#x' % x for x in fields))

            def judge(e, k, st, r, n):
                if not run.ob('a failed command raises', what, r[0] == 'raise', lambda: show(r[1])):
                    return
                t = text_of(e, r[1])
                s = t[1] if t[0] == 'ok' else None
                if not run.ob('the error has a text', what, isinstance(s, str), lambda: show(s)):
                    return
                for v, name in must:
                    run.ob('the text shows the status the device returned', '%s, %#x' % (what, v), shows(s, v), lambda: repr(s))
                    if name:
                        run.ob('the text names the status the device returned', '%s, %#x' % (what, v), name in s, lambda: repr(s))
            completions(run, pl, 'read', 'n', judge, what, fixed=lambda e: fields)
