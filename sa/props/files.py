"""X01..X04: device files and what surrounds the executers."""
from ..core import *
from ..core import Broken
from ..num import compare
from .. import lib_ctypes as lc
from ..oskit import Kernel, command, call, engine_for, PLATFORMS
from .coro import attempt

CONTEXTS = {'linux_sg': ('linux', 'linux'), 'linux_dm': ('linux', 'linux_ioctl'), 'solaris': ('solaris', 'solaris'),
            'aix': ('aix', 'aix'), 'windows': ('windows', 'windows')}
PLATFORM_STRING = {'linux': 'linux-redhat-7-x64', 'solaris': 'solaris-11-sparc', 'aix': 'aix-7.1-powerpc', 'windows': 'windows-x64'}
CLASSES = {'linux_sg': ('infi.asi.linux', 'LinuxCommandExecuter'), 'linux_dm': ('infi.asi.linux', 'LinuxIoctlCommandExecuter'),
           'solaris': ('infi.asi.solaris', 'SolarisCommandExecuter'), 'aix': ('infi.asi.aix', 'AixCommandExecuter'),
           'windows': ('infi.asi.win32', 'Win32CommandExecuter')}


class Files(object):
    """descriptors and handles: what is opened, used and closed"""

    def __init__(self, e, fail_open=False, fail_close=False, after=70):
        self.e, self.log, self.n = e, [], after
        self.fail_open, self.fail_close = fail_open, fail_close
        self.opened, self.closed = [], []
        self.opens = []
        h = e.handlers
        h['os.open'] = self.os_open
        h['os.close'] = self.os_close
        h['kernel32.CreateFileW'] = self.create_file
        h['kernel32.CloseHandle'] = self.close_handle
        h['kernel32.FormatMessageA'] = lambda e_, a, k: 0
        h['kernel32.GetLastError'] = lambda e_, a, k: e_.fresh('last error', 1, 2 ** 32 - 1)

    def new(self, args):
        self.n += 1
        self.opened.append(self.n)
        self.opens.append(args)
        return self.n

    def os_open(self, e, a, k):
        args = list(a) + [k[x] for x in ('flags', 'mode') if x in k]
        if self.fail_open:
            e.os_error('Permission denied')
        return self.new(args)

    def os_close(self, e, a, k):
        self.closed.append(self.plain(a[0]))
        if self.fail_close:
            e.os_error('Input/output error')
        return None

    def create_file(self, e, a, k):
        if self.fail_open:
            return -1
        return self.new(list(a))

    def close_handle(self, e, a, k):
        self.closed.append(self.plain(a[0]))
        return 0 if self.fail_close else 1

    def plain(self, h):
        if isinstance(h, Obj) and isinstance(h.payload, lc.CData):
            h = lc.read_simple(self.e, lc.ct(h.cls), h.payload)
        return h


def platform_engine(run, fam):
    e = engine_for(run, fam)
    e.opts['platform_string'] = PLATFORM_STRING[fam]
    for m in ('infi.asi.executers', 'infi.asi.errors'):
        try:
            e.load(m)
        except PyRaise as x:
            raise Broken('module %s does not load on %s: %s' % (m, fam, show(x)))
    return e


WITH = '''
class Mine(Exception):
    pass

def scope(ctx, path, body):
    with ctx(path) as executer:
        note('entered', executer)
        body(executer)
        note('leaving', executer)
    return 'done'

def early(ctx, path, body):
    for i in range(3):
        with ctx(path) as executer:
            note('entered', executer)
            body(executer)
            break
    return 'done'

def failing_init(self, *args, **kwargs):
    raise X
'''


# ---------------------------------------------------------------------------------------------------- X01
@prop('X01', 100)
def x01(run):
    for name, (fam, pl) in CONTEXTS.items():
        e = platform_engine(run, fam)
        ctx = load_attr(e, 'infi.asi.executers', name)
        cls = load_attr(e, *CLASSES[name])
        run.unit('contexts', name)
        for form in ('scope', 'early'):
            for fault in ('none', 'open', 'executer', 'body', 'body interrupted', 'command', 'close'):
                what = '%s, %s, fault: %s' % (name, form, fault)

                def path():
                    k = Kernel(e, pl)
                    # a process without standard streams is given descriptor 0
                    low = fam != 'windows' and fault in ('none', 'body') and e.choose(2, 'descriptor 0')
                    fs = Files(e, fault == 'open', fault == 'close', -1 if low else 70)
                    log = []
                    X = e.call(e.exc['KeyboardInterrupt' if fault == 'body interrupted' else 'MemoryError'], ['why'])

                    def note(e_, a, kw):
                        log.append(a[0])
                        run.ob('the device is open while the body runs', what, len(fs.opened) == 1 and not fs.closed,
                               lambda: 'opened %r, closed %r' % (fs.opened, fs.closed))

                    def body(e_, a, kw):
                        x = a[0]
                        k.executer = x
                        if fault in ('body', 'body interrupted'):
                            raise PyRaise(X, '')
                        if fault == 'command':
                            k.fail_submit = True
                        cmd, _, _ = command(e, 'read', 10, 16)
                        k.respond = lambda ex: k.fill_data(ex)
                        r = call(e, x, cmd)
                        if fault == 'command':
                            if r[0] == 'raise':
                                raise PyRaise(r[1], '')
                            return
                        run.ob('the executer works on the opened device', what, r[0] == 'ok' and len(k.exchanges) == 1 and
                               fs.opened == [fs.plain(k.code_fd)], lambda: '%s %s on %r, opened %r' % (r[0], show(r[1]), getattr(k, 'code_fd', None), fs.opened))
                    m = e.run_source(WITH, 'with', {'note': Native('note', note), 'X': X})
                    if fault == 'executer':
                        e.touch(cls.ns)
                        cls.ns['__init__'] = m.ns['failing_init']
                    r = attempt(e, lambda: e.call(m.ns[form], [ctx, '/dev/sg7', Native('body', body)]))
                    if fault == 'open':
                        run.ob('a failure to open the device is raised', what, r[0] == 'raise' and exc_is(e, r[1], 'OSError', 'AsiOSError'), lambda: '%s %s' % (r[0], show(r[1])))
                        run.ob('nothing is closed that was not opened', what, not fs.closed, lambda: 'closed %r' % (fs.closed,))
                        run.ob('the body does not run without a device', what, not log, lambda: repr(log))
                        return
                    run.ob('the device is opened once', what, len(fs.opened) == 1, lambda: 'opened %r' % (fs.opened,))
                    run.ob('the device is closed exactly once', what, fs.closed == fs.opened, lambda: 'opened %r, closed %r' % (fs.opened, fs.closed))
                    if fault == 'none':
                        run.ob('the body runs once', what, log == ['entered'] + (['leaving'] if form == 'scope' else []) and r == ('ok', 'done'),
                               lambda: '%r, %s %s' % (log, r[0], show(r[1])))
                    elif fault == 'close':
                        run.ob('a failure to close is raised', what, r[0] == 'raise' and exc_is(e, r[1], 'OSError', 'AsiOSError'), lambda: '%s %s' % (r[0], show(r[1])))
                    elif fault == 'command':
                        run.ob('the error of the command reaches the caller', what, r[0] == 'raise' and exc_is(e, r[1], 'OSError', 'AsiException'), lambda: '%s %s' % (r[0], show(r[1])))
                    else:
                        run.ob('the error reaches the caller', what, r[0] == 'raise' and r[1] is X, lambda: '%s %s' % (r[0], show(r[1])))
                        if fault == 'executer':
                            run.ob('the body does not run without an executer', what, not log, lambda: repr(log))
                run.explore(e, path, what)


# ---------------------------------------------------------------------------------------------------- X02
class Clock(object):
    """time, readiness of one descriptor, and its transfers; late: how much longer than asked the system sleeps"""

    def __init__(self, e, run, what, ready_after, late=0.0, select_error=False, read_error=False):
        self.e, self.run, self.what = e, run, what
        self.now, self.ready_after, self.late = 1000.0, ready_after, late
        self.select_error, self.read_error = select_error, read_error
        self.polls = self.reads = self.naps = 0
        self.blocked = self.exceptional = False
        h = e.handlers
        h['select.select'] = self.select
        h['time.time'] = lambda e_, a, k: self.now
        h['time.monotonic'] = lambda e_, a, k: self.now
        h['time.sleep'] = self.sleep
        h['os.read'] = self.read
        self.data = BytesV([Opq('arrived', 0, e.fresh('got', 0, 4096))])

    def ready(self):
        return self.ready_after is not None and self.now >= 1000.0 + self.ready_after

    def sleep(self, e, a, k):
        self.run.ob('sleeps are short', self.what, isinstance(a[0], (int, float)) and 0 < a[0] <= 1, lambda: show(a[0]))
        self.naps += 1
        self.now += a[0] + self.late
        return None

    def select(self, e, a, k):
        r, w, x = a[:3]
        t = a[3] if len(a) > 3 else k.get('timeout')
        self.polls += 1
        self.run.ob('the own descriptor is polled for reading', self.what, [self.fd_of(f) for f in r] == [77] and not w, lambda: show(a))
        if self.select_error:
            e.os_error('Bad file descriptor')
        if not self.ready():
            if t is None:
                self.blocked = True
                self.run.ob('waiting is bounded', self.what, False, 'select without a timeout')
                raise PathEnd('blocks')
            if self.ready_after is not None and self.now + t >= 1000.0 + self.ready_after:
                self.now = 1000.0 + self.ready_after
            else:
                self.now += t
        if x and not self.ready() and not self.exceptional:
            self.exceptional = True       # an exceptional condition is no data
            return [], [], list(x)
        return ([r[0]], [], []) if self.ready() else ([], [], [])

    def fd_of(self, f):
        return self.e.call_method(f, 'fileno', []) if isinstance(f, Obj) else f

    def read(self, e, a, k):
        self.reads += 1
        self.run.ob('nothing is read before the descriptor is ready', self.what, self.ready(), 'os.read would block')
        self.args = a
        if self.read_error:
            e.os_error('Input/output error')
        return self.data


@prop('X02', 60)
def x02(run):
    e = engine_for(run, 'linux')
    Kernel(e, 'linux')
    ucls = load_attr(e, 'infi.asi.unix', 'UnixFile')
    for limit in (None, 1, 2, 0.5, 0, 0.02) + ((10,) if run.thorough else ()):
        eff = 60 if limit is None else limit
        lates = (0.5,) if limit is None else (0.0, 0.3, 2.0)
        for late in lates:
            for after in (0, 0.005, eff / 2.0) + ((eff - 0.05,) if eff > 0.05 else ()) + (None,):
                for fault in ('none', 'select', 'read'):
                    if fault == 'read' and after is None:
                        continue
                    what = 'read, %s, ready after %s, timeout %s, sleeps %s late' % (fault, after, 'default' if limit is None else limit, late)
                    run.unit('situations', what)

                    def path():
                        # the file is opened, and used once, long before
                        Clock(e, run, what, 0).now = 5.0
                        e.handlers['time.time'] = e.handlers['time.monotonic'] = lambda e_, a, k: 5.0
                        f = e.call(ucls, [77] if limit is None else [77, limit])
                        if e.choose(2, 'used before'):
                            e.handlers['select.select'] = lambda e_, a, k: ([a[0][0]], [], [])
                            e.handlers['os.read'] = lambda e_, a, k: b''
                            attempt(e, lambda: e.call_method(f, 'read', [16]))
                        c = Clock(e, run, what, after, late, fault == 'select', fault == 'read')
                        size = e.fresh('size', 0, 1 << 20)
                        r = attempt(e, lambda: e.call_method(f, 'read', [size]))
                        took = c.now - 1000.0
                        say = lambda: '%s %s after %s seconds, %d polls' % (r[0], show(r[1]), took, c.polls)
                        if fault != 'none':
                            run.ob('an error of the operating system is raised', what, r[0] == 'raise' and exc_is(e, r[1], 'OSError'), say)
                            return
                        if after is None:
                            run.ob('a device that never answers is reported', what, r[0] == 'raise' and exc_is(e, r[1], 'OSError') and not c.reads, say)
                            run.ob('the timeout is honoured', what, took >= eff * 0.99 and took <= eff + 0.3 + late, say)
                            run.ob('waiting does not spin', what, c.naps or c.polls < 1000, say)
                            return
                        if after + late + 0.05 < eff:
                            run.ob('data that arrives in time is returned', what, r[0] == 'ok' and r[1] is c.data or
                                   r[0] == 'ok' and eq_bytes(e, r[1], c.data), say)
                        if r[0] == 'ok':
                            run.ob('exactly one read of the asked size on the own descriptor', what, c.reads == 1 and c.args[0] == 77 and
                                   eq_int(e, c.args[1], size), lambda: '%d reads, %s' % (c.reads, show(c.args)))
                    run.explore(e, path, what)
    for fault in ('none', 'short', 'error'):
        what = 'write, %s' % fault

        def path():
            n = e.fresh('n', 0, 1 << 20)
            b = BytesV([Opq('wdata', 0, n)])
            calls, part = [], [None]

            def write(e_, a, k):
                calls.append(tuple(a))
                if len(calls) > 1:
                    run.ob("the caller's bytes are written once to the own descriptor", what, False, 'a second write with %s' % show(a[1]))
                    raise PathEnd('written twice')
                if fault == 'error':
                    e.os_error('Input/output error')
                if fault == 'short':
                    part[0] = e.fresh('part', 0, 1 << 20)
                    e.assume(compare('<', part[0], n), True)
                    return part[0]
                return n
            e.handlers['os.write'] = write
            f = e.call(ucls, [77])
            r = attempt(e, lambda: e.call_method(f, 'write', [b]))
            run.ob("the caller's bytes are written once to the own descriptor", what, len(calls) == 1 and calls[0][0] == 77 and eq_bytes(e, calls[0][1], b),
                       lambda: show(calls))
            if fault == 'error':
                run.ob('an error of the operating system is raised', what, r[0] == 'raise' and exc_is(e, r[1], 'OSError'), lambda: '%s %s' % (r[0], show(r[1])))
            else:
                run.ob('the number of bytes written is returned', what, r[0] == 'ok' and isinstance(r[1], (int, Poly)) and
                       eq_int(e, r[1], part[0] if fault == 'short' else n), lambda: '%s %s' % (r[0], show(r[1])))
        run.unit('situations', what)
        run.explore(e, path, what)
    for fault in ('none', 'error'):
        what = 'close, %s' % fault

        def path2():
            fs = Files(e, False, fault == 'error')
            fd = (77, 0, 2, 1023)[e.choose(4, 'descriptor')]
            f = e.call(ucls, [fd])
            r = attempt(e, lambda: e.call_method(f, 'close', []))
            run.ob('the own descriptor is closed once', what, fs.closed == [fd], lambda: repr(fs.closed))
            run.ob('an error of the operating system is raised' if fault == 'error' else 'closing succeeds', what,
                   r[0] == 'raise' and exc_is(e, r[1], 'OSError') if fault == 'error' else r[0] == 'ok', lambda: '%s %s' % (r[0], show(r[1])))
        run.unit('situations', what)
        run.explore(e, path2, what)


# ---------------------------------------------------------------------------------------------------- X03
STRINGS = {'linux': ('linux-redhat-7-x64', 'linux-ubuntu-focal-x64', 'linux'), 'windows': ('windows-x64', 'windows', 'windows-x86'),
           'solaris': ('solaris-11-sparc', 'solaris-10-x64', 'solaris'), 'aix': ('aix-7.1-powerpc', 'aix')}
DEVICES = {'linux': ('/dev/sg7', '/dev/mapper/mpatha', '/dev/sda', 'sg0'), 'windows': ('/dev/sg7', '\\\\.\\PHYSICALDRIVE3', '\\\\.\\scsi2:'),
           'solaris': ('/dev/sg7', '/dev/rdsk/c0t0d0s2', '/devices/pci@0/scsi@1/sd@0,0:a,raw', '/dev/es/ses0'), 'aix': ('/dev/sg7', '/dev/rhdisk4', '/dev/hdisk4')}
OTHERS = ('osx-10.9', 'darwin', 'freebsd-12', 'hpux-11', 'linuxish-1', 'win-1', '', 'cygwin-x64', 'Linux-1', 'sunos-5')


@prop('X03', 100)
def x03(run):
    O_ACC, O_CREAT, O_EXCL, O_TRUNC, O_APPEND, O_NONBLOCK = 3, 0o100, 0o200, 0o1000, 0o2000, 0o4000
    for fam, strings in STRINGS.items():
        e = platform_engine(run, fam)
        pl = fam
        mk = {n: load_attr(e, 'infi.asi', n) for n in ('create_platform_command_executer', 'create_os_file', 'create_async_os_file', 'create_os_async_reactor')}
        for s in strings:
            run.unit('platforms', s)
            what = s

            def path():
                e.opts['platform_string'] = s
                k = Kernel(e, pl)
                fs = Files(e)
                dev = DEVICES[pl][e.choose(len(DEVICES[pl]), 'device')]
                r = attempt(e, lambda: e.call(mk['create_os_file'], [dev]))
                if not run.ob('a device file is opened', what, r[0] == 'ok' and len(fs.opens) == 1, lambda: '%s %s' % (r[0], show(r[1]))):
                    return
                f = r[1]
                a = fs.opens[0]
                if fam == 'windows':
                    windows_open(run, what, a, False, dev)
                else:
                    ok = len(a) >= 2 and a[0] == dev and isinstance(a[1], int)
                    if run.ob('the device given is opened', what, ok, lambda: show(a)):
                        run.ob('the device is opened for reading and writing', what, a[1] & O_ACC == 2, lambda: 'flags %#o' % a[1])
                        run.ob('the device is opened as it is', what, not a[1] & (O_CREAT | O_EXCL | O_TRUNC | O_APPEND), lambda: 'flags %#o' % a[1])
                        if fam == 'solaris':
                            run.ob('opening does not wait for the medium', what, bool(a[1] & O_NONBLOCK), lambda: 'flags %#o' % a[1])
                r = attempt(e, lambda: e.call(mk['create_platform_command_executer'], [f], {'max_queue_size': 1}))
                if not run.ob('an executer is created', what, r[0] == 'ok', lambda: '%s %s' % (r[0], show(r[1]))):
                    return
                x = k.executer = r[1]
                cmd, cdb, _ = command(e, 'read', 10, e.fresh('n', 1, 4096))
                seen = []

                def respond(ex):
                    seen.append(ex)
                    k.fill_data(ex)
                k.respond = respond
                r = call(e, x, cmd)
                ok = r[0] == 'ok' and len(seen) == 1 and fs.opened == [fs.plain(k.code_fd)] and isinstance(r[1], BytesV) and \
                    all(isinstance(g, Opq) and g.src == 'kdata' for g in r[1].segs)
                run.ob('the executer speaks the interface of the platform on this device', what, ok, lambda: '%s %s' % (r[0], show(r[1])))
                for size in (0, 2):
                    r = attempt(e, lambda: e.call(mk['create_platform_command_executer'], [f], {'max_queue_size': size}))
                    full = e.call_method(r[1], 'is_queue_full', []) if r[0] == 'ok' else None
                    run.ob('options reach the executer', what, r[0] == 'ok' and e.truth(full) == (size == 0), lambda: '%s %s' % (r[0], show(r[1])))
                e.opts['platform_string'] = STRINGS[fam][0]
                r = attempt(e, lambda: e.call_method(f, 'close', []))
                run.ob('closing the file closes the descriptor', what, r[0] == 'ok' and fs.closed == fs.opened, lambda: '%s %s, closed %r' % (r[0], show(r[1]), fs.closed))
            run.explore(e, path, what)

            def path2():
                e.opts['platform_string'] = s
                Kernel(e, pl)
                fs = Files(e)
                dev = DEVICES[pl][e.choose(len(DEVICES[pl]), 'device')]
                r = attempt(e, lambda: e.call(mk['create_async_os_file'], [dev]))
                q = attempt(e, lambda: e.call(mk['create_os_async_reactor'], []))
                if fam == 'windows':
                    if run.ob('an asynchronous file is opened', what, r[0] == 'ok' and len(fs.opens) == 1, lambda: '%s %s' % (r[0], show(r[1]))):
                        windows_open(run, what, fs.opens[0], True, dev)
                    base = load_attr(e, 'infi.asi', 'OSAsyncReactor')
                    run.ob('a reactor is created', what, q[0] == 'ok' and isinstance(q[1], Obj) and q[1].cls.issub(base), lambda: '%s %s' % (q[0], show(q[1])))
                    return
                for z, n in ((r, 'file'), (q, 'reactor')):
                    run.ob('asynchronous access is refused where there is none', '%s, %s' % (what, n), z[0] == 'raise' and exc_is(e, z[1], 'AsiException'),
                           lambda: '%s %s' % (z[0], show(z[1])))
                run.ob('nothing is left open', what, not fs.opened, lambda: repr(fs.opened))
            run.explore(e, path2, what + ' async')
    e = platform_engine(run, 'windows')
    for name, overlapped in (('Win32File', 0), ('Win32AsyncFile', 0x40000000)):
        what = '%s with options' % name
        run.unit('platforms', what)

        def path4():
            Kernel(e, 'windows')
            fs = Files(e)
            want = [e.fresh('access', 0, (1 << 32) - 1), e.fresh('share', 0, 7), e.fresh('disposition', 1, 5)]
            flags = (0, 0x80, 0x20000000, 0x60000000, 0xa0000080)[e.choose(5, 'flags')]
            if overlapped == 0:
                flags &= ~0x40000000
            r = attempt(e, lambda: e.call(load_attr(e, 'infi.asi.win32', name), ['\\\\.\\PHYSICALDRIVE3'] + want + [flags]))
            a = fs.opens[0] if fs.opens else []
            ok = r[0] == 'ok' and len(fs.opens) == 1 and len(a) == 7 and all(eq_int(e, a[i], w) for i, w in zip((1, 2, 4), want)) and \
                eq_int(e, a[5], flags | overlapped)
            run.ob('the options of the caller reach the open', what, ok, lambda: '%s %s, opened with %s' % (r[0], show(r[1]), show(a)))
        run.explore(e, path4, what)
    e = platform_engine(run, 'linux')
    for s in OTHERS:
        for n in ('create_platform_command_executer', 'create_os_file', 'create_async_os_file', 'create_os_async_reactor'):
            what = '%s on %r' % (n, s)
            run.unit('platforms', s)

            def path3():
                e.opts['platform_string'] = s
                Kernel(e, 'linux')
                fs = Files(e)
                r = attempt(e, lambda: e.call(load_attr(e, 'infi.asi', n), [] if n.endswith('reactor') else ['/dev/x']))
                run.ob('an unsupported platform is refused', what, r[0] == 'raise' and exc_is(e, r[1], 'AsiException') and not fs.opened,
                       lambda: '%s %s' % (r[0], show(r[1])))
            run.explore(e, path3, what)
    e.opts['platform_string'] = PLATFORM_STRING['linux']


def windows_open(run, what, a, overlapped, dev):
    GR, GW = 0x80000000, 0x40000000
    u = [x & 0xffffffff if isinstance(x, int) else x for x in a]
    run.ob('the device given is opened', what, len(u) == 7 and u[0] == dev, lambda: show(a))
    run.ob('the device is opened for reading and writing', what, isinstance(u[1], int) and u[1] & (GR | GW) == GR | GW, lambda: show(a))
    run.ob('the device stays usable for others', what, isinstance(u[2], int) and u[2] & 3 == 3, lambda: show(a))
    run.ob('the device is opened as it is', what, u[4] == 3, lambda: show(a))
    run.ob('the file is opened for %s use' % ('overlapped' if overlapped else 'synchronous'), what,
           isinstance(u[5], int) and bool(u[5] & 0x40000000) == overlapped, lambda: show(a))


# ---------------------------------------------------------------------------------------------------- X04
@prop('X04', 60)
def x04(run):
    for pl in PLATFORMS:
        plain = None
        for gevent in (True, False):
            e = engine_for(run, pl, 64, gevent)
            for kind, size in (('read', 'n'), ('read', 0), ('write', 'n'), ('write', 0)):
                for fault in ('none', 'status', 'submit'):
                    what = '%s %s%s, fault: %s, %s gevent' % (pl, kind, '' if size else ' without data', fault, 'with' if gevent else 'without')
                    run.unit('executers', '%s %s' % (pl, gevent))

                    def path():
                        k = Kernel(e, pl)
                        order = k.syscalls = Log()
                        slept = []

                        def sleep(e_, a, kw):
                            order.append('switch')
                            slept.append(list(a) + list(kw.values()))
                        e.handlers['gevent.sleep'] = sleep
                        x = k.make()
                        k.fail_submit = fault == 'submit'

                        def respond(ex):
                            if kind == 'read' and size:
                                k.fill_data(ex)
                            if fault == 'status':
                                f = k.family
                                if f == 'linux':
                                    k.set(ex, status=8)
                                elif f == 'solaris':
                                    k.set(ex, status=8)
                                elif f == 'aix':
                                    k.set(ex, status_validity=1, scsi_bus_status=8)
                                else:
                                    k.set(ex, ScsiStatus=8)
                        k.respond = respond
                        cmd, _, _ = command(e, kind, 10, e.fresh('n', 1, 4096) if size else 0)
                        r = call(e, x, cmd)
                        calls = [c for c in order if c != 'switch']
                        run.ob('the outcome is the same with and without gevent', what, r[0] == ('ok' if fault == 'none' else 'raise') and
                               (fault == 'submit' or exc_ok(e, r)), lambda: '%s %s' % (r[0], show(r[1])))
                        want = ['write', 'read'] if pl == 'linux' else ['DeviceIoControl'] if pl == 'windows' else ['ioctl']
                        if fault == 'submit':
                            want = want[:1]
                        run.ob('the blocking calls are made once', what, calls == want, lambda: repr(list(order)))
                        if gevent:
                            if fault != 'submit':
                                bad = [i for i, c in enumerate(order) if c != 'switch' and (i + 1 >= len(order) or order[i + 1] != 'switch')]
                                run.ob('a switch follows each blocking call', what, not bad, lambda: repr(list(order)))
                            run.ob('a switch does not delay', what, all(not s or s[0] == 0 for s in slept), lambda: repr(slept))
                        else:
                            run.ob('nothing else is called without gevent', what, 'switch' not in order, lambda: repr(list(order)))
                    run.explore(e, path, what)


class Log(list):
    pass


def exc_ok(e, r):
    return r[0] == 'ok' or exc_is(e, r[1], 'AsiException')
