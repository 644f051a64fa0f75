"""The kernels behind the executers, as abstract environments.

A kernel reads a request at the frozen ABI offsets, moves data, and writes back the fields the real one writes.
"""
from .core import *
from .core import Broken
from . import lib_ctypes as lc
from spec import abi

SENSE_N = 252          # bytes of sense data the device returns


class Exchange(object):
    """one request as the kernel sees it"""

    def __init__(self, kernel, cd, writable):
        self.k, self.cd, self.writable = kernel, cd, writable
        self.mems = {}
        self.problems = []

    def field(self, name):
        off, size, signed = self.k.fields[name]
        return self.k.read_int(self.cd, off, size, signed)

    def put(self, name, v):
        off, size, signed = self.k.fields[name]
        e = self.k.e
        bits = e.bits_of(v, 8 * size)
        cells = [e.mk_bits(bits[8 * i:8 * i + 8]) for i in range(size)]
        if self.k.big:
            cells = cells[::-1]
        self.k.write(self.cd, off, cells)

    def target(self, name):
        """(memory, offset) a pointer field refers to, or None"""
        v = self.field(name)
        if not isinstance(v, Poly):
            return None
        return lc.resolve(self.k.e, v)


def reachable(e, roots):
    """every memory block something in roots keeps alive"""
    seen, mems, work = set(), [], list(roots)
    while work:
        x = work.pop()
        if x is None or isinstance(x, (int, str, bytes, Poly)) or id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, lc.Mem):
            mems.append(x)
        elif isinstance(x, lc.CData):
            work += [x.mem] + list(x.keep)
        elif isinstance(x, Obj):
            work += list(x.attrs.values())
            if isinstance(x.payload, (lc.CData, list, tuple, dict)):
                work.append(x.payload)
        elif isinstance(x, dict):
            work += list(x.values()) + list(x.keys())
        elif isinstance(x, (list, tuple, set, frozenset)):
            work += list(x)
        elif isinstance(x, GenObj):
            work.append(x.frame)
        elif isinstance(x, Bound):
            work += [x.func, x.self_]
        elif isinstance(x, Func):
            work += [x.parent] + list(x.attrs.values())
        elif hasattr(x, 'locals') and hasattr(x, 'parent'):
            if getattr(x, 'kind', None) != 'module':
                work += [x.locals, x.parent]
        elif isinstance(x, (Module, Cls)):
            pass
    return {id(m) for m in mems}


def live(e, executer):
    return reachable(e, [executer] + list(e.stack) + [list(s) for s in e.driving])


class Kernel(object):
    """platform: linux, linux_ioctl, solaris, solaris_be, aix, aix_fcntl, windows"""
    ABI = {'linux': abi.SG_IO_HDR, 'linux_ioctl': abi.SG_IO_HDR, 'solaris': abi.USCSI_CMD, 'solaris_be': abi.USCSI_CMD,
           'aix': abi.SC_PASSTHRU, 'aix_fcntl': abi.SC_PASSTHRU, 'windows': abi.SPTD}
    CODE = {'linux_ioctl': abi.SG_IO, 'solaris': abi.USCSICMD, 'solaris_be': abi.USCSICMD, 'aix': abi.DK_PASSTHRU,
            'aix_fcntl': abi.DK_PASSTHRU, 'windows': abi.IOCTL_SCSI_PASS_THROUGH_DIRECT}
    PTRS = {'linux': dict(cdb=('cmdp', 'cmd_len'), sense=('sbp', 'mx_sb_len'), data=('dxferp', 'dxfer_len')),
            'solaris': dict(cdb=('cdb', 'cdblen'), sense=('rqbuf', 'rqlen'), data=('bufaddr', 'buflen')),
            'aix': dict(sense=('autosense_buffer_ptr', 'autosense_length'), data=('buffer', 'data_length')),
            'windows': dict(data=('DataBuffer', 'DataTransferLength'))}

    def __init__(self, e, platform, bits=64):
        self.e, self.platform = e, platform
        self.family = platform.split('_')[0]
        self.big = platform in ('solaris_be', 'aix', 'aix_fcntl')
        e.opts['big_endian'] = self.big
        a = self.ABI[platform][bits]
        self.size, self.fields = a['size'], dict(a['fields'])
        if platform == 'solaris_be':
            self.fields.update(abi.USCSI_BIG_ENDIAN)
        self.ptr = bits // 8
        self.fd = 77
        self.interrupt = False        # the submitting system call is interrupted (KeyboardInterrupt)
        self.fail_submit = False      # the submitting system call fails
        self.fail_receive = False     # the receiving system call fails (asynchronous interface)
        self.on_fail = None           # aix: what the kernel writes before failing
        self.respond = None           # fn(exchange): writes the outcome
        self.exchanges, self.queue = [], []
        self.syscalls = []
        self.fail_exc = None
        self.early = False
        self.errno = 31 if self.family == 'windows' else 5     # of a failing call that only returns a value
        self.alive_submit = self.alive_complete = None
        self.executer = None
        h = e.handlers
        h['fcntl.ioctl'] = self.fcntl_ioctl
        h['libc.ioctl'] = self.libc_ioctl
        h['dlopen'] = self.dlopen
        h['ctypes.get_errno'] = lambda e_, a, k: self.errno
        h['os.strerror'] = lambda e_, a, k: 'Input/output error'
        h['os.write'] = self.os_write
        h['os.read'] = self.os_read
        h['select.select'] = lambda e_, a, k: (list(a[0]), [], [])
        h['time.time'] = lambda e_, a, k: 1000
        h['kernel32.DeviceIoControl'] = self.device_io_control
        h['kernel32.GetLastError'] = lambda e_, a, k: self.errno
        h['kernel32.CreateFileW'] = lambda e_, a, k: self.fd
        h['kernel32.CloseHandle'] = lambda e_, a, k: 1
        h['kernel32.FormatMessageA'] = lambda e_, a, k: 0

    # ---- memory
    def read_int(self, cd, off, size, signed):
        cells = lc.read_cells(self.e, cd, off, size)
        return lib_py_int(self.e, cells, signed, self.big)

    def write(self, cd, off, cells):
        lc.write_cells(self.e, cd, off, cells)

    # ---- construction of the executer under analysis
    def make(self, **kw):
        e = self.e
        if self.platform == 'linux':
            f = e.call(load_attr(e, 'infi.asi.unix', 'UnixFile'), [self.fd])
            x = e.call(load_attr(e, 'infi.asi.linux', 'LinuxCommandExecuter'), [f], kw)
        elif self.platform == 'linux_ioctl':
            f = e.call(load_attr(e, 'infi.asi.unix', 'UnixFile'), [self.fd])
            x = e.call(load_attr(e, 'infi.asi.linux', 'LinuxIoctlCommandExecuter'), [f], kw)
        elif self.family == 'solaris':
            f = e.call(load_attr(e, 'infi.asi.unix', 'UnixFile'), [self.fd])
            x = e.call(load_attr(e, 'infi.asi.solaris', 'SolarisCommandExecuter'), [f], kw)
        elif self.family == 'aix':
            f = e.call(load_attr(e, 'infi.asi.unix', 'UnixFile'), [self.fd])
            x = e.call(load_attr(e, 'infi.asi.aix', 'AixCommandExecuter'), [f], kw)
        else:
            f = e.call(load_attr(e, 'infi.asi.win32', 'Win32File'), ['\\\\.\\PHYSICALDRIVE1'])
            x = e.call(load_attr(e, 'infi.asi.win32', 'Win32CommandExecuter'), [f], kw)
        self.executer = x
        return x

    # ---- system calls
    def fail(self, what):
        self.fail_exc = what
        self.e.os_error(what)

    def begin(self, cd, writable):
        x = Exchange(self, cd, writable)
        self.exchanges.append(x)
        x.live = live(self.e, self.executer)
        x.snapshot = {n: x.field(n) for n, (o, s, g) in self.fields.items() if s <= 8}
        return x

    def dlopen(self, e, a, k):
        if self.platform == 'aix_fcntl':
            e.throw('OSError', 2, 'could not load module')

    def fcntl_ioctl(self, e, a, k):
        self.syscalls.append('ioctl')
        fd, code, arg = a[0], a[1], a[2] if len(a) > 2 else 0
        if arg is None or isinstance(arg, (StrV, str)):
            e.throw('TypeError', 'ioctl requires a file or file descriptor, an integer and optionally an integer or buffer argument')
        cd = lc.ptr_target(e, arg) if arg is not None else None
        writable = isinstance(arg, (Obj, Poly)) or isinstance(arg, BytesV) and arg.kind == 'bytearray'
        if isinstance(arg, BytesV) and arg.kind == 'bytearray':
            cd = lc.CData(lc.Mem(arg, 'bytearray'), 0, arg.length())
        return self.ioctl(e, fd, code, cd, writable, arg, lambda: self.fail('ioctl'))

    def libc_ioctl(self, e, a, k):
        self.syscalls.append('ioctl')
        cd = lc.ptr_target(e, a[2])
        r = self.ioctl(e, a[0], a[1], cd, True, a[2], lambda: -1)
        return r

    def ioctl(self, e, fd, code, cd, writable, arg, fail):
        self.code, self.code_fd = code, fd
        if self.interrupt:
            e.throw('KeyboardInterrupt')
        if cd is None:
            self.exchanges.append(None)
            lc.wrecked(e, arg, 'the request is not a buffer')
        x = self.begin(cd, writable)
        if self.fail_submit:
            if self.on_fail:
                self.on_fail(x)
            self.failed = True
            return fail()
        x.live_done = x.live
        if self.respond:
            self.respond(x)
        return 0

    def os_write(self, e, a, k):
        self.syscalls.append('write')
        self.code_fd = a[0]
        b = as_bv(a[1])
        if b is None:
            e.throw('TypeError', 'a bytes-like object is required')
        if self.interrupt:
            e.throw('KeyboardInterrupt')
        if self.fail_submit:
            self.fail('write')
        # the kernel copies the header at write() and hands it back at read()
        mem = lc.Mem(BytesV(list(b.segs), 'bytearray'), 'kernel copy')
        x = self.begin(lc.CData(mem, 0, b.length()), True)
        x.length = b.length()
        x.fd = a[0]
        self.queue.append(x)
        if self.early and self.respond:
            self.respond(x)           # the device may be done before the response is asked for
        return b.length()

    def os_read(self, e, a, k):
        self.syscalls.append('read')
        if self.fail_receive:
            self.fail('read')
        i = next((i for i, y in enumerate(self.queue) if y.fd == a[0]), None)
        if i is None:
            self.fail('read')
        x = self.queue.pop(i)
        x.live_done = live(self.e, self.executer)
        if self.respond and not self.early:
            self.respond(x)
        x.read_size = a[1]
        return norm_bytes(BytesV(list(x.cd.mem.data.segs)))

    def device_io_control(self, e, a, k):
        self.syscalls.append('DeviceIoControl')
        handle, code, inp, insz, out, outsz = a[:6]
        self.code = code
        h = handle
        if isinstance(h, Obj) and isinstance(h.payload, lc.CData):
            h = lc.read_simple(e, lc.ct(h.cls), h.payload)
        self.code_fd = h
        cd = lc.ptr_target(e, inp) if inp is not None else None
        if cd is None:
            lc.wrecked(e, inp, 'the request is not a buffer')
        od = lc.ptr_target(e, out) if out is not None else None
        x = self.begin(cd, True)
        x.insz, x.outsz, x.out = insz, outsz, od
        if self.interrupt:
            e.throw('KeyboardInterrupt')
        if self.fail_submit:
            return 0
        x.live_done = x.live
        if od is not None and od.mem is not cd.mem:
            put = lc.read_cells(e, cd, 0, self.size)
            lc.write_cells(e, od, 0, put)
        if od is None:
            # the outcome has nowhere to go
            x.cd = lc.CData(lc.Mem(BytesV(list(cd.mem.data.segs), 'bytearray'), 'discarded'), 0, cd.size)
        else:
            x.cd = od
        if self.respond:
            self.respond(x)
        return 1

    # ---- standard outcomes
    def sense_target(self, x):
        if self.family == 'windows':
            off = x.field('SenseInfoOffset')
            if not isinstance(off, int):
                return None
            return x.cd.mem, add(x.cd.off, off)
        return x.target(self.PTRS[self.family]['sense'][0])

    def put_sense(self, x, cells):
        t = self.sense_target(x)
        if t is None:
            return False
        mem, off = t
        room = x.field({'linux': 'mx_sb_len', 'solaris': 'rqlen', 'aix': 'autosense_length', 'windows': 'SenseInfoLength'}[self.family])
        if isinstance(room, int):
            cells = cells[:room]      # what does not fit in the length the request gives is lost
        if not self.e.truth(compare('<=', add(off, len(cells)), mem.size())):
            return False
        lc.write_cells(self.e, lc.CData(mem, 0, mem.size()), off, cells)
        return True

    def fill_data(self, x, name='kdata'):
        """the device's data arrives in the data buffer"""
        e = self.e
        ptr, ln = self.PTRS[self.family]['data']
        t = x.target(ptr)
        n = x.field(ln)
        if t is None:
            return None
        mem, off = t
        if not e.truth(compare('<=', add(off, n), mem.size())):
            return None
        e.ct_put(lc.CData(mem, off, sub(mem.size(), off)), BytesV([Opq(name, 0, n)]))
        return n

    # fields the kernel fills in that say nothing about the outcome of a command that succeeded
    BESIDE = {'linux': ('duration', 'usr_ptr'), 'solaris': ('rqresid', 'path_instance'), 'aix': ('add_device_status', 'adap_q_status'), 'windows': ()}

    def good(self, x):
        for name in self.BESIDE[self.family]:
            size = self.fields[name][1]
            x.put(name, self.e.fresh(name, 0, 256 ** size - 1))

    def set(self, x, **kw):
        for n, v in kw.items():
            x.put(n, v)


def lib_py_int(e, cells, signed, big):
    from . import lib_py
    return lib_py.int_from_cells(e, cells, signed, big)


def command(e, kind, cdb_len, size):
    """a SCSI command object as the cdb classes hand it over; (object, cdb, data)"""
    cells = [P(Atom('wb', 'cdb', i)) for i in range(cdb_len)]
    cdb = BytesV([cells])
    if kind == 'read':
        return e.call(load_attr(e, 'infi.asi', 'SCSIReadCommand'), [cdb, size]), cdb, None
    data = b'' if size == 0 else BytesV([Opq('wdata', 0, size)])
    return e.call(load_attr(e, 'infi.asi', 'SCSIWriteCommand'), [cdb, data]), cdb, data


def call(e, x, cmd):
    try:
        return 'ok', e.drive(e.call_method(x, 'call', [cmd]))
    except PyRaise as p:
        return 'raise', p.exc


def engine_for(run, platform, bits=64, gevent=False):
    cache = run.__dict__.setdefault('os_engines', {})
    fam = platform.split('_')[0]
    big = platform in ('solaris_be', 'aix', 'aix_fcntl')
    key = (fam, bits, gevent)
    if key not in cache:
        e = cache[key] = run.engine(fam, pointer_size=bits // 8, gevent=gevent)
        e.opts['big_endian'] = big
        for m in ('infi.asi', 'infi.asi.unix', {'windows': 'infi.asi.win32'}.get(fam, 'infi.asi.' + fam)):
            try:
                e.load(m)
            except PyRaise as x:
                raise Broken('module %s does not load on %s: %s' % (m, fam, show(x)))
    cache[key].opts['big_endian'] = big
    return cache[key]


PLATFORMS = ('linux', 'linux_ioctl', 'solaris', 'solaris_be', 'aix', 'aix_fcntl', 'windows')
