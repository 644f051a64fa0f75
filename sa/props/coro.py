"""K01..K03: generator coroutines against the direct-style meaning of the same programs."""
from ..core import *
from ..core import Broken

SA = 'infi.asi.coroutines.sync_adapter'

PRELUDE = '''
class Mine(Exception):
    pass

class Sub(Mine):
    def __init__(self, a, b):
        Mine.__init__(self, a)
        self.b = b

class Other(Exception):
    pass

class Token(OSAsyncIOToken):
    def __init__(self, number, value, error):
        self.number, self.value, self.error = number, value, error

    def get_result(self, block=False):
        note('token', self.number, block)
        if self.error is not None:
            raise self.error
        return self.value

class Box(object):
    pass

class Duck(object):
    "an executer, a file or an iterator: a value like any other"
    def send(self, *args):
        note('used', 'send', None)
        raise StopIteration()
    throw = close = get_result = __next__ = next = send
    def __iter__(self):
        return self
'''

# A program is a list of statements:
#   ('y', v)  ('fwd',)  ('call', body)  ('tok', v)  ('tokfail', x)  ('raise', x)  ('note',)  ('ret',)
#   ('loop', n, body)  ('try', body, [(class, body)...], final body or None)  ('reraise',)
# v and x are indices of values and exceptions.
NVALUES = 10
EXC = ('Mine', 'Sub', 'Other', 'AsiException', 'KeyboardInterrupt', 'OSError')
UP = {'Mine': ('Mine', 'Exception'), 'Sub': ('Sub', 'Mine', 'Exception'), 'Other': ('Other', 'Exception'),
      'AsiException': ('AsiException', 'Exception'), 'KeyboardInterrupt': ('KeyboardInterrupt',),
      'OSError': ('OSError', 'Exception')}


class Unspec(object):
    def __repr__(self):
        return '<unspecified>'


UNSPEC = Unspec()


class Source(object):
    """the program as source text"""

    def __init__(self):
        self.out, self.n, self.k = [], 0, 0

    def gen(self, body):
        name = 'g%d' % self.n
        self.n += 1
        lines = []
        self.stmts(body, lines, '    ')
        self.out.append('def %s():\n    note("enter", "%s")\n    r = None\n%s\n    return\n    yield\n' % (name, name, '\n'.join(lines)))
        return name

    def point(self):
        self.k += 1
        return self.k

    def stmts(self, body, lines, ind):
        if not body:
            lines.append(ind + 'pass')
        for s in body:
            t = s[0]
            if t == 'y':
                lines.append(ind + 'r = yield V[%d]' % s[1])
            elif t == 'fwd':
                lines.append(ind + 'r = yield r')
            elif t == 'call':
                lines.append(ind + 'r = yield %s()' % self.gen(s[1]))
            elif t == 'tok':
                lines.append(ind + 'r = yield Token(%d, V[%d], None)' % (self.point(), s[1]))
            elif t == 'tokfail':
                lines.append(ind + 'r = yield Token(%d, None, X[%d])' % (self.point(), s[1]))
            elif t == 'raise':
                lines.append(ind + 'raise X[%d]' % s[1])
            elif t == 'reraise':
                lines.append(ind + 'raise')
            elif t == 'ret':
                lines.append(ind + 'return')
            elif t == 'loop':
                lines.append(ind + 'for i in range(%d):' % s[1])
                self.stmts(s[2], lines, ind + '    ')
            elif t == 'try':
                lines.append(ind + 'try:')
                self.stmts(s[1], lines, ind + '    ')
                for c, b in s[2]:
                    lines.append(ind + 'except %s as x:' % c)
                    lines.append(ind + '    note("caught", %d, x)' % self.point())
                    self.stmts(b, lines, ind + '    ')
                if s[3] is not None:
                    lines.append(ind + 'finally:')
                    self.stmts(s[3], lines, ind + '    ')
            if t in ('y', 'fwd', 'call', 'tok', 'tokfail'):
                lines.append(ind + 'note("got", %d, r)' % self.point())
            elif t == 'note':
                lines.append(ind + 'note("here", %d, None)' % self.point())


class Raised(Exception):
    def __init__(self, x):
        self.x = x


class Returned(Exception):
    pass


class Direct(object):
    """the same program with calls for yields: the log and the outcome it must have"""

    def __init__(self, block):
        self.log, self.n, self.k, self.block = [], 0, 0, block

    # numbering follows Source: generators and points are numbered in source order
    def number(self, body):
        name = 'g%d' % self.n
        self.n += 1
        return name, self.mark(body)

    def point(self):
        self.k += 1
        return self.k

    def mark(self, body):
        out = []
        for s in body:
            t = s[0]
            if t == 'call':
                s = ('call', self.number(s[1]))
            elif t in ('tok', 'tokfail'):
                s = (t, s[1], self.point())
            elif t == 'loop':
                s = ('loop', s[1], self.mark(s[2]))
            elif t == 'try':
                b = self.mark(s[1])
                hs = []
                for c, hb in s[2]:
                    p = self.point()
                    hs.append((c, p, self.mark(hb)))
                s = ('try', b, hs, self.mark(s[3]) if s[3] is not None else None)
            if t in ('y', 'fwd', 'call', 'tok', 'tokfail', 'note'):
                s = (s, self.point())
            else:
                s = (s, None)
            out.append(s)
        return out

    def run(self, prog):
        """value of the generator: what its last step gave"""
        name, body = prog
        self.log.append(('enter', name))
        st = {'r': None, 'last': None, 'x': []}
        try:
            self.body(body, st)
        except Returned:
            pass
        return st['last']

    def body(self, body, st):
        for s, p in body:
            t = s[0]
            if t in ('y', 'fwd', 'call', 'tok', 'tokfail'):
                try:
                    if t == 'y':
                        v = ('v', s[1])
                    elif t == 'fwd':
                        v = st['r']
                    elif t == 'call':
                        v = self.run(s[1])
                    else:
                        self.log.append(('token', s[2], self.block))
                        if t == 'tokfail':
                            raise Raised(('x', s[1]))
                        v = ('v', s[1])
                except Raised:
                    st['last'] = UNSPEC        # the value of a coroutine that ends in a handler is not specified
                    raise
                st['r'] = st['last'] = v
                self.log.append(('got', p, v))
            elif t == 'note':
                self.log.append(('here', p, None))
            elif t == 'raise':
                raise Raised(('x', s[1]))
            elif t == 'reraise':
                raise Raised(st['x'][-1])
            elif t == 'ret':
                raise Returned()
            elif t == 'loop':
                for _ in range(s[1]):
                    self.body(s[2], st)
            elif t == 'try':
                try:
                    try:
                        self.body(s[1], st)
                    except Raised as r:
                        for c, hp, hb in s[2]:
                            if c in UP[EXC[r.x[1]]]:
                                self.log.append(('caught', hp, r.x))
                                st['x'].append(r.x)
                                try:
                                    self.body(hb, st)
                                finally:
                                    st['x'].pop()
                                break
                        else:
                            raise
                finally:
                    if s[3] is not None:
                        self.body(s[3], st)


class Counter(object):
    """values and exceptions are rotated through the programs"""

    def __init__(self):
        self.v = self.x = 0

    def val(self):
        self.v += 1
        return self.v % NVALUES

    def exc(self):
        self.x += 1
        return self.x % len(EXC)


def leaves(c):
    yield []
    yield [('y', c.val())]
    yield [('y', c.val()), ('y', c.val())]
    yield [('raise', c.exc())]
    yield [('y', c.val()), ('raise', c.exc())]
    yield [('tok', c.val())]
    yield [('tokfail', c.exc())]
    yield [('y', c.val()), ('tok', c.val())]
    yield [('try', [('tokfail', 1)], [('Exception', [])], None), ('y', c.val())]
    yield [('try', [('tokfail', 3)], [('Exception', [])], None)]
    yield [('try', [('tokfail', 2)], [], [('note',)]), ('y', c.val())]
    yield [('try', [('tokfail', 4)], [('KeyboardInterrupt', [('tok', c.val())]), ('Exception', [])], None)]
    yield [('try', [('raise', 0)], [('Mine', [])], None)]


def menus(c, sub, alt):
    """callers of the body sub; alt is a second callee"""
    yield [('call', sub)]
    yield [('call', sub), ('fwd',)]
    yield [('y', c.val()), ('call', sub), ('y', c.val())]
    yield [('try', [('call', sub)], [('Exception', [])], None), ('y', c.val())]
    yield [('try', [('call', sub), ('fwd',)], [('Exception', [('call', alt), ('fwd',)])], None)]
    yield [('try', [('call', sub)], [('Exception', [('note',)])], None)]
    yield [('call', sub), ('try', [('call', sub)], [('Exception', [])], None)]
    yield [('try', [('call', sub)], [('Exception', [('note',), ('reraise',)])], None)]
    yield [('try', [('call', sub)], [('Exception', [('raise', c.exc())])], None)]
    yield [('try', [('call', sub)], [], [('note',)]), ('fwd',)]
    yield [('try', [('call', sub)], [], [('y', c.val())]), ('y', c.val())]
    yield [('call', sub), ('call', alt)]
    yield [('loop', 2, [('call', sub)])]
    yield [('try', [('call', sub), ('call', alt)], [('Exception', [('note',)])], None), ('y', c.val())]
    yield [('call', sub), ('ret',), ('y', c.val())]
    yield [('try', [('try', [('call', sub)], [('Other', [('note',)])], None)], [('Mine', [('note',)]), ('KeyboardInterrupt', [])], None), ('y', c.val())]
    yield [('loop', 2, [('try', [('call', sub)], [('Exception', [('y', c.val())])], None)]), ('y', c.val())]


def programs(depth):
    c = Counter()
    level = list(leaves(c))
    alts = [[('y', 2)], [('y', 3), ('raise', 1)], [('tok', 4)], [('call', [('y', 5)])]]
    yield from level
    for d in range(depth):
        nxt = []
        for i, b in enumerate(level):
            for j, m in enumerate(menus(c, b, alts[(i + d) % len(alts)])):
                nxt.append(m)
        yield from nxt
        level = nxt


def shape(p):
    def one(s):
        t = s[0]
        if t == 'call':
            return 'call(%s)' % shape(s[1])
        if t == 'loop':
            return 'loop(%s)' % shape(s[2])
        if t == 'try':
            return 'try(%s%s%s)' % (shape(s[1]), ''.join(' except %s: %s' % (c, shape(b)) for c, b in s[2]),
                                    ' finally: ' + shape(s[3]) if s[3] is not None else '')
        if t in ('raise', 'tokfail'):
            return '%s %s' % (t, EXC[s[1]])
        return t
    return '; '.join(one(s) for s in p) or 'pass'


class Machine(object):
    """one abstract run of one program"""

    def __init__(self, e, prog):
        self.e, self.log = e, []
        note = Native('note', self.note)
        ns = {'note': note, 'OSAsyncIOToken': load_attr(e, 'infi.asi', 'OSAsyncIOToken'),
              'AsiException': load_attr(e, 'infi.asi.errors', 'AsiException')}
        src = Source()
        main = src.gen(prog)
        self.text = PRELUDE + '\n'.join(src.out)
        m = self.m = e.run_source(self.text, 'program', ns)
        self.main = m.ns[main]
        box = e.call(m.ns['Box'], [])
        self.V = [None, 0, b'', False, box, 'text', ['list'], (1, 2), 7, e.call(m.ns['Duck'], [])]
        assert len(self.V) == NVALUES
        self.X = []
        for n in EXC:
            c = m.ns.get(n) or ns.get(n) or e.exc.get(n)
            self.X.append(e.call(c, [1, 2] if n == 'Sub' else ['why']))
        m.ns['V'], m.ns['X'] = self.V, self.X

    def note(self, e, a, k):
        self.log.append(tuple(a))
        return None

    def same(self, got, want):
        if want is UNSPEC:
            return True
        if want is None:
            return got is None
        if want[0] == 'x':
            return got is self.X[want[1]]
        v = self.V[want[1]]
        if v is None or isinstance(v, (bool, int, str, bytes)):
            return type(got) is type(v) and got == v
        return got is v

    def agrees(self, run, what, kind, direct, outcome, result):
        """does the log and the outcome agree with the direct program"""
        want = direct.log
        for i in range(max(len(want), len(self.log))):
            g = self.log[i] if i < len(self.log) else None
            w = want[i] if i < len(want) else None
            if g is None or w is None:
                ok = False
            elif w[0] in ('got', 'caught'):
                ok = g[:2] == w[:2] and self.same(g[2], w[2])
            elif w[0] == 'token' and w[2] is None:
                ok = g[:2] == w[:2]
            else:
                ok = g[:len(w)] == w
            if not ok:
                run.ob('each step happens once, in order, with its value or exception', what, False,
                       lambda: 'step %d is %s, expected %s; program:\n%s' % (i, self.say(g), self.tell(w), self.text[len(PRELUDE):]))
                return
        run.ob('each step happens once, in order, with its value or exception', what, True)
        if kind == 'raise':
            ok = outcome[0] == 'raise' and outcome[1] is self.X[result[1]]
        else:
            ok = outcome[0] == 'ok' and self.same(outcome[1], result)
        run.ob('the outcome is that of the direct program', what, ok,
               lambda: '%s %s, expected %s %s; program:\n%s' % (outcome[0], show(outcome[1]), kind, self.tell(('', '', result)), self.text[len(PRELUDE):]))

    def say(self, g):
        return 'nothing' if g is None else ' '.join(show(x) for x in g)

    def tell(self, w):
        if w is None:
            return 'nothing'
        out = []
        for x in w:
            if isinstance(x, tuple) and len(x) == 2 and x[0] == 'v':
                out.append(show(self.V[x[1]]))
            elif isinstance(x, tuple) and len(x) == 2 and x[0] == 'x':
                out.append(show(self.X[x[1]]))
            else:
                out.append(str(x))
        return ' '.join(out)


def direct(prog, block):
    d = Direct(block)
    num = d.number(prog)
    try:
        v = d.run(num)
        return d, 'ok', v
    except Raised as r:
        return d, 'raise', r.x


def coro_engine(run):
    e = run.engine()
    for m in ('infi.asi', 'infi.asi.errors', SA):
        try:
            e.load(m)
        except PyRaise as x:
            raise Broken('module %s does not load: %s' % (m, show(x)))
    return e


def attempt(e, f):
    try:
        return 'ok', f()
    except PyRaise as x:
        return 'raise', x.exc
    except Diverges as x:
        return 'endless', str(x)


@prop('K01', 1500)
def k01(run):
    e = coro_engine(run)
    wait = load_attr(e, SA, 'sync_wait')
    for prog in programs(3 if run.thorough else 2):
        what = shape(prog)
        d, kind, result = direct(prog, True)

        def path():
            m = Machine(e, prog)
            out = attempt(e, lambda: e.call(wait, [e.call(m.main, [])]))
            m.agrees(run, what, kind, d, out, result)
        run.unit('programs', what)
        run.explore(e, path, what)


# ---------------------------------------------------------------------------------------------------- K02
CALLS = """
def gen(*args, **kw):
    note('called', args, kw)
    if mode == 'raise now':
        raise X
    return body(args, kw)

def body(args, kw):
    note('started', args, kw)
    a = yield V
    b = yield sub()
    if mode == 'raise later':
        raise X
    yield W

def sub():
    note('sub')
    yield 5

def wrapper(f, *args, **kw):
    note('wrapped', f, args, kw)
    if mode == 'raise now':
        raise X
    return W

class Executer(object):
    def call(self, command):
        pass
    def send(self, command, callback=None):
        pass
    def wait(self):
        pass
    def is_queue_full(self):
        note('is_queue_full')
        return full
"""


@prop('K02', 80)
def k02(run):
    e = coro_engine(run)
    call, wait = load_attr(e, SA, 'sync_call'), load_attr(e, SA, 'sync_wait')
    adapter = load_attr(e, 'infi.asi', 'CommandExecuterAdapter')

    def world(mode):
        log = []
        V, W, X = Obj(Cls('V', [e.T['object']], {})), Obj(Cls('W', [e.T['object']], {})), None
        X = e.call(load_attr(e, 'infi.asi.errors', 'AsiSCSIError'), ['why'])
        ns = {'note': Native('note', lambda e_, a, k: log.append(tuple(a))), 'mode': mode, 'V': V, 'W': W, 'X': X, 'full': False}
        return e.run_source(CALLS, 'calls', ns), log, V, W, X

    o = object
    argsets = [((), {}), ((None,), {}), ((1, b'x'), {}), ((), {'k': 2}), ((7, 8, 9), {'a': None, 'b': 'c'})]
    for mode in ('fine', 'raise now', 'raise later'):
        for args, kw in argsets:
            what = 'sync_call(f, %s), f: %s' % (', '.join([repr(a) for a in args] + ['%s=%r' % i for i in kw.items()]), mode)

            def path():
                m, log, V, W, X = world(mode)
                r = attempt(e, lambda: e.call(call, [m.ns['gen']] + list(args), dict(kw)))
                want = [('called', args, kw)] + ([] if mode == 'raise now' else [('started', args, kw), ('sub',)])
                run.ob('the function is called once with the arguments given', what, log == want, lambda: 'effects %r' % (log,))
                if mode == 'fine':
                    run.ob('the final value is returned', what, r[0] == 'ok' and r[1] is W, lambda: '%s %s' % (r[0], show(r[1])))
                else:
                    run.ob('the error is raised', what, r[0] == 'raise' and r[1] is X, lambda: '%s %s' % (r[0], show(r[1])))
            run.unit('calls', what)
            run.explore(e, path, what)
            if mode == 'raise now':
                continue
            what2 = what.replace('sync_call(f, ', 'sync_wait(f(', 1).replace('), f', ')), f', 1)

            def path2():
                m, log, V, W, X = world(mode)
                g = e.call(m.ns['gen'], list(args), dict(kw))
                r = attempt(e, lambda: e.call(wait, [g]))
                run.ob('the generator is run once', what2, log == [('called', args, kw), ('started', args, kw), ('sub',)], lambda: 'effects %r' % (log,))
                if mode == 'fine':
                    run.ob('the final value is returned', what2, r[0] == 'ok' and r[1] is W, lambda: '%s %s' % (r[0], show(r[1])))
                else:
                    run.ob('the error is raised', what2, r[0] == 'raise' and r[1] is X, lambda: '%s %s' % (r[0], show(r[1])))
            run.unit('calls', what2)
            run.explore(e, path2, what2)
    for op in ('call', 'send', 'send with callback', 'wait'):
        for mode in ('fine', 'raise now'):
            what = 'CommandExecuterAdapter.%s, wrapper: %s' % (op, mode)

            def path3():
                m, log, V, W, X = world(mode)
                inner = e.call(m.ns['Executer'], [])
                ad = e.call(adapter, [inner, m.ns['wrapper']])
                cmd, cb = V, W
                args = {'call': [cmd], 'send': [cmd], 'send with callback': [cmd, cb], 'wait': []}[op]
                r = attempt(e, lambda: e.call_method(ad, op.split()[0], args))
                ok = len(log) == 1 and log[0][0] == 'wrapped'
                run.ob('the operation goes through the wrapper once', what, ok, lambda: 'effects %r' % (log,))
                if ok:
                    f, a, k = log[0][1:]
                    ok = isinstance(f, Bound) and f.self_ is inner and f.func is m.ns['Executer'].ns[op.split()[0]]
                    run.ob('the operation of the wrapped executer is run', what, ok, lambda: show(f))
                    got = list(a) + [k[x] for x in ('command', 'callback') if x in k]
                    if len(got) == len(args) + 1 and op == 'send' and got[-1] is None:
                        got = got[:-1]
                    run.ob('the arguments are passed on', what, len(got) == len(args) and all(x is y for x, y in zip(got, args)) and
                           not set(k) - {'command', 'callback'}, lambda: 'arguments %s %s' % (show(a), show(k)))
                if mode == 'fine':
                    run.ob('the result is returned', what, r[0] == 'ok' and r[1] is W, lambda: '%s %s' % (r[0], show(r[1])))
                else:
                    run.ob('the error is raised', what, r[0] == 'raise' and r[1] is X, lambda: '%s %s' % (r[0], show(r[1])))
            run.unit('calls', what)
            run.explore(e, path3, what)
    for full in (False, True):
        what = 'CommandExecuterAdapter.is_queue_full: %s' % full

        def path4():
            m, log, V, W, X = world('fine')
            m.ns['full'] = full
            ad = e.call(adapter, [e.call(m.ns['Executer'], []), m.ns['wrapper']])
            r = attempt(e, lambda: e.call_method(ad, 'is_queue_full', []))
            run.ob('is_queue_full is the answer of the wrapped executer', what, r == ('ok', full) and log[:1] == [('is_queue_full',)] and
                   not any(x[0] == 'wrapped' for x in log), lambda: '%s %s %r' % (r[0], show(r[1]), log))
        run.unit('calls', what)
        run.explore(e, path4, what)


# ---------------------------------------------------------------------------------------------------- K03
def pause_points(run, e, cls, progs):
    """AsyncCoroutine: the loop stops at every pending operation, which is asked for its result only when it has completed"""
    for prog in progs:
        what = shape(prog)
        d, kind, result = direct(prog, None)

        def path():
            m = Machine(e, prog)
            state = {'pauses': 0}

            def go():
                c = e.call(cls, [e.call(m.main, [])])
                for _ in range(200):
                    before = len(m.log)
                    e.call_method(c, 'loop', [])
                    asked = [x for x in m.log[before:] if x[0] == 'token']
                    run.ob('a pending operation is not asked before it completed', what, not asked, lambda: '%r; program:\n%s' % (asked, m.text[len(PRELUDE):]))
                    if e.truth(e.call_method(c, 'is_done', [])):
                        return e.call_method(c, 'get_result', [])
                    tok = e.call_method(c, 'get_result', [])
                    if not (isinstance(tok, Obj) and tok.cls is m.m.ns['Token']):
                        run.ob('a paused coroutine gives the operation it waits for', what, False, lambda: show(tok))
                        raise PathEnd('not paused at an operation')
                    run.ob('a paused coroutine gives the operation it waits for', what, True)
                    state['pauses'] += 1
                    before = len(m.log)
                    e.call_method(c, 'async_io_complete', [])
                    new = m.log[before:]
                    run.ob('a completed operation is asked once for its result', what, len(new) == 1 and new[0][:2] == ('token', tok.attrs['number']),
                           lambda: '%r; program:\n%s' % (new, m.text[len(PRELUDE):]))
                return None
            out = attempt(e, go)
            m.agrees(run, what, kind, d, out, result)
            tokens = sum(1 for x in d.log if x[0] == 'token')
            run.ob('a coroutine pauses once for each operation', what, state['pauses'] == tokens,
                   lambda: '%d pauses for %d operations; program:\n%s' % (state['pauses'], tokens, m.text[len(PRELUDE):]))
        run.unit('programs', what)
        run.explore(e, path, what)


WORK = """
def work(i, ops):
    note('start', i)
    total = []
    for op in ops:
        try:
            r = yield one(i, op)
            total.append(r)
        except OSError_:
            if op['handled']:
                total.append('failed')
            else:
                raise
    yield (i, total)

def one(i, op):
    r = yield files[i].ioctl(op['code'], bufs[i], 16, bufs[i], 16)
    note('done', i, op['n'])
    yield (op['n'], r)
"""


def reactor(run, e, case):
    """async_wait on Windows: case = list of commands, each a list of (kind, outcome, handled)"""
    from .. import lib_ctypes as lc
    what = ' | '.join(','.join('%s %s%s' % (k, o, ' handled' if h else '') for k, o, h in c) or 'nothing' for c in case)
    aw = load_attr(e, SA, 'async_wait')

    def path():
        log, h = [], e.handlers
        events, ops, last = {}, {}, {'error': 0}
        state = {'event': 1000, 'cur': None}
        codes = {}

        def create_event(e_, a, k):
            state['event'] += 4
            events[state['event']] = {'signalled': False}
            return state['event']

        def event_of(ptr):
            cd = lc.ptr_target(e, ptr)
            if cd is None:
                lc.wrecked(e, ptr, 'the overlapped structure is not a buffer')
            v = lc_int(e, cd, 24, 8)
            return cd, v

        def control(e_, a, k):
            op = codes[a[1]]
            cd, ev = event_of(a[7])
            ok = ev in events and ev not in ops and all(o['mem'] is not cd.mem for o in ops.values() if not o['over'])
            run.ob('every operation has its own event and overlapped structure', what, ok, lambda: 'event %s' % show(ev))
            if not ok:
                raise PathEnd('no event')
            log.append(('submit', op['n']))
            op['submits'] += 1
            if op['kind'] == 'at once':
                last['error'] = 0 if op['outcome'] == 'ok' else 31
                return 1 if op['outcome'] == 'ok' else 0
            ops[ev] = dict(op=op, mem=cd.mem, over=False, asked=0)
            last['error'] = 997
            return 0

        def overlapped_result(e_, a, k):
            cd, ev = event_of(a[1])
            o = ops.get(ev)
            ok = o is not None and o['mem'] is cd.mem
            run.ob('the result asked for is that of an operation in progress', what, ok, lambda: 'event %s' % show(ev))
            if not ok:
                raise PathEnd('unknown operation')
            block = e.truth(a[3])
            run.ob('an operation is asked when it has completed', what, events[ev]['signalled'] and o['asked'] == 0,
                   lambda: 'operation %s: signalled %s, asked %d times' % (o['op']['n'], events[ev]['signalled'], o['asked']))
            o['asked'] += 1
            o['over'] = True
            log.append(('result', o['op']['n']))
            if o['op']['outcome'] == 'fails':
                last['error'] = 31
                return 0
            cd = lc.ptr_target(e, a[2])
            lc.write_cells(e, cd, 0, [40 + o['op']['n'], 0, 0, 0])
            return 1

        def wait(e_, a, k):
            n, arr, every, timeout = a
            cd = lc.ptr_target(e, arr)
            hs = [lc_int(e, cd, 8 * i, 8) for i in range(n)]
            pend = [ev for ev, o in ops.items() if not o['over']]
            run.ob('exactly the operations in progress are waited for', what, sorted(hs) == sorted(pend) and not e.truth(every),
                   lambda: 'waits for %r of %r' % (hs, pend))
            run.ob('the wait is bounded', what, isinstance(timeout, int) and 0 < timeout < 0xffffffff, lambda: show(timeout))
            if not hs or sorted(hs) != sorted(pend):
                raise PathEnd('wrong wait')
            c = e.choose(n + (1 if state['wait_may_fail'] else 0), 'which operation completes')
            if c == n:
                state['wait_failed'] = ('times out', 'fails')[e.choose(2, 'how')]
                last['error'] = 6
                return 258 if state['wait_failed'] == 'times out' else -1
            events[hs[c]]['signalled'] = True
            log.append(('complete', ops[hs[c]]['op']['n']))
            return c

        h['kernel32.CreateFileW'] = lambda e_, a, k: 70 + len(log)
        h['kernel32.CreateEventW'] = create_event
        h['kernel32.DeviceIoControl'] = control
        h['kernel32.GetOverlappedResult'] = overlapped_result
        h['kernel32.WaitForMultipleObjects'] = wait
        h['kernel32.GetLastError'] = lambda e_, a, k: last['error']
        h['kernel32.FormatMessageA'] = lambda e_, a, k: 0
        state['wait_may_fail'] = len(case) <= 2
        state['wait_failed'] = None
        fcls = load_attr(e, 'infi.asi.win32', 'Win32AsyncFile')
        csb = load_attr(e, 'ctypes', 'create_string_buffer')
        files = [e.call(fcls, ['path%d' % i]) for i in range(len(case))]
        bufs = [e.call(csb, [16]) for _ in case]
        m = e.run_source(WORK, 'work', {'note': Native('note', lambda e_, a, k: log.append(tuple(a))), 'files': files, 'bufs': bufs,
                                        'OSError_': load_attr(e, 'infi.asi.errors', 'AsiOSError')})
        plan, n = [], 0
        for c in case:
            row = []
            for kind, outcome, handled in c:
                n += 1
                d = {'n': n, 'code': 500 + n, 'kind': kind, 'outcome': outcome, 'handled': handled, 'submits': 0}
                codes[500 + n] = d
                row.append(d)
            plan.append(row)
        gens = [e.call(m.ns['work'], [i, row]) for i, row in enumerate(plan)]
        r = attempt(e, lambda: e.call(aw, gens))
        ws = lambda: '%s %s; history %r' % (r[0], show(r[1]), log)
        every = [d for row in plan for d in row]
        run.ob('no operation is submitted twice', what, all(d['submits'] <= 1 for d in every), ws)
        failing = [d for d in every if d['outcome'] == 'fails' and not d['handled'] and d['submits']]
        if state['wait_failed']:
            run.ob('a failed wait raises', what + ', wait ' + state['wait_failed'], r[0] == 'raise' and exc_is(e, r[1], 'AsiOSError'), ws)
            return
        if failing:
            run.ob('the failure of a command reaches the caller', what, r[0] == 'raise' and exc_is(e, r[1], 'AsiOSError'), ws)
            return
        if not run.ob('async_wait returns when every command ended', what, r[0] == 'ok' and isinstance(r[1], list) and len(r[1]) == len(case) and
                      all(d['submits'] == 1 for d in every), ws):
            return
        for i, row in enumerate(plan):
            v = r[1][i]
            ok = isinstance(v, tuple) and len(v) == 2 and v[0] == i and len(v[1]) == len(row)
            for j, d in enumerate(row):
                if not ok:
                    break
                g = v[1][j]
                if d['outcome'] == 'fails':
                    ok = g == 'failed'
                elif d['kind'] == 'at once':
                    ok = isinstance(g, tuple) and g[0] == d['n']
                else:
                    ok = isinstance(g, tuple) and g[0] == d['n'] and isinstance(g[1], Obj) and isinstance(g[1].payload, lc.CData) and \
                        lc_int(e, g[1].payload, 0, 4) == 40 + d['n']
            run.ob('each command gives its own result, in the order the commands were given', '%s; command %d' % (what, i), ok, ws)
    run.unit('workloads', what)
    run.explore(e, path, what)


def lc_int(e, cd, off, size):
    from .. import lib_ctypes as lc
    cells = lc.read_cells(e, cd, off, size)
    v = 0
    for i, c in enumerate(cells):
        c = e.pinned(c)
        if not isinstance(c, int):
            return c
        v |= c << 8 * i
    return v


@prop('K03', 1000)
def k03(run):
    e = coro_engine(run)
    cls = load_attr(e, SA, 'AsyncCoroutine')
    progs = [p for p in programs(3 if run.thorough else 2) if 'tok' in shape(p)]
    pause_points(run, e, cls, progs)
    from ..oskit import engine_for, Kernel
    w = engine_for(run, 'windows')
    Kernel(w, 'windows')
    w.load(SA)
    one = [[], [('pending', 'ok', False)], [('at once', 'ok', False)], [('pending', 'fails', False)], [('pending', 'fails', True)],
           [('pending', 'ok', False)] * 2, [('at once', 'ok', False), ('pending', 'ok', False)],
           [('pending', 'fails', True), ('pending', 'ok', False)], [('at once', 'fails', True)], [('at once', 'fails', False)]]
    for a in one:
        reactor(run, w, [a])
        for b in one:
            reactor(run, w, [a, b])
    few = [one[0], one[1], one[4], one[5]] if not run.thorough else one[:8]
    for a in few:
        for b in few:
            for c in few:
                reactor(run, w, [a, b, c])
    reactor(run, w, [])
