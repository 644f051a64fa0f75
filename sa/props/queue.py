"""Q01..Q07: the command queue under a most-general client, operating system and device."""
from ..core import *
from ..core import Broken

HARNESS = '''
class GeneralExecuter(Base):
    """an executer over an operating system that may do anything"""
    def _os_prepare_to_send(self, command, packet_index):
        return os_prepare(self, command, packet_index)

    def _os_send(self, os_data):
        yield 17                     # an intermediate result, e.g. of opening the device
        os_submit(self, os_data)
        yield 18

    def _os_receive(self):
        yield 19
        answer = os_receive(self)
        yield answer

def make_callback(i):
    def callback(data, exception):
        completed(i, data, exception)
    return callback

def adapted(executer, sync_call):
    return Adapter(executer, sync_call)
'''


class World(object):
    """oracle: what is outstanding, and what happened to it"""

    def __init__(self, run, e, size, outcomes=('data', 'error'), default_size=False, adapter=False):
        self.run, self.e, self.size, self.outcomes = run, e, size, outcomes
        base = load_attr(e, 'infi.asi', 'CommandExecuterBase')
        ad = load_attr(e, 'infi.asi', 'CommandExecuterAdapter')
        self.full_exc = load_attr(e, 'infi.asi.errors', 'AsiRequestQueueFullError')
        self.internal_exc = load_attr(e, 'infi.asi.errors', 'AsiInternalError')
        ns = {'Base': base, 'Adapter': ad}
        for n in ('os_prepare', 'os_submit', 'os_receive', 'completed'):
            ns[n] = Native(n, getattr(self, n))
        m = e.run_source(HARNESS, 'harness', ns)
        self.m = m
        self.x = e.call(m.ns['GeneralExecuter'], [], {} if default_size else {'max_queue_size': size})
        self.adapter = None
        if adapter:
            sc = load_attr(e, 'infi.asi.coroutines.sync_adapter', 'sync_call')
            self.adapter = e.call(m.ns['adapted'], [self.x, sc])
        self.n = 0
        self.cmds = {}          # command number -> record
        self.log = []           # the history, for reports
        self.nested = 0         # operations made by callbacks
        self.refused = 0        # of these, refused because the queue was full
        self.prepared = None    # (number, id, os_data)
        self.fail = None        # 'prepare' / 'submit' for the next submission
        self.os_calls = 0
        self.receives = 0
        self.unknown_next = False
        self.order = None       # fixed completion choice: function(list of outstanding numbers) -> number
        self.base_exc = load_attr(e, 'infi.asi.errors', 'AsiSCSIError')

    # ---- obligations of several properties from the same exploration
    def ob(self, pid, rule, what, ok, msg=None):
        if pid == self.run.pid:
            self.run.ob(rule, what, ok, lambda: '%s; history: %s' % (msg() if callable(msg) else msg, ' '.join(self.log)),
                        key=rule + ': ' + what)
        return ok

    def outstanding(self):
        return [i for i, c in self.cmds.items() if c['state'] == 'out']

    # ---- the operating system
    def os_prepare(self, e, a, k):
        self.os_calls += 1
        _, command, pid = a
        num = command.attrs.get('number') if isinstance(command, Obj) else None
        self.log.append('prepare(#%s,id %s)' % (num, pid))
        if self.fail == 'prepare':
            e.throw(self.base_exc, 'prepare failed')
        d = Obj(Cls('OsData', [e.T['object']], {}), {'number': num})
        self.prepared = (num, pid, d)
        return d

    def os_submit(self, e, a, k):
        self.os_calls += 1
        d = a[1]
        num = d.attrs.get('number') if isinstance(d, Obj) else None
        if self.fail == 'submit':
            self.log.append('submit(#%s) fails' % num)
            e.throw('OSError', 5, 'submit failed')
        if self.fail == 'interrupt':
            self.log.append('submit(#%s) is interrupted' % num)
            e.throw('KeyboardInterrupt')
        self.log.append('submit(#%s)' % num)
        ok = self.prepared is not None and self.prepared[2] is d and num == self.cur
        self.ob('Q02', 'what is submitted is what was prepared for this command', 'submit', ok, 'another request is submitted')
        if not ok:
            raise PathEnd('wrong request')
        pid = self.prepared[1]
        clash = [j for j in self.outstanding() if not self._differ(self.cmds[j]['id'], pid)]
        self.ob('Q01', 'id differs from the id of every outstanding command', 'submission', not clash,
                lambda: 'command #%d is sent with id %r while command #%d, sent with the same id, is outstanding' % (num, pid, clash[0]))
        self.ob('Q03', 'outstanding commands never exceed the queue size', 'submission', len(self.outstanding()) < self.size,
                lambda: '%d commands outstanding already' % len(self.outstanding()))
        self.cmds[num].update(id=pid, state='out')
        return None

    def _differ(self, a, b):
        return not eq_int(self.e, a, b) if isinstance(a, (int, Poly)) and isinstance(b, (int, Poly)) else a != b

    def os_receive(self, e, a, k):
        self.os_calls += 1
        self.receives += 1
        outs = self.outstanding()
        if self.unknown_next:
            self.unknown_next = False
            used = {self.cmds[i]['id'] for i in outs}
            cand = [v for v in (0, 1, 2, self.size - 1, self.size, 77, -1) if v not in used]
            pid = cand[e.choose(len(cand), 'unknown id')] if self.order is None else cand[0]
            self.log.append('response(unknown id %s)' % pid)
            return (b'foreign', pid)
        self.ob('Q07', 'no receive with nothing outstanding', 'receive', bool(outs), 'receives while nothing is outstanding')
        for pid, st in (('Q02', 'done'), ('Q04', 'failed')):
            if not outs and any(c['state'] == st for c in self.cmds.values()):
                self.ob(pid, 'a %s command is not outstanding any more' % {'done': 'completed', 'failed': 'failed'}[st], 'receive', False,
                        'its response is waited for')
        if not outs:
            raise PathEnd('receive on empty queue')
        num = self.order(outs) if self.order else outs[e.choose(len(outs), 'next response')]
        c = self.cmds[num]
        kind = self.outcomes[e.choose(len(self.outcomes), 'outcome')] if len(self.outcomes) > 1 else self.outcomes[0]
        c['state'], c['outcome'] = 'done', kind
        if kind == 'data':
            c['result'] = b'data of #%d' % num
        elif kind == 'empty':
            c['result'] = b''
        elif kind == 'nothing':
            c['result'] = None           # a write that succeeded
        else:
            c['result'] = Obj(self.base_exc, {'args': ('error of #%d' % num,)})
        self.log.append('response(#%d %s)' % (num, kind))
        return (c['result'], c['id'])

    def completed(self, e, a, k):
        i, data, exc = a
        c = self.cmds[i]
        c['cb'] += 1
        self.log.append('callback(#%d)' % i)
        what = 'callback'
        if not self.ob('Q02', 'called only for a completed command', what, c['state'] == 'done', lambda: 'callback of #%d, which is %s' % (i, c['state'])):
            return None
        self.ob('Q02', 'called once', what, c['cb'] == 1, lambda: 'callback of #%d called %d times' % (i, c['cb']))
        if c['outcome'] == 'error':
            ok = exc is c['result'] and data is None
        else:
            ok = exc is None and same(data, c['result'])
        self.ob('Q02', 'called with its own outcome', what, ok,
                lambda: 'callback of #%d gets (%s, %s), its response was %s' % (i, show(data), show(exc), show(c['result'])))
        c['cb_ok'] = ok
        then = c.get('then')
        if then:
            keep = self.cur, self.prepared, self.fail
            self.log.append('[')
            if then == 'raise':
                self.log.append('raises]')
                c['raised'] = Obj(self.base_exc, {'args': ('error of the callback of #%d' % i,)})
                raise PyRaise(c['raised'], '')
            self.nested += 1
            if then == 'send':
                self.send(True)
            else:
                self.step_call()
            self.log.append(']')
            self.cur, self.prepared, self.fail = keep
        return None

    # ---- the client
    def new(self, cb):
        self.n += 1
        c = Obj(Cls('Command', [self.e.T['object']], {}), {'number': self.n})
        self.cmds[self.n] = {'cmd': c, 'state': 'new', 'cb': 0, 'has_cb': cb, 'id': None}
        self.cur = self.n
        return self.n, c

    def attempt(self, meth, args):
        steps = self.e.max_steps
        self.e.max_steps = min(steps, self.e.steps + 60000)
        try:
            if self.adapter is not None:
                return 'ok', self.e.call_method(self.adapter, meth, args)
            return 'ok', self.e.drive(self.e.call_method(self.x, meth, args))
        except PyRaise as p:
            return 'raise', p.exc
        except Diverges:
            self.ob(self.run.pid, 'terminates', meth, False, 'does not terminate')
            raise PathEnd('diverges')
        finally:
            self.e.max_steps = steps

    def snapshot(self):
        return {i: (c['state'], c['cb']) for i, c in self.cmds.items()}

    def check_full(self):
        if self.run.pid != 'Q03':
            return
        try:
            v = self.e.truth(self.e.call_method(self.adapter or self.x, 'is_queue_full', []))
        except PyRaise as p:
            self.ob('Q03', 'queue-full query', 'is_queue_full', False, 'raises %s' % show(p))
            return
        full = len(self.outstanding()) >= self.size
        self.ob('Q03', 'queue-full query is true exactly when the queue is full', 'is_queue_full', v == full,
                lambda: 'says %s with %d of %d outstanding' % (v, len(self.outstanding()), self.size))

    def send(self, cb=True, fail=None, meth='send'):
        full = len(self.outstanding()) >= self.size
        before, os0 = self.snapshot(), self.os_calls
        i, c = self.new(cb and meth == 'send')
        self.log.append('%s(#%d%s)' % (meth, i, '' if cb else ' no callback'))
        self.fail, self.prepared = fail, None
        args = [c]
        if meth == 'send' and cb:
            args.append(self.e.call(self.m.ns['make_callback'], [i]))
        r, v = self.attempt(meth, args)
        self.fail = None
        me = self.cmds[i]
        if full:
            self.ob('Q03', 'full queue rejects', meth, r == 'raise' and v.cls is self.full_exc,
                    lambda: 'with %d of %d outstanding: %s' % (len(self.outstanding()), self.size, show(v)))
            self.ob('Q03', 'full queue rejects before the operating system is involved', meth, self.os_calls == os0,
                    lambda: 'the operating system was called')
            self.ob('Q03', 'rejection leaves outstanding commands alone', meth,
                    {k: s for k, s in self.snapshot().items() if k != i} == before and me['cb'] == 0, 'the queue changed')
            self.refused += 1
            if me['state'] == 'new':
                me['state'] = 'rejected'
            return r, v
        if fail:
            want = {'submit': 'OSError', 'interrupt': 'KeyboardInterrupt'}.get(fail, self.base_exc.name)
            self.ob('Q04', 'failure of the %s reaches the caller' % ('preparation' if fail == 'prepare' else 'submission'), meth,
                    r == 'raise' and exc_is(self.e, v, want), lambda: 'caller gets %s %s' % (r, show(v)))
            self.ob('Q04', 'a failed submission changes nothing else', meth,
                    {k: s for k, s in self.snapshot().items() if k != i} == before and me['cb'] == 0, 'other commands changed')
            me['state'] = 'failed'
            return r, v
        if meth == 'send':
            self.ob('Q01', 'a submission with a free slot is accepted', meth, r == 'ok',
                    lambda: 'rejected with %d of %d outstanding: %s' % (len(self.outstanding()), self.size, show(v)))
            for pid, st in (('Q02', 'done'), ('Q04', 'failed')):
                if any(c['state'] == st for i_, c in self.cmds.items() if i_ != i):
                    self.ob(pid, 'a %s command gives its slot back' % {'done': 'completed', 'failed': 'failed'}[st], meth, r == 'ok',
                            lambda: 'rejected with %d of %d outstanding: %s' % (len(self.outstanding()), self.size, show(v)))
            self.ob('Q02', 'a submission sends one request and completes nothing', meth,
                    r != 'ok' or (me['state'] == 'out' and self.receives == self.rc(me)), lambda: 'state %s' % me['state'])
            if r != 'ok' or me['state'] != 'out':
                raise PathEnd('not submitted')
        return r, v

    def rc(self, me):
        return self.receives

    def step_send(self):
        return self.send(True)

    def step_send_then(self, then):
        r = self.send(True)
        self.cmds[self.cur]['then'] = then
        return r

    def step_send_nocb(self):
        return self.send(False)

    def step_fail_prepare(self):
        return self.send(True, 'prepare')

    def step_interrupt(self):
        return self.send(True, 'interrupt')

    def step_fail_submit(self):
        return self.send(True, 'submit')

    def step_call(self, fail=None):
        if len(self.outstanding()) >= self.size or fail:
            return self.send(True, fail, 'call')
        others = self.outstanding()
        r, v = self.send(True, None, 'call')
        me = self.cmds[self.cur]
        me['has_cb'] = False
        ok = me['state'] == 'done'
        self.ob('Q06', 'returns only after its own response', 'call', ok, lambda: 'returned %s while its command is %s' % (show(v), me['state']))
        if not ok:
            raise PathEnd('call returned early')
        if me['outcome'] == 'error':
            good = r == 'raise' and v is me['result']
        else:
            good = r == 'ok' and same(v, me['result'])
        self.ob('Q06', 'delivers its own outcome', 'call', good,
                lambda: 'gives %s %s, its response was %s' % (r, show(v), show(me['result'])))
        for i in others:
            self.settled(i, 'Q06')
        return r, v

    def settled(self, i, pid):
        c = self.cmds[i]
        if c['state'] == 'done':
            self.ob(pid, 'a completed command has had its callback', 'callback', c['cb'] == (1 if c['has_cb'] else 0),
                    lambda: 'callback of #%d called %d times' % (i, c['cb']))
        else:
            self.ob(pid, 'an uncompleted command has had no callback', 'callback', c['cb'] == 0, lambda: 'callback of #%d called' % i)

    def step_wait(self):
        outs = self.outstanding()
        r0, n0 = self.receives, len(self.cmds)
        self.log.append('wait()')
        raised = {i for i, c in self.cmds.items() if c.get('raised')}
        r, v = self.attempt('wait', [])
        new = [c['raised'] for i, c in self.cmds.items() if c.get('raised') and i not in raised]
        if new:
            self.ob('Q07', 'the error of a callback reaches the caller', 'wait', r == 'raise' and v is new[0], lambda: '%s %s' % (r, show(v)))
            for i in self.cmds:
                self.settled(i, 'Q02')
            return self.step_wait()
        for pid in ('Q02', 'Q07'):
            self.ob(pid, 'returns normally', 'wait', r == 'ok', lambda: 'raises %s' % show(v))
        left = self.outstanding()
        if any(c['state'] == 'failed' for c in self.cmds.values()):
            self.ob('Q04', 'the other commands are still completed', 'wait', r == 'ok' and not left, lambda: '%s %s, #%s outstanding' % (r, show(v), left))
            for i in self.cmds:
                self.settled(i, 'Q04')
        self.ob('Q07', 'returns only with nothing outstanding', 'wait', not left, lambda: '#%s outstanding' % left)
        sent = sum(1 for i, c in list(self.cmds.items())[n0:] if c['state'] in ('out', 'done'))
        self.ob('Q07', 'receives one response per outstanding command', 'wait', self.receives - r0 == len(outs) + sent,
                lambda: '%d responses for %d commands' % (self.receives - r0, len(outs) + sent))
        for i in self.cmds:
            self.settled(i, 'Q02')
        if left or r != 'ok':
            raise PathEnd('not drained')

    def step_unknown(self):
        outs = self.outstanding()
        if not outs:
            return
        before = self.snapshot()
        self.log.append('wait()')
        self.unknown_next = True
        r, v = self.attempt('wait', [])
        if self.unknown_next:
            self.unknown_next = False
            self.ob('Q07', 'returns only with nothing outstanding', 'wait', False, 'returned without receiving')
            raise PathEnd('no receive')
        ok = r == 'raise' and isinstance(v, Obj) and v.cls.issub(self.internal_exc)
        self.ob('Q05', 'an unknown response is an internal error', 'wait', ok, lambda: '%s %s' % (r, show(v)))
        self.ob('Q05', 'an unknown response completes nothing', 'wait', self.snapshot() == before, 'commands were completed')
        if not ok or self.snapshot() != before:
            raise PathEnd('unknown response accepted')

    def step_poll(self):
        """a subclass polls for a response while nothing is outstanding"""
        if self.outstanding() or not self.x.cls.has('_process_pending_response'):
            return
        self.log.append('poll()')
        r0 = self.receives
        try:
            v = self.e.drive(self.e.call_method(self.x, '_process_pending_response', []))
        except PyRaise as p:
            v = p
        self.ob('Q07', 'polling with nothing outstanding receives nothing', 'poll', self.receives == r0 and not isinstance(v, PyRaise) and not self.e.truth(v),
                lambda: 'gives %s after %d receives' % (show(v), self.receives - r0))

    def finish(self):
        """every outstanding command can still be completed, in any order"""
        self.step_wait()
        for i, c in self.cmds.items():
            if c['state'] in ('failed', 'rejected'):
                self.ob('Q04', 'a failed command is never completed', 'callback', c['cb'] == 0, lambda: 'callback of #%d called' % i)


def same(a, b):
    if a is b:
        return True
    x, y = as_bv(a), as_bv(b)
    return x is not None and y is not None and x.segs == y.segs


STEPS = {'S': World.step_send, 's': World.step_send_nocb, 'P': World.step_fail_prepare, 'F': World.step_fail_submit, 'I': World.step_interrupt,
         'C': World.step_call, 'W': World.step_wait, 'U': World.step_unknown, 'O': World.step_poll,
         'N': lambda w: w.step_send_then('send'), 'V': lambda w: w.step_send_then('call'), 'R': lambda w: w.step_send_then('raise'),
         'p': lambda w: w.step_call('prepare'), 'f': lambda w: w.step_call('submit')}


def histories(run, sizes, depth, ops, outcomes, adapter=False, finish=True, executers=1):
    e = run.engine()
    load_attr(e, 'infi.asi', 'CommandExecuterBase')
    if adapter:
        load_attr(e, 'infi.asi.coroutines.sync_adapter', 'sync_call')
    for size in sizes:
        d = depth[size] if isinstance(depth, dict) else depth
        run.unit('histories', 'queue size %d, %d operations from %s, responses %s%s%s' % (
            size, d, ops, '/'.join(outcomes), ', through the synchronous adapter' if adapter else '',
            ', on %d executers' % executers if executers > 1 else ''))

        def path():
            ws = [World(run, e, size, outcomes, adapter=adapter) for _ in range(executers)]
            for j, w in enumerate(ws):
                w.n = 100 * j
                w.check_full()
            for _ in range(d):
                w = ws[e.choose(executers, 'executer') if executers > 1 else 0]
                op = ops[e.choose(len(ops), 'operation')]
                before = [x.snapshot() for x in ws if x is not w]
                if executers > 1:
                    w.log.append('<executer %d>' % (ws.index(w) + 1))
                STEPS[op](w)
                for x in ws:
                    x.check_full()
                w.ob('Q02', 'commands of another executer are left alone', 'queue', [x.snapshot() for x in ws if x is not w] == before,
                     lambda: 'commands of the other executer changed')
            if finish:
                for w in ws:
                    w.finish()
        run.explore(e, path, 'queue size %d' % size, max_paths=400000, seconds=700)


def wraparound(run, rounds):
    """the default queue size: fill it, then complete and submit again and again"""
    e = run.engine()
    size = load_attr(e, 'infi.asi', 'DEFAULT_MAX_QUEUE_SIZE')
    if not isinstance(size, int):
        raise Broken('DEFAULT_MAX_QUEUE_SIZE is not an integer')
    run.unit('histories', 'default queue size %d, filled, one slot freed and reused %d times in every order' % (size, rounds))

    def path():
        w = World(run, e, size, ('data',), default_size=True)
        w.check_full()
        for _ in range(size - 1):
            w.step_send()
            w.check_full()
        first = [e.choose(size, 'completed first') for _ in range(rounds)]
        for k in first:
            todo = [True]

            def order(outs):
                if todo[0]:
                    todo[0] = False
                    return outs[min(k, len(outs) - 1)]
                return outs[-1]
            w.order = order
            w.step_call()               # k-th outstanding completes, then the call itself
            if len(w.outstanding()) < size - 1:
                w.step_send()
            w.check_full()
        w.step_send()
        w.check_full()
        w.step_send()                   # full
        w.order = lambda outs: outs[0]
        w.step_wait()
        w.check_full()
        w.step_send()
    run.explore(e, path, 'default queue size', max_paths=100000, seconds=700)


INTERLEAVED = """
class SlowExecuter(Base):
    def _os_prepare_to_send(self, command, packet_index):
        return os_prepare(self, command, packet_index)

    def _os_send(self, os_data):
        result = yield Submission(os_data)
        yield result

    def _os_receive(self):
        answer = os_receive(self)
        yield answer

class Submission(Token):
    def __init__(self, os_data):
        self.os_data = os_data

    def get_result(self, block=False):
        return os_submitted(self, self.os_data)

def make_callback(i):
    def callback(data, exception):
        completed(i, data, exception)
    return callback
"""


def interleaved(run, sizes, number, outcomes=('data',)):
    """several submissions under way at the same time, each of which succeeds or fails; then all responses in any order"""
    e = run.engine()
    base = load_attr(e, 'infi.asi', 'CommandExecuterBase')
    token = load_attr(e, 'infi.asi', 'OSAsyncIOToken')
    async_ = load_attr(e, 'infi.asi.coroutines.sync_adapter', 'AsyncCoroutine')
    full = load_attr(e, 'infi.asi.errors', 'AsiRequestQueueFullError')
    for size in sizes:
        run.unit('histories', 'queue size %d, %d submissions under way at the same time, each succeeds or fails' % (size, number))

        def path():
            cmds, log, now = {}, [], {'fail': None}

            def ob(pid, rule, what, ok, msg=None):
                if pid == run.pid:
                    run.ob(rule, what, ok, lambda: '%s; history: %s' % (msg() if callable(msg) else msg, ' '.join(log)), key=rule + ': ' + what)
                return ok

            def os_prepare(e_, a, k):
                d = Obj(Cls('OsData', [e.T['object']], {}), {'number': a[1].attrs['number']})
                c = cmds[a[1].attrs['number']]
                clash = [i for i, x in cmds.items() if x is not c and x['state'] in ('sending', 'out') and x['id'] == a[2]]
                ob('Q01', 'id differs from the id of every outstanding command', 'submission under way', not clash, lambda: 'id %r is that of #%s' % (a[2], clash))
                c['id'] = a[2]
                return d

            def os_submitted(e_, a, k):
                c = cmds[a[1].attrs['number']]
                if now['fail']:
                    c['state'] = 'failed'
                    e.throw('OSError', 5, 'submission failed')
                c['state'] = 'out'
                return 18

            def os_receive(e_, a, k):
                outs = [i for i, c in cmds.items() if c['state'] == 'out']
                if not outs:
                    for pid in ('Q02', 'Q04', 'Q07'):
                        ob(pid, 'no receive with nothing outstanding', 'submissions under way', False, 'receives with nothing outstanding')
                    raise PathEnd('receive on empty queue')
                i = outs[e.choose(len(outs), 'next response')]
                cmds[i]['state'] = 'done'
                log.append('response(#%d)' % i)
                cmds[i]['result'] = b'data of #%d' % i
                return (cmds[i]['result'], cmds[i]['id'])

            def completed(e_, a, k):
                i, data, exc = a
                cmds[i]['cb'] += 1
                log.append('callback(#%d)' % i)
                for pid in ('Q02', 'Q04'):
                    ob(pid, 'called with its own outcome', 'callback after submissions under way',
                       cmds[i]['state'] == 'done' and cmds[i]['cb'] == 1 and exc is None and same(data, cmds[i]['result']),
                       lambda: '#%d, %s: %s %s' % (i, cmds[i]['state'], show(data), show(exc)))
                return None
            ns = {'Base': base, 'Token': token}
            for f in (os_prepare, os_submitted, os_receive, completed):
                ns[f.__name__] = Native(f.__name__, f)
            m = e.run_source(INTERLEAVED, 'interleaved', ns)
            x = e.call(m.ns['SlowExecuter'], [], {'max_queue_size': size})

            def advance(i):
                try:
                    return 'ok', e.call_method(cmds[i]['task'], 'loop', [])
                except PyRaise as p:
                    return 'raise', p.exc

            def start():
                i = len(cmds) + 1
                busy = sum(1 for c in cmds.values() if c['state'] in ('sending', 'out'))
                c = Obj(Cls('Command', [e.T['object']], {}), {'number': i})
                cmds[i] = {'state': 'new', 'cb': 0, 'id': None}
                log.append('send(#%d)' % i)
                cmds[i]['task'] = e.call(async_, [e.call_method(x, 'send', [c, e.call(m.ns['make_callback'], [i])])])
                r, v = advance(i)
                if busy >= size:
                    ob('Q03', 'full queue rejects', 'submissions under way', r == 'raise' and isinstance(v, Obj) and v.cls is full,
                       lambda: 'with %d of %d under way: %s' % (busy, size, show(v)))
                    cmds[i]['state'] = 'rejected'
                    if r != 'raise':
                        raise PathEnd('accepted')
                    return
                ok = r == 'ok' and cmds[i]['id'] is not None and not e.truth(e.call_method(cmds[i]['task'], 'is_done', []))
                ob('Q01', 'a submission with a free slot is accepted', 'submissions under way', ok, lambda: '%s %s' % (r, show(v)))
                if not ok:
                    raise PathEnd('not submitted')
                cmds[i]['state'] = 'sending'

            def end(i, fails):
                log.append('submit(#%d)%s' % (i, ' fails' if fails else ''))
                now['fail'] = fails
                try:
                    e.call_method(cmds[i]['task'], 'async_io_complete', [])
                    r, v = advance(i)
                except PyRaise as p:
                    r, v = 'raise', p.exc
                now['fail'] = None
                if fails:
                    ob('Q04', 'failure of the submission reaches the caller', 'submissions under way', r == 'raise' and exc_is(e, v, 'OSError'),
                       lambda: '%s %s' % (r, show(v)))
                    if r != 'raise':
                        raise PathEnd('failure lost')
                else:
                    for pid in ('Q02', 'Q04'):
                        ob(pid, 'a submission that succeeds returns', 'submissions under way', r == 'ok', lambda: '%s %s' % (r, show(v)))
                    if r != 'ok':
                        raise PathEnd('not submitted')
            while True:
                sending = [i for i, c in cmds.items() if c['state'] == 'sending']
                opts = (['start'] if len(cmds) < number else []) + sending
                if not opts:
                    break
                o = opts[e.choose(len(opts), 'what happens next')]
                if o == 'start':
                    start()
                else:
                    end(o, e.choose(2, 'the submission fails'))
            try:
                r, v = 'ok', e.drive(e.call_method(x, 'wait', []))
            except PyRaise as p:
                r, v = 'raise', p.exc
            left = [i for i, c in cmds.items() if c['state'] == 'out']
            for pid in ('Q02', 'Q04', 'Q07'):
                ob(pid, 'the commands that were submitted are completed', 'wait after submissions under way',
                   r == 'ok' and not left and all(c['cb'] == (c['state'] == 'done') for c in cmds.values()),
                   lambda: '%s %s, #%s outstanding' % (r, show(v), left))
        run.explore(e, path, 'queue size %d, submissions under way' % size, max_paths=100000, seconds=300)


T = lambda run, q, t: t if run.thorough else q  # noqa


@prop('Q01', 300)
def q01(run):
    histories(run, (1, 2), T(run, 4, 5), 'SCWFP', ('data',))
    histories(run, (3,), T(run, 4, 5), 'SCWF', ('data',))
    histories(run, (4,), T(run, 5, 6), 'SC', ('data',))
    histories(run, (2, 3), T(run, 3, 4), 'SNV', ('data',))
    wraparound(run, T(run, 1, 2))
    histories(run, (1, 2), T(run, 3, 4), 'SCF', ('data',), executers=2)
    interleaved(run, (1, 2, 3), T(run, 3, 4))


@prop('Q02', 300)
def q02(run):
    histories(run, (1, 2), T(run, 3, 4), 'SsCWF', ('data', 'error', 'empty', 'nothing'))
    histories(run, (3,), T(run, 4, 5), 'SsC', ('data', 'error'))
    histories(run, (2, 3), T(run, 3, 4), 'SsW', ('data', 'error'), adapter=True)
    histories(run, (1, 2), T(run, 3, 4), 'SNW', ('data', 'error'))
    histories(run, (1, 2), T(run, 3, 4), 'SVC', ('data',))
    histories(run, (2, 3), T(run, 3, 4), 'SRW', ('data', 'error'))
    histories(run, (1, 2), T(run, 3, 4), 'SCW', ('data', 'error') if run.thorough else ('data',), executers=2)
    interleaved(run, (2, 3), T(run, 3, 4))


@prop('Q03', 300)
def q03(run):
    histories(run, (1, 2), T(run, 4, 5), 'SsCWF', ('data',))
    histories(run, (3,), T(run, 5, 6), 'SC', ('data', 'error') if run.thorough else ('data',))
    histories(run, (1, 2), T(run, 3, 4), 'SCW', ('data',), adapter=True)
    histories(run, (1, 2), T(run, 3, 4), 'SNVC', ('data',))
    wraparound(run, 1)
    histories(run, (1, 2), T(run, 3, 4), 'SCW', ('data',), executers=2)
    interleaved(run, (1, 2), 3)


@prop('Q04', 300)
def q04(run):
    histories(run, (1, 2), T(run, 4, 5), 'SFPWpf' if run.thorough else 'SFPpf', ('data',))
    histories(run, (3,), T(run, 4, 5), 'SCFP', ('data',))
    histories(run, (2,), 3, 'SFPpf', ('data',), adapter=True)
    histories(run, (1, 2), T(run, 3, 4), 'SIC', ('data',))
    interleaved(run, (1, 2, 3), T(run, 3, 4))
    from .errs import failed_submissions
    failed_submissions(run)


@prop('Q06', 300)
def q06(run):
    histories(run, (1, 2), T(run, 3, 4), 'SsC', ('data', 'error', 'empty', 'nothing'))
    histories(run, (3,), T(run, 4, 5), 'SC', ('data', 'error'))
    histories(run, (2, 3), T(run, 3, 4), 'SVNC', ('data',))
    histories(run, (4,) if run.thorough else (3,), T(run, 3, 5), 'SCF', ('data', 'error'), adapter=True)


@prop('Q07', 300)
def q07(run):
    histories(run, (1, 2), T(run, 4, 5), 'SsCWF', ('data',))
    histories(run, (3,), T(run, 4, 5), 'SsW', ('data', 'error'))
    histories(run, (2,), T(run, 3, 4), 'SCW', ('data', 'error'), adapter=True)
    histories(run, (2,), T(run, 3, 4), 'SNRW', ('data', 'error'))
    histories(run, (1, 2), 3, 'SWCO', ('data',))
    interleaved(run, (2,), 3)
