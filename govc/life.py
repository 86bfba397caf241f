"""Lifecycle of the clients (C16): operations after Close, after Reconnect in
every history of Close, failed and successful Reconnect, and the heartbeat."""
import time
import z3
from verify import *
import verify
import models
import loops

PROTOS = ('ServerWithTextProtocol', 'ServerWithMetaProtocol', 'ServerWithBinaryProtocol')
HISTORIES = ['reconnect', 'close,reconnect', 'failed,reconnect', 'close,failed,reconnect', 'reconnect,close,reconnect']
CLOSED = ['failed', 'close', 'close,close', 'reconnect,close', 'close,failed', 'close,reconnect,close', 'failed,close']


def last_two(a):
    return a[-2:]


def setpath_field(W, st, p, tname, field, v):
    t = '%s/client.%s' % (MOD, tname)
    st.heap[p.oid] = st.setpath(st.heap[p.oid], (W.p.fieldidx(t, field),), v)


def dirty(I, st, broken):
    """what earlier operations may leave behind on the connection: bytes of
    replies, unflushed bytes of requests, a write error"""
    c = st.ghost['conn']
    x = z3.Int('len_leftover')
    st.pc += [x >= 0, x <= 1 << 20]
    st.ghost[('c.in', c)] = sym(Var('leftover', ALL, x))
    for k, o in list(st.ghost.items()):
        if isinstance(k, tuple) and k[0] == 'w.dst' and o == c:
            if broken:
                st.ghost[('w.err', k[1])] = st.err('$ioerr')
            y = z3.Int('len_pending')
            st.pc += [y >= 0, y <= 1 << 20]
            st.ghost[('w.pend', k[1])] = sym(Var('pending', ALL, y))


class LifeUnit(ClientUnit):
    kind = 'life'

    def method(self, op):
        return '(*%s/client.%s).%s' % (MOD, self.tname, op)

    def dialer(self, ok):
        def h(I, st, a, ins):
            net, addr = last_two(a)
            if not (st.req(net, lit('tcp')) if isinstance(net, Rope) else False) or not st.req(addr, lit('addr:1')):
                st.fail('C16.address', 'dials another address than the configured one')
            if not ok:
                st.trace += (('dial', None),)
                return (None, st.err('*net.OpError'))
            return dial_success(I, st, a, ins)
        return h

    def history(self, I, res, st, p, hist):
        """all states after the history"""
        states = [st]
        for act in hist.split(','):
            out = []
            for s in states:
                I.models.ext['$dial'] = self.dialer(act != 'failed')
                op = 'Close' if act == 'close' else 'Reconnect'
                nc = len(s.ghost['conns'])
                old = s.ghost['conn']
                was = s.ghost.get(('c.closed', old))
                n0 = len(s.fails)
                for f in self.W.call(I, s, self.method(op), [p]):
                    kind, info = f.outcome
                    if kind == 'unsupported':
                        res.unsupported.append('%s: %s' % (op, info))
                        continue
                    for ob, msg in f.fails[n0:]:
                        res.bad('C16.' + ob if not ob.startswith('C16') else ob, msg + ' in ' + hist, f.approx)
                    if kind != 'return':
                        res.bad('C16.%s' % op.lower(), '%s does not return (%s %s) in the history %s' % (op, kind, info or '', hist), f.approx)
                        continue
                    if f.ghost.get('held', ()):
                        res.bad('C16.%s' % op.lower(), 'the lock is held after %s' % op, f.approx)
                        continue
                    v = f.result
                    if act == 'reconnect':
                        if v is not None:
                            res.bad('C16.reconnect', 'Reconnect fails although the server was reached, in the history %s' % hist, f.approx)
                            continue
                        if len(f.ghost['conns']) != nc + 1:
                            res.bad('C16.reconnect', 'Reconnect makes %d connections' % (len(f.ghost['conns']) - nc), f.approx)
                            continue
                        f.ghost['conn'] = f.ghost['conns'][-1]
                        if f.ghost.get(('c.closed', f.ghost['conn'])):
                            res.bad('C16.reconnect', 'the new connection is closed', f.approx)
                            continue
                        res.ok('C16.reconnect')
                    elif act == 'failed':
                        if v is None:
                            res.bad('C16.failed', 'Reconnect returns no error although dialing failed', f.approx)
                            continue
                        res.ok('C16.failed')
                    else:
                        if not f.ghost.get(('c.closed', f.ghost['conn'])):
                            res.bad('C16.close', 'Close leaves the connection open (history %s)' % hist, f.approx)
                            continue
                        res.ok('C16.close')
                    f.outcome = f.result = None
                    out.append(f)
            states = out
        for s in states:
            s.trace = ()
            s.fails = ()
            s.vcs = ()
        return states


class HistoryUnit(LifeUnit):
    """one exact behaviour of one operation on the connection made by the last
    Reconnect of a history"""

    def __init__(self, W, S, cname, beh, hist, flagcase=None, n=None):
        ClientUnit.__init__(self, W, S, cname, beh, flagcase, n)
        self.hist = hist
        self.name += '/after ' + hist

    def run(self):
        I = self.W.interp()
        res = Result(self.name)
        t0 = time.time()
        if self.n is not None:
            res.bounded = 'key lists of length %s' % self.n
        # on a fresh client: what fails there is not a matter of the history
        base = Result(self.name)
        st, p, args, env = self.setup(I)
        self.exercise(I, base, st, p, args, env)
        broken = {k for k, v in base.obs.items() if v['fail'] or v['unknown']}
        for w in ((False, True) if self.hist == 'reconnect' else (True,)):
            I = self.W.interp()
            st, p, args, env = self.setup(I)
            install_hooks(self.W, I, st)
            h0 = I.models.ext['$io']

            def io(I, st, conn, kind, h0=h0):
                if st.ghost.get('inop'):
                    st.vcs += ('C16.newconn',)
                    if conn != st.ghost['conn']:
                        st.fail('C16.newconn', 'the operation uses another connection than the one of the last Reconnect')
                h0(I, st, conn, kind)
            I.models.ext['$io'] = io
            dirty(I, st, w)
            for s in self.history(I, res, st, p, self.hist):
                r = Result(self.name)
                self.exercise(I, r, s, p, args, env)
                res.paths += r.paths
                res.reach += r.reach
                res.unsupported += r.unsupported
                for k, v in r.obs.items():
                    if k in broken:
                        continue
                    nm = k if k.startswith('C16') else 'C16.after ' + k
                    o = res.obs.setdefault(nm, {'ok': 0, 'fail': 0, 'unknown': 0, 'msgs': []})
                    for x in ('ok', 'fail', 'unknown'):
                        o[x] += v[x]
                    o['msgs'] = (o['msgs'] + v['msgs'])[:5]
                res.models += [dict(m, ob=m['ob'] if m['ob'].startswith('C16') else 'C16.after ' + m['ob']) for m in r.models]
        res.time = time.time() - t0
        return res


class DeadlineUnit(ClientUnit):
    """the deadlines of one exact behaviour"""
    kind = 'deadline'


class ClosedUnit(LifeUnit):
    """one operation on a client that is closed: an error, no panic"""

    def __init__(self, W, S, cname, beh, hist, flagcase=None, n=None):
        ClientUnit.__init__(self, W, S, cname, beh, flagcase, n)
        self.hist = hist
        self.name = '%s%s%s/after %s' % (cname, ('/flags=' + flagcase) if flagcase else '', ('/n=%s' % n) if n is not None else '', hist)

    def run(self):
        W = self.W
        I = W.interp()
        res = Result(self.name)
        t0 = time.time()
        if self.n is not None:
            res.bounded = 'key lists of length %s' % self.n
        st, p, args, env = self.setup(I)

        def prep(s):
            spec.CURRENT['st'] = s
            ev = Ev(self.S, s, env, I)
            for q in self.c.requires:
                if not ev.truth(ev.ev(q.expr)):
                    raise Dead()
        starts = explore(I, st, prep)
        I.on_loop = loops.on_loop
        I.loop_policy = loops.unrolling_policy
        I.deadline = time.time() + 150
        for s, e in starts:
            if isinstance(e, tuple):
                res.unsupported.append(e[1])
                continue
            dirty(I, s, False)
            for h in self.history(I, res, s, p, self.hist):
                if self.hist == 'failed' and not h.ghost.get(('c.closed', h.ghost['conn'])):
                    # still connected: any operation on a connection (C06)
                    res.ok('C16.closed')
                    res.reach += 1
                    continue
                h.ghost['endmode'] = 'eof'
                n0 = len(h.fails)
                for f in W.call(I, h, self.method(self.op), args):
                    res.paths += 1
                    kind, info = f.outcome
                    if kind == 'unsupported':
                        res.unsupported.append(info)
                        continue
                    if not res.reach and f.sat() and not f.approx:
                        res.reach += 1
                    if kind != 'return':
                        res.bad('C16.closed', 'after %s the operation %s' % (self.hist, ('panics: %s' % info) if kind == 'panic' else 'does not return (%s)' % kind), f.approx)
                        continue
                    v = f.result[-1] if isinstance(f.result, tuple) else f.result
                    if v is None and self.hist != 'failed':
                        res.bad('C16.closed', 'after %s the operation returns no error %s' % (self.hist, self.where(f)), f.approx)
                    else:
                        res.ok('C16.closed')
        res.time = time.time() - t0
        return res


# ---------------------------------------------------------------- heartbeat
class Beat(Exception):
    pass


class BeatUnit:
    """the goroutine of the heartbeat, for all sequences of ticks, answers of
    the probes, results of reconnects, and moments of Close"""
    kind = 'beat'
    beh = None
    TICKS = 6

    def __init__(self, W, S, tname, mode):
        self.W, self.S, self.tname, self.mode = W, S, tname, mode
        self.name = '%s.heartbeat/%s' % (tname, mode)
        self.n = None

    def function(self):
        return 'client.heartbeat (%s)' % self.tname

    def meth(self, op):
        return '(*%s/client.%s).%s' % (MOD, self.tname, op)

    def build(self, I):
        W = self.W
        st = W.start(I)
        install_hooks(W, I, st)
        I.models.ext['$dial'] = dial_success
        d = z3.Int('interval')
        st.pc += [d >= 1, d <= 1 << 62]
        self.d = d
        O = MOD + '/client.ServerOption'
        rec = self.mode.startswith('reconnect')

        def opt(I, st, a, ins):
            v = st.load(a[0])
            v = st.setpath(v, (W.p.fieldidx(O, 'HeartbeatInterval'),), d)
            v = st.setpath(v, (W.p.fieldidx(O, 'EnableAutoReconnect'),), rec)
            st.store(a[0], v)
            return None
        I.models.ext['$opt'] = opt
        if self.mode.endswith('default'):
            fs = [FuncV(MOD + '/client.EnableHeartbeat', [])] + ([FuncV(MOD + '/client.EnableAutoReconnect', [])] if rec else [])
            self.d = None
        else:
            fs = [FuncV('$opt', [])]
        o = st.new(LArr([EL(f) for f in fs], MOD + '/client.ServerOpt'))
        args = [IfaceV('$ctx', None), lit('srv'), lit('tcp'), lit('addr:1'), SliceV(Ptr(o), 0, len(fs), len(fs))]
        return st, W.call(I, st, '%s/client.New%s' % (MOD, self.tname), args)

    def run(self):
        W = self.W
        I = W.interp()
        res = Result(self.name)
        t0 = time.time()
        st, outs = self.build(I)
        self.I, self.res = I, res
        for f in outs:
            if f.outcome[0] == 'unsupported':
                res.unsupported.append(f.outcome[1])
                continue
            if f.outcome[0] != 'return' or f.result[1] is not None:
                res.bad('C16.started', 'the client with a heartbeat is not constructed: %r' % (f.outcome,), f.approx)
                continue
            gos = [t for t in f.trace if t[0] == 'go']
            if not gos:
                res.bad('C16.started', 'no heartbeat is started', f.approx)
                continue
            res.ok('C16.started')
            if len(gos) > 1:
                res.unsupported.append('%d goroutines' % len(gos))
                continue
            p = f.result[0]
            self.p = p
            self.goroutine(I, res, f, p, gos[0])
        if res.paths == 0 and not res.unsupported and not any(v['fail'] for v in res.obs.values()):
            res.unsupported.append('no path of the heartbeat ends')
        res.time = time.time() - t0
        return res

    # -- events
    def fail(self, st, ob, msg):
        st.fail(ob, msg)

    def close(self, st, by):
        """the real Close"""
        st.ghost['hb.closed'] = st.ghost.get('hb.closed') or by
        return models.subcall(self.I, st, self.meth('Close'), [self.p])

    def ours(self, a):
        return isinstance(a, Ptr) and a.oid == self.p.oid

    def settle(self, st):
        """the tick that is over"""
        g = st.ghost
        if g.get('hb.phase') != 'tick':
            return
        g['hb.phase'] = None
        rec = self.mode.startswith('reconnect')
        st.vcs += ('C16.probe', 'C16.action', 'C16.stayclosed')
        if g.get('hb.closedbefore'):
            if g['hb.rec']:
                self.fail(st, 'C16.stayclosed', 'the heartbeat reconnects a client that has been closed')
        elif g['hb.probes'] == 0:
            self.fail(st, 'C16.probe', 'a tick passes without a probe')
        elif g['hb.last'] == 'closed':
            if g['hb.recafter']:
                self.fail(st, 'C16.stayclosed', 'the heartbeat reconnects a client that was closed during the probe')
        elif g['hb.last'] == 'err':
            if rec and not g['hb.rec']:
                self.fail(st, 'C16.action', 'a failed probe is not followed by a reconnect')
            if rec and g.get('hb.closed') == 'heartbeat':
                self.fail(st, 'C16.action', 'the client is closed although it is to be reconnected')
            if not rec and not g.get('hb.closed'):
                self.fail(st, 'C16.action', 'a failed probe is not followed by Close')
            if not rec and g['hb.rec']:
                self.fail(st, 'C16.action', 'the heartbeat reconnects although this is not enabled')
        else:
            if g['hb.rec'] or g.get('hb.closed') == 'heartbeat':
                self.fail(st, 'C16.action', 'the heartbeat reconnects or closes although the probe succeeded')

    def tick(self, st):
        g = st.ghost
        g['hb.phase'] = 'tick'
        g['hb.probes'] = g['hb.rec'] = g['hb.recafter'] = 0
        g['hb.last'] = None
        g['hb.closedbefore'] = g.get('hb.closed')
        if g.get('hb.closed'):
            g['hb.after'] = g.get('hb.after', 0) + 1

    def version(self, st, a, ins):
        g = st.ghost
        if not self.ours(a[0]):
            self.fail(st, 'C16.probe', 'probes another client')
        if g.get('held', ()):
            self.fail(st, 'C16.deadlock', 'the heartbeat probes while it holds a lock of the client')
        g['hb.probes'] = g.get('hb.probes', 0) + 1
        if g.get('hb.closed'):
            g['hb.last'] = 'closed' if g.get('hb.closedbefore') is None else 'err'
            return (EMPTY, st.err('$ioerr'))
        k = st.choose(4, 'probe')
        if k == 0:
            g['hb.last'] = 'ok'
            return (sym(st.fvar('version')), None)
        if k == 1:
            g['hb.last'] = 'err'
            return (EMPTY, st.err('$ioerr'))
        if k == 3:
            # the probe fails as soon as the connection is closed: Close has not returned yet
            st.ghost['hb.partial'] = True
            try:
                self.close(st, 'user')
                st.ghost['hb.partial'] = None
            except Stop as e:
                if e.kind != 'partial':
                    raise
            st.outcome = None
        else:
            self.close(st, 'user')
        st.ghost['hb.last'] = 'closed'
        return (EMPTY, st.err('$ioerr'))

    def reconnect(self, st, a, ins):
        g = st.ghost
        if not self.ours(a[0]):
            self.fail(st, 'C16.action', 'reconnects another client')
        if g.get('held', ()):
            self.fail(st, 'C16.deadlock', 'the heartbeat reconnects while it holds a lock of the client')
        g['hb.rec'] = g.get('hb.rec', 0) + 1
        if g.get('hb.closed'):
            g['hb.recafter'] = g.get('hb.recafter', 0) + 1
        if st.choose(2, 'reconnect fails') == 1:
            return st.err('*net.OpError')
        return None

    def closing(self, st, a, ins):
        if not self.ours(a[0]):
            self.fail(st, 'C16.action', 'closes another client')
        st.ghost['hb.partial'] = None
        return self.close(st, 'heartbeat')

    def interval(self, st, d):
        st.vcs += ('C16.interval',)
        if self.d is None:
            ok = isc(d) and d == 10 ** 9 or st.must(gt(d, 0))
        else:
            ok = st.must(eq(d, self.d))
        if not ok:
            self.fail(st, 'C16.interval', 'the interval of the probes is not the configured one')

    def goroutine(self, I, res, f, p, go):
        W = self.W
        st = f
        st.ghost['conn'] = st.ghost['conns'][-1]
        st.outcome = st.result = None
        st.trace = ()
        I.modular[self.meth('Version')] = lambda s, a, i: self.version(s, a, i)
        I.modular[self.meth('Reconnect')] = lambda s, a, i: self.reconnect(s, a, i)
        I.modular[self.meth('Close')] = lambda s, a, i: self.closing(s, a, i)

        def io(I, st, conn, kind):
            raise Unsupported('the heartbeat uses the connection directly')
        I.models.ext['$io'] = io

        cclose = models.CONTRACTS['($conn).Close']

        def connclose(I, st, a, ins):
            r = cclose(I, st, a, ins)
            if st.ghost.get('hb.partial'):
                raise Stop('partial')
            return r
        I.models.ext['($conn).Close'] = connclose

        def chan(st, d):
            o = st.new(Opaque('chan'))
            st.ghost[('chan', o)] = False
            st.ghost[('ticker', o)] = d
            return Ptr(o)

        def newticker(I, st, a, ins):
            self.interval(st, a[0])
            if st.decide(le(a[0], 0), 'interval'):
                raise GoPanic('non-positive interval for NewTicker')
            t = 'time.Timer' if 'Timer' in str(ins.get('type', '')) else 'time.Ticker'
            fs = [chan(st, a[0]) if x['name'] == 'C' else W.p.zero(x['type']) for x in W.p.under(t)['fields']]
            return Ptr(st.new(StructV(t, fs)))

        def after(I, st, a, ins):
            self.interval(st, a[0])
            return chan(st, a[0])

        def reset(I, st, a, ins):
            self.interval(st, a[1])
            return True

        def stop(I, st, a, ins):
            st.ghost['hb.stopped'] = st.ghost.get('hb.stopped', 0) + 1
            return True
        X = I.models.ext
        X['time.NewTicker'] = X['time.NewTimer'] = newticker
        X['time.After'] = X['time.Tick'] = after
        X['(*time.Ticker).Reset'] = X['(*time.Timer).Reset'] = reset
        X['(*time.Ticker).Stop'] = X['(*time.Timer).Stop'] = stop

        def isclosed(st, c):
            return isinstance(c, Ptr) and bool(st.ghost.get(('chan', c.oid)))

        def istick(st, c):
            return isinstance(c, Ptr) and ('ticker', c.oid) in st.ghost

        def wait(st, chans, blocking):
            """index of the channel that is ready"""
            if blocking:
                self.settle(st)
                if st.ghost.get('hb.partial'):
                    st.ghost['hb.partial'] = None
                    self.close(st, 'user')
            g = st.ghost
            # a select that does not block may come right after the probe, nothing happens in between
            if not g.get('hb.closed') and blocking and st.choose(2, 'Close while waiting') == 1:
                self.close(st, 'user')
            g = st.ghost
            ready = []
            for i, c in enumerate(chans):
                if isclosed(st, c):
                    ready.append(i)
                elif istick(st, c) and g.get('hb.after', 0) < 2:
                    if not blocking and not g.get('hb.closed'):
                        continue
                    ready.append(i)
                elif not istick(st, c) and isinstance(c, Ptr) and ('chan', c.oid) not in g:
                    raise Unsupported('a channel the heartbeat waits for')
            if not ready:
                if not blocking:
                    return -1
                if g.get('hb.closed'):
                    self.fail(st, 'C16.stops', 'the heartbeat does not stop after Close')
                else:
                    self.fail(st, 'C16.probing', 'the heartbeat waits for something that never happens')
                raise Stop('blocked', 'heartbeat')
            return ready[st.choose(len(ready), 'ready')]

        def select(I, st, fr, ins):
            chans = [I.val(st, fr, s['chan']) for s in ins['states']]
            if any(s['dir'] != 2 for s in ins['states']):
                raise Unsupported('select with a send')
            i = wait(st, chans, ins['blocking'])
            vals = []
            for j, s in enumerate(ins['states']):
                z = I.p.zero(I.p.under(s['chan']['t'])['elem'])
                vals.append(z)
            if i >= 0 and istick(st, chans[i]):
                self.tick(st)
            ok = i >= 0 and not isclosed(st, chans[i])
            return tuple([i, ok] + vals)

        def recv(st, c, ins):
            i = wait(st, [c], True)
            if istick(st, c):
                self.tick(st)
            return (I.p.zero(I.p.under(ins['x']['t'])['elem']), not isclosed(st, c))[0 if not ins['commaok'] else slice(None)]
        X['$select'] = select
        I.models.recv = recv

        def sleep(I, st, a, ins):
            self.interval(st, a[0])
            self.settle(st)
            if not st.ghost.get('hb.closed') and st.choose(2, 'Close while waiting') == 1:
                self.close(st, 'user')
            if st.ghost.get('hb.after', 0) >= 2:
                self.fail(st, 'C16.stops', 'the heartbeat does not stop after Close')
                raise Stop('blocked', 'heartbeat')
            self.tick(st)
            return None
        X['time.Sleep'] = sleep

        def on_loop(I, st):
            fr = st.frames[-1]
            blk = fr.blk
            blks = fr.fn['blocks']
            body = blks[blk]['loophead']
            defs = {i['reg'] for b in body for i in blks[b]['instrs'] if 'reg' in i}
            phis = any(i['op'] == 'Phi' for i in blks[blk]['instrs'])
            self_ = {k: v for k, v in fr.regs.items() if k not in defs}
            gh = {k: v for k, v in st.ghost.items() if isinstance(k, tuple) and k[0] in ('chan', 'c.closed') or
                  isinstance(k, str) and k.startswith('hb.')}
            seen = st.ghost.get('seen', ())
            n = 0
            for fn, b, dep, regs, heap, g in seen:
                if fn != fr.fn['name'] or b != blk or dep != len(st.frames):
                    continue
                n += 1
                if phis or {k: v for k, v in g.items() if k[0] != 'chan'} != {k: v for k, v in gh.items() if k[0] != 'chan'}:
                    continue
                if all(st.ghost.get(k) == v for k, v in g.items()) and all(k in self_ and self_[k] is v for k, v in regs.items()) \
                        and all(st.heap.get(o) is v for o, v in heap.items()):
                    st.outcome = ('cut', None)
                    st.frames = []
                    return [st]
            if n >= self.TICKS:
                res.bounded = 'heartbeats of %d ticks' % self.TICKS
                st.outcome = ('cut', None)
                st.frames = []
                return [st]
            st.ghost['seen'] = seen + ((fr.fn['name'], blk, len(st.frames), self_, dict(st.heap), gh),)
            return None
        I.on_loop = on_loop
        I.deadline = time.time() + 120
        _, fn, args, bound = go
        fd = W.p.funcs.get(fn[3:] if fn.startswith('$m ') else fn)
        if fd is None:
            res.unsupported.append('goroutine ' + fn)
            return
        if fn.startswith('$m '):
            args = (args[0].v,) + tuple(args[1:])
        I.push(st, fd, list(args), list(bound), None)
        for e in I.run(st):
            kind, info = e.outcome
            if kind == 'unsupported':
                res.unsupported.append(info)
                continue
            res.paths += 1
            if not res.reach and e.sat():
                res.reach += 1
            if kind == 'return':
                self.settle(e)
            bad = set()
            for ob, msg in e.fails:
                if not ob.startswith('C16'):
                    ob = 'C16.' + ob
                res.bad(ob, '%s [%s]' % (msg, '; '.join('%s=%s' % x for x in e.path)[-300:]), e.approx)
                bad.add(ob)
            for ob in set(e.vcs):
                if ob not in bad and ob.startswith('C16'):
                    res.ok(ob)
            if kind == 'return':
                if e.ghost.get('hb.closed'):
                    res.ok('C16.stops')
                else:
                    res.bad('C16.probing', 'the heartbeat ends although the client is not closed [%s]' % '; '.join('%s=%s' % x for x in e.path)[-300:], e.approx)
            elif kind == 'cut':
                res.ok('C16.probing')
            elif kind == 'panic':
                res.bad('C16.nopanic', 'the heartbeat panics: %s [%s]' % (info, '; '.join('%s=%s' % x for x in e.path)[-300:]), e.approx)
            elif kind != 'blocked':
                res.bad('C16.nopanic', 'the heartbeat ends the process (%s %s)' % (kind, info), e.approx)


def units(W, S, tier, want):
    out = []
    quick = tier == 'quick'
    for cn, c in S.contracts.items():
        if cn.split('.')[0] not in PROTOS:
            continue
        item = any(t == 'item' for _, t in c.params)
        keys = any(t == 'keys' for _, t in c.params)
        bs = [b for b in c.behaviors if not b.adversarial]
        for h in HISTORIES:
            # the first behaviour; every behaviour in the plain history
            for b in (bs if h == 'reconnect' or not quick else bs[:1]):
                out.append(HistoryUnit(W, S, cn, b, h, 'four' if item else None, 1 if keys else None))
        for h in CLOSED:
            for fc in (('four',) if quick else ('nil', 'empty', 'four')) if item else (None,):
                for n in ((2,) if quick else (0, 1, 2, 3)) if keys else (None,):
                    out.append(ClosedUnit(W, S, cn, bs[0], h, fc, n))
        for b in bs:
            for fc in ('nil', 'empty', 'four') if item else (None,):
                for n in (1, 2) if keys else (None,):
                    out.append(DeadlineUnit(W, S, cn, b, fc, n))
    for t in PROTOS:
        for m in ('reconnect', 'close', 'reconnect default', 'close default'):
            out.append(BeatUnit(W, S, t, m))
    return out
