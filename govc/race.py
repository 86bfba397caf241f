"""Close concurrent with everything else (C18).

Every access of a method of a client to memory that the methods share is
recorded with the locks that are held (for all paths, by the symbolic execution
of the method).  A location is guarded when every two conflicting accesses
hold a lock in common.  Then a method moves past another one except where it
synchronises: Close is put at each of these points, and nothing may panic."""
import time
import z3
from verify import *
import verify
import models
import loops
from engine import SliceV, MapV
import lifecases
from lifecases import StallUnit
from life import *

ATOMIC = ('sync/atomic.', '(*sync/atomic.')
SYNC = ('(*sync.Mutex).', '(*sync.RWMutex).', '(*sync.Once).', 'sync/atomic.', '(*sync/atomic.', '($conn).')
THREADSAFE = ('(*sync.', 'sync.', '($conn).', 'net.', '(*net.', 'context.', 'time.', '(*time.', 'log.', '(*log.')


class Recorder:
    def __init__(self, W, p):
        self.W, self.p = W, p
        self.acc = {}
        self.cache = None
        self.on = True
        self.methods = set()

    def names(self, st):
        c = self.cache
        if c is not None and all(st.heap.get(o) is v for o, v in c[1]) and c[2] == sum(1 for k in st.ghost if k[0] == 'global'):
            return c[0]
        out = {}
        order = []

        def field(t, i):
            u = self.W.p.under(t)
            fs = u.get('fields') if isinstance(u, dict) else None
            return fs[i]['name'] if fs and i < len(fs) else str(i)

        def reach(v, nm):
            work = [(v, nm)]
            while work:
                v, nm = work.pop(0)
                if isinstance(v, Ptr):
                    if v.oid in out:
                        continue
                    o = st.heap.get(v.oid)
                    out[v.oid] = nm
                    order.append(v.oid)
                    work.append((o, nm))
                elif isinstance(v, StructV):
                    for i, x in enumerate(v.f):
                        work.append((x, '%s.%s' % (nm, field(v.t, i) if not v.t.startswith('$') else i)))
                elif isinstance(v, IfaceV):
                    work.append((v.v, nm))
                elif isinstance(v, SliceV) and v.base is not None:
                    work.append((v.base, nm + '[]'))
                elif isinstance(v, LArr):
                    for x in v.a:
                        if isinstance(x, EL):
                            work.append((x.v, nm + '[]'))
                elif isinstance(v, FuncV):
                    for x in v.b:
                        work.append((x, nm + '()'))
                elif isinstance(v, MapV):
                    for k, x in v.e:
                        work.append((x, nm + '[]'))
        reach(self.p, 's')
        n = 0
        for k, o in list(st.ghost.items()):
            if k[0] == 'global':
                n += 1
                reach(Ptr(o), k[1])
        self.cache = (out, [(o, st.heap.get(o)) for o in order], n)
        return out

    def locname(self, st, p, nm):
        v = st.heap.get(p.oid)
        out = nm
        for e in p.path:
            if isinstance(v, StructV):
                u = self.W.p.under(v.t)
                out += '.' + u['fields'][e]['name']
                v = v.f[e]
            else:
                break
        return out

    def locks(self, st, names):
        out = []
        for h in st.ghost.get('held', ()):
            oid, path = h[0]
            if oid in names:
                out.append(['%s%s' % (names[oid], ''.join('.%s' % x for x in path)), bool(h[2])])
        for k in st.ghost.get('c18.locks', ()):
            out.append(list(k))
        return out

    def who(self, st):
        fn = st.frames[0].fn['name']
        return fn

    def access(self, st, p, mode, whole=False, extra=()):
        if not self.on or st.ghost.get('c18.off'):
            return
        names = self.names(st)
        nm = names.get(p.oid)
        if nm is None:
            return
        if isinstance(st.heap.get(p.oid), Opaque) and st.heap[p.oid].n in ('conn', 'chan'):
            return
        m = st.meta.get(p.oid)
        if m and m.get('owner') == 'caller':
            return
        loc = (nm, self.locname(st, p, nm)[len(nm):] if not whole else '')
        lk = self.locks(st, names) + [list(x) for x in extra]
        pos = None
        fr = st.frames[-1]
        try:
            pos = fr.fn['blocks'][fr.blk]['instrs'][fr.ip - 1].get('pos') or fr.fn['blocks'][fr.blk]['instrs'][fr.ip].get('pos')
        except Exception:
            pass
        key = (self.who(st), loc, mode, tuple(sorted(map(tuple, lk))))
        if key not in self.acc:
            self.acc[key] = '%s %s' % (fr.fn['name'].split('/')[-1], pos or '')

    def js(self):
        return [[k[0], list(k[1]), k[2], [list(x) for x in k[3]], v] for k, v in self.acc.items()]


class Calls:
    """calls of the library: accesses to shared objects, and points where another
    method may come in between"""

    def __init__(self, I, rec, inject):
        self.rec, self.inject = rec, inject
        orig = I.models.call
        origb = I.models.builtin
        me = self

        def call(I, st, n, args, ins, dest, cont, fn):
            n2 = n[3:] if n.startswith('$x ') else n
            base = n2[:-6] if n2.endswith('$bound') else n2
            al = list(fn.b) + args if n2.endswith('$bound') else args
            if inject is not None and (base.startswith(SYNC) or isinstance(al and al[0], IfaceV) and al[0].t == '$conn'):
                inject(I, st, base)
            me.lib(st, base, al)
            return orig(I, st, n, args, ins, dest, cont, fn)

        def builtin(I, st, n, a, ins):
            if n == 'close' and inject is not None:
                inject(I, st, 'close')
            return origb(I, st, n, a, ins)
        I.models.call = call
        I.models.builtin = builtin

    def lib(self, st, n, args):
        rec = self.rec
        if n.startswith(ATOMIC):
            if args and isinstance(args[0], Ptr):
                rec.access(st, args[0], 'w', extra=(('$atomic', True),))
            return
        if n.startswith('(*sync.Once).') and rec.on:
            raise Unsupported('the order that sync.Once establishes')
        if n.startswith(THREADSAFE):
            return
        for a in args:
            v = a.v if isinstance(a, IfaceV) else a
            if isinstance(v, Ptr):
                o = st.heap.get(v.oid)
                rec.access(st, v, 'w', whole=not v.path)
                if isinstance(o, StructV) and o.t == 'bufio.ReadWriter':
                    for x in o.f:
                        if isinstance(x, Ptr):
                            rec.access(st, x, 'w', whole=True)


class RaceUnit(StallUnit):
    """one operation, whatever the server sends: what it shares, and Close at
    every point where it synchronises"""
    kind = 'race'

    def __init__(self, W, S, cname, beh, flagcase=None, n=None, inner=None):
        StallUnit.__init__(self, W, S, cname, beh, flagcase, n)
        self.inner = inner
        self.name += '/with ' + inner if inner else '/shared'

    def setup(self, I):
        st, p, args, env = StallUnit.setup(self, I)
        self.rec = I.race = Recorder(self.W, p)
        self.p = p
        self.rec.on = self.inner is None
        Calls(I, self.rec, injector(self, I, p) if self.inner else None)
        if self.inner:
            io0 = I.models.ext['$io']

            def io(I, st, conn, kind):
                self.inj(I, st, 'io')
                io0(I, st, conn, kind)
            I.models.ext['$io'] = io
        return st, p, args, env

    def finish(self, I, res, f, p, env):
        if not res.reach and f.sat() and not f.approx:
            res.reach += 1
        outcome(res, f, self.inner)

    def run(self):
        r = StallUnit.run(self)
        r.acc = self.rec.js()
        return r


def injector(u, I, p):
    I.models.ext['$dial'] = verify.dial_any

    def inj(I, st, what):
        if st.ghost.get('c18.inj') or not st.frames or st.frames[0].fn['name'] != u.outer():
            return
        if st.choose(2, u.inner) == 0:
            return
        st.ghost['c18.inj'] = True
        was = st.ghost.get('inop')
        st.ghost['inop'] = None
        n0, v0 = st.fails, st.vcs
        try:
            run_inner(u, I, st, p)
        except Stop as e:
            if e.kind in ('deadlock', 'blocked'):
                raise Dead()
            raise
        st.fails, st.vcs = n0, v0 + ('C18.nopanic',)
        st.outcome = st.result = None
        st.ghost['inop'] = was
    u.inj = inj
    return inj


def run_inner(u, I, st, p):
    return models.subcall(I, st, '(*%s/client.%s).%s' % (MOD, u.tname, u.inner), [p])


def outcome(res, f, inner):
    kind, info = f.outcome
    if kind == 'unsupported':
        res.unsupported.append(info)
        return
    if any(t[0] == 'go' for t in f.trace):
        res.unsupported.append('a method that starts a goroutine')
        return
    if inner is None:
        return
    for ob, msg in f.fails:
        if ob == 'C08.double' or ob == 'C08.unlock':
            res.bad('C18.nopanic', msg, f.approx)
    if not f.ghost.get('c18.inj'):
        return
    if kind == 'panic':
        res.bad('C18.nopanic', '%s at the same time: panic: %s' % (inner, info), f.approx)
    elif kind in ('deadlock', 'fatal') or kind == 'return' and f.ghost.get('held', ()):
        res.bad('C18.nopanic', '%s at the same time: the method does not return' % inner, f.approx)
    else:
        res.ok('C18.nopanic')


class LifeRaceUnit(LifeUnit):
    """Close, Reconnect and Name"""
    kind = 'race'
    beh = None
    n = None

    def __init__(self, W, S, tname, op, hist, inner=None):
        self.W, self.S, self.tname, self.op, self.hist, self.inner = W, S, tname, op, hist, inner
        self.cname = '%s.%s' % (tname, op)
        self.name = '%s/after %s/%s' % (self.cname, hist or 'start', 'with ' + inner if inner else 'shared')

    def function(self):
        return 'client.' + self.cname

    def outer(self):
        return self.method(self.op)

    def run(self):
        res = Result(self.name)
        t0 = time.time()
        res.acc = []
        I = self.W.interp()
        st = self.W.start(I)
        install_hooks(self.W, I, st)
        st, p, name = make_receiver(self.W, I, st, self.tname)
        st.ghost['conn'] = st.ghost['conns'][-1]
        for s in (self.history(I, Result('x'), st, p, self.hist) if self.hist else [st]):
            I = self.W.interp()
            install_hooks(self.W, I, s)
            I.models.ext['$dial'] = dial_any
            rec = I.race = Recorder(self.W, p)
            rec.on = self.inner is None
            Calls(I, rec, injector(self, I, p) if self.inner else None)
            s.ghost['endmode'] = 'eof'
            s.ghost['faults'] = True
            s.ghost[('c.in', s.ghost['conn'])] = EMPTY
            s.I = I
            I.on_loop = loops.on_loop
            I.loop_policy = loops.adversarial_policy
            I.deadline = time.time() + 120
            for f in self.W.call(I, s, self.method(self.op), [p]):
                res.paths += 1
                if not res.reach and f.sat() and not f.approx:
                    res.reach += 1
                outcome(res, f, self.inner)
            res.acc += rec.js()
        res.time = time.time() - t0
        return res


RaceUnit.outer = lambda self: '(*%s/client.%s).%s' % (MOD, self.tname, self.op)


class BeatRaceUnit(BeatUnit):
    """what the goroutine of the heartbeat itself shares"""
    kind = 'race'
    op = 'heartbeat'

    def __init__(self, W, S, tname, mode):
        BeatUnit.__init__(self, W, S, tname, mode)
        self.cname = tname + '.heartbeat'
        self.name += '/shared'
        self.inner = None

    def goroutine(self, I, res, f, p, go):
        I.race = Recorder(self.W, p)
        Calls(I, I.race, None)
        r = Result('x')
        BeatUnit.goroutine(self, I, r, f, p, go)
        res.paths += r.paths
        res.reach += r.reach
        res.unsupported += r.unsupported
        res.acc = I.race.js()

    def run(self):
        r = BeatUnit.run(self)
        r.obs = {}
        if not hasattr(r, 'acc'):
            r.acc = []
        return r


class Shared:
    """the locations of one client: every two conflicting accesses hold a lock in common"""
    kind = 'shared'
    beh = None

    def __init__(self, tname):
        self.tname = tname
        self.name = tname + '.shared memory'
        self.op = self.cname = tname

    def function(self):
        return 'client.%s (all methods)' % self.tname


def overlap(a, b):
    if a[0] != b[0]:
        return False
    x, y = a[1], b[1]
    return x == y or x.startswith(y + '.') or y.startswith(x + '.') or x == '' or y == ''


def guarded(a, b):
    la = dict(map(tuple, a[3]))
    for n, e in b[3]:
        if n in la and (e or la[n]) and not (a[2] == 'w' and not la[n]) and not (b[2] == 'w' and not e):
            return True
    la, lb = {n for n, e in a[3]}, {n for n, e in b[3]}
    return a[2] == 'r' and b[2] == 'r'


def short(m):
    return m.split('.')[-1]


def combine(units, res):
    """[(unit, result)]: obligations over the accesses of all the methods"""
    out = []
    for t in PROTOS:
        us = [u for u in units if u.kind == 'race' and u.tname == t]
        if not us:
            continue
        r = Result(t + '.shared memory')
        acc = {}
        for u in us:
            j = res.get(u.name, {})
            if 'acc' not in j:
                r.unsupported.append('no accesses of ' + u.name)
            for a in j.get('acc', []):
                acc[(a[0], tuple(a[1]), a[2], tuple(map(tuple, a[3])))] = a
        acc = list(acc.values())
        locs = {}
        for a in acc:
            locs.setdefault(a[1][0] + a[1][1], []).append(a)
        for name, as_ in sorted(locs.items()):
            ob = 'C18.guarded ' + name
            if all(a[2] == 'r' for a in as_) and not any(b[2] == 'w' and overlap(a[1], b[1]) for a in as_ for b in acc):
                r.ok(ob)
                continue
            for a in as_:
                for b in acc:
                    if not overlap(a[1], b[1]) or (a[2] == 'r' and b[2] == 'r'):
                        continue
                    if guarded(a, b):
                        r.ok(ob)
                    else:
                        def show(x):
                            return '%s %s (%s) with %s' % (short(x[0]), 'writes' if x[2] == 'w' else 'reads', x[4],
                                                           ' and '.join(n for n, _ in x[3]) or 'no lock')
                        r.bad(ob, 'data race on %s: %s, %s' % (name, show(a), show(b)), ())
        r.reach = 1 if acc else 0
        r.paths = len(acc)
        j = r.js()
        j.update(solver_s=0, solver_calls=0, solver_unknown=0, used=[], acc=[])
        out.append((Shared(t), j))
    return out


def units(W, S, tier, want):
    out = []
    for cn, c in S.contracts.items():
        t = cn.split('.')[0]
        if t not in PROTOS:
            continue
        for b in c.behaviors:
            if b.adversarial:
                for f in ('nil', 'four') if any(ty == 'item' for _, ty in c.params) else (None,):
                    out.append(RaceUnit(W, S, cn, b, f, None))
                    out.append(RaceUnit(W, S, cn, b, f, None, inner='Close'))
    for t in PROTOS:
        for h in ('', 'close', 'failed', 'close,reconnect'):
            for op in ('Close', 'Reconnect', 'Name'):
                out.append(LifeRaceUnit(W, S, t, op, h))
            for op in ('Close', 'Reconnect'):
                for inner in ('Close', 'Reconnect', 'Version'):
                    out.append(LifeRaceUnit(W, S, t, op, h, inner))
        for m in ('reconnect', 'close'):
            out.append(BeatRaceUnit(W, S, t, m))
    return out


# ---------------------------------------------------------------- concrete
def build_race(W, S, units, seed, count):
    K = lifecases.Concrete(W, S)
    cases = []
    seen = set()
    more = 1 if count <= 40 else 8
    for u in units:
        if not isinstance(u, RaceUnit) or u.cname in seen:
            continue
        seen.add(u.cname)
        rnd = lifecases.random.Random('%s/%s' % (seed, u.name))
        item = 'four' if any(t == 'item' for _, t in u.c.params) else None
        n = 2 if any(t == 'keys' for _, t in u.c.params) else None
        b = [b for b in u.c.behaviors if not b.adversarial][0]
        cs = lifecases.steps_of(K, ClientUnit(W, S, u.cname, b, item, n), rnd, 4)
        cs = [c for c in cs if c['data']['steps'][0]['expect'] and len(c['data']['steps'][0]['reply']) < 4000]
        if not cs:
            continue
        st = cs[0]['data']['steps'][0]
        pr = lifecases.PROTO[u.tname]
        pairs = [('op', 'close', ''), ('op', 'reconnect', ''), ('op', 'op', '')]
        if u.op == 'Version':
            pairs += [('close', 'close', ''), ('close', 'reconnect', ''), ('reconnect', 'reconnect', ''), ('close', 'reconnect', 'close'),
                      ('op', 'reconnect', 'close'), ('close', 'close', 'reconnect')]
        for a, c, bf in pairs:
            d = {'proto': pr, 'step': st, 'a': a, 'b': c, 'before': bf, 'rounds': 3 * more}
            cases.append(dict(cs[0], kind='race', data=d, unit=u))
    return K, cases


def judge_race(K, case, r):
    d = case['data']
    what = '%s and %s of a %s client at the same time%s' % (d['step']['op'] if d['a'] == 'op' else d['a'], d['step']['op'] if d['b'] == 'op' else d['b'],
                                                           d['proto'], ', after ' + d['before'] if d['before'] else '')
    if 'setup' in r:
        return [('?setup', r['setup'])]
    if 'crash' in r:
        if 'DATA RACE' in r['crash']:
            return [('C18.guarded', what + ': ' + r['crash'])]
        return [('C18.nopanic', what + ': ' + r['crash'])]
    if r.get('panic'):
        return [('C18.nopanic', what + ': panic: ' + r['panic'])]
    if r.get('blocked'):
        return [('C18.nopanic', what + ': does not return')]
    return []


lifecases.concrete.BUILDERS['race'] = build_race
lifecases.concrete.JUDGES['race'] = judge_race
