"""Units of the server: the real Server.Serve is run on a connection that
carries the request of a contract followed by a second request, with a handler
that returns the answer of the contract."""
import itertools
import os
import time
import z3
from terms import *
from rope import *
from engine import *
import engine
import models
import spec
from spec import Ev, Fam, SpecError
import loops
from verify import *
import verify

SRVT = MOD + '/server.'


def wrap64(st, n):
    """an unsigned 64-bit number as int64"""
    if isc(n):
        return n - (1 << 64) if n >= 1 << 63 else n
    return n if st.decide(lt(n, 1 << 63)) else sub(n, 1 << 64)


class Refuse:
    def __init__(self, msg):
        self.msg = msg


class AnsEv(Ev):
    """expressions over answers of the handler"""

    def f_item(self, k, flags, v, cas, ttl):
        return {'Key': self.rope(k), 'Error': None, 'Flags': None if flags is None else self.rope(flags), 'Value': self.rope(v),
                'Cas': wrap64(self.st, cas), 'TTL': ttl}

    def f_done(self, cas):
        return {'Key': EMPTY, 'Error': None, 'Flags': None, 'Value': None, 'Cas': wrap64(self.st, cas), 'TTL': 0}

    def f_value(self, v):
        return {'Key': EMPTY, 'Error': None, 'Flags': None, 'Value': self.rope(v), 'Cas': 0, 'TTL': 0}

    def f_fail(self, e):
        return {'Key': EMPTY, 'Error': e, 'Flags': None, 'Value': None, 'Cas': 0, 'TTL': 0}

    def f_other(self, msg):
        return ('plain', self.rope(msg))

    def f_mcerr(self, status, msg):
        return ('mcerr', status, self.rope(msg))

    def f_refuse(self, msg):
        return Refuse(self.rope(msg))

    def e_Constant(self, e, env):
        if e.value is None:
            return None
        return Ev.e_Constant(self, e, env)


def response(I, st, a):
    """the *Response of an answer"""
    t = SRVT + 'Response'

    def byteslice(r):
        if r is None:
            return NILSLICE
        n = rlen(r)
        return SliceV(Ptr(st.new(BArr(r), owner='answer', what='bytes of the answer of the handler')), 0, n, n)
    e = a['Error']
    if isinstance(e, tuple):
        e = mkerr(I, st, e)
    vals = dict(a, Error=e, Flags=byteslice(a['Flags']), Value=byteslice(a['Value']))
    fs = [vals[f['name']] if f['name'] in vals else I.p.zero(f['type']) for f in I.p.under(t)['fields']]
    return Ptr(st.new(StructV(t, fs), owner='answer', what='the answer of the handler'))


def mkerr(I, st, e):
    if e[0] == 'plain':
        return st.err('*errors.errorString', e[1])
    t = MOD + '/errors.MemcachedError'
    vals = {'Status': e[1], 'Message': e[2]}
    fs = [vals[f['name']] if f['name'] in vals else I.p.zero(f['type']) for f in I.p.under(t)['fields']]
    return IfaceV('*' + t, Ptr(st.new(StructV(t, fs))))


def shot(I, st, v, t):
    """deep value of a request"""
    d = I.p.under(t)
    if d['kind'] == 'pointer':
        return None if v is None else shot(I, st, st.load(v), d['elem'])
    if d['kind'] == 'struct':
        return {f['name']: shot(I, st, x, f['type']) for f, x in zip(d['fields'], v.f)}
    if d['kind'] == 'slice':
        if v.base is None:
            return EMPTY if I.p.isbyte(d['elem']) else []
        if I.p.isbyte(d['elem']):
            return st.srope(v)
        out = []
        for x in st.slist(v).a:
            if not isinstance(x, EL):
                raise Unsupported('list in a request')
            out.append(shot(I, st, x.v, d['elem']))
        return out
    return v


class ServerUnit:
    kind = 'server'

    def __init__(self, W, S, cname, beh, n=None, letters=None, second=True, first=False):
        self.W, self.S, self.cname, self.beh = W, S, cname, beh
        self.c = S.contracts[cname]
        self.n, self.letters, self.first = n, letters, first
        self.precise = False
        self.flagcase = None
        self.binary = '.binary_' in cname
        self.name = cname + '/' + beh.name + ('/n=%s' % n if n is not None else '') + \
            ('/letters=%s' % letters if letters is not None else '') + ('/after' if first else '')

    def function(self):
        return 'server.Server.Serve (%s)' % self.cname.split('.')[1]

    @property
    def malformed(self):
        return 'malformed' in self.c.extra

    @property
    def closing(self):
        return 'close' in self.beh.extra

    # ---- the fixed request before or behind the one of the contract
    def other(self, st, I, key, nm):
        """(request, request value, reply test)"""
        w = mkvar(I, st, nm, 'bytes')
        if self.binary:
            ev = Ev(self.S, st, {'w': w}, I)
            r = ev.ev(spec.ast.parse('qreq(1, "%s", be32(7) + be32(0), w, 0, 0)' % key, mode='eval').body)
        else:
            r = cat(lit(b'set %s 7 0 ' % key.encode()), Ev(self.S, st, {}, I).f_dec(rlen(w)), lit(b'\r\n'), w, lit(b'\r\n'))
        return st.norm(r), w

    def run(self):
        I = self.W.interp()
        res = Result(self.name)
        t0 = time.time()
        if self.n is not None:
            res.bounded = 'key lists of length %s' % self.n
        self.env0 = {}
        st = self.W.start(I)
        st.ghost['endmode'] = 'eof'
        I.go_policy = 'run'
        I.on_loop = loops.on_loop
        I.max_steps = 4000000
        adv = self.beh.adversarial
        env = {}
        if self.n is not None:
            env['n'] = self.n
        if self.letters is not None:
            env['letters'] = [lit(c.encode()) for c in self.letters]
        for nm, ty in self.c.params:
            if ty == 'keys':
                v, env[nm] = mkkeys(self.W, I, st, nm, self.n)
            else:
                env[nm] = mkvar(I, st, nm, ty)
        conn = conn_of(I, st)
        st.ghost['conn'] = conn
        self.install(I, conn)

        def prep(s):
            spec.CURRENT['st'] = s
            e = dict(env)
            for nm, ty in self.beh.vars:
                e[nm] = mkvar(I, s, nm, ty)
            if adv:
                rq = mkvar(I, s, 'input', 'bytes')
                s.ghost['faults'] = True
                e['input'] = rq
            else:
                ev = AnsEv(self.S, s, e, I)
                for q in self.c.requires + self.beh.when:
                    if not ev.truth(ev.ev(q.expr)):
                        raise Dead()
                rq = ev.rope(ev.ev(self.c.request.expr))
                s.ghost['answer'] = ev.ev(self.beh.answer.expr)
                e['request'] = rq
                r2, w2 = self.other(s, I, 'zz', 'w2')
                s.ghost['second'] = w2
                e['$w2'] = w2
                if self.first:
                    r1, w1 = self.other(s, I, 'yy', 'w1')
                    s.ghost['before'] = w1
                    e['$w1'] = w1
                    rq = cat(r1, rq)
                if not self.closing:
                    rq = cat(rq, r2)
                s.ghost['next'] = rlen(s.norm(r2))
            s.ghost[('c.in', conn)] = s.norm(rq)
            if not s.sat():
                raise Dead()
            return e
        try:
            starts = explore(I, st, prep)
        except Unsupported as ex:
            res.unsupported.append(str(ex))
            starts = []
        else:
            if not starts:
                res.bad('vacuous', 'the behaviour has no instances')
        if adv:
            I.maxsplit = 2
            I.coarse = True
            I.variants = 'C13.variant'
        self.base = None

        def policy(I, s, fr, blk):
            if adv and not fr.fn['name'].endswith('.Serve'):
                return 0, None
            return None, 300
        I.loop_policy = policy
        for s, e in starts:
            if isinstance(e, tuple):
                res.unsupported.append(e[1])
                continue
            t = SRVT + 'Server'
            fs = [IfaceV('$handler', None) if f['name'] == 'Handler' else I.p.zero(f['type']) for f in I.p.under(t)['fields']]
            p = Ptr(s.new(StructV(t, fs)))
            I.shared = dict(self.W.shared)
            I.shared[p.oid] = 'the Server'
            I.deadline = time.time() + (420 if adv else 200)
            I.max_paths = 200000 if adv else 4000
            try:
                ends = self.W.call(I, s, '(*%sServer).Serve' % SRVT, [p, IfaceV('$listener', None)])
            except Unsupported as ex:
                res.unsupported.append(str(ex))
                continue
            for f in ends:
                res.paths += 1
                n0 = {k: v['fail'] for k, v in res.obs.items()}
                if not res.reach and f.outcome[0] == 'return' and f.sat() and not f.approx:
                    res.reach += 1
                self.finish(I, res, f, e)
                new = [k for k, v in res.obs.items() if v['fail'] > n0.get(k, 0)]
                new = [k for k in new if sum(1 for m in res.models if m['ob'] == k) < 3]
                if new and len(res.models) < 12:
                    m = counterexample(f, e, self)
                    if m is not None:
                        for k in new:
                            res.models.append({'ob': k, 'env': m})
        res.time = time.time() - t0
        return res

    # ---- the world of the server
    def install(self, I, conn):
        ext = I.models.ext
        adv = self.beh.adversarial

        def accept(I, st, a, ins):
            if st.ghost.get('accepted'):
                return (None, st.err('*net.OpError'))
            st.ghost['accepted'] = True
            return (IfaceV('$conn', Ptr(conn)), None)
        ext['($listener).Accept'] = accept
        ext['($listener).Close'] = lambda I, st, a, ins: None
        ext['($listener).Addr'] = lambda I, st, a, ins: IfaceV('$addr', None)

        def io(I, st, c, kind):
            if kind == 'r':
                st.vcs += ('C13.reads',)
                if st.ghost.get(('c.closed', c)):
                    st.fail('C13.reads', 'reads a connection it has closed')
                elif st.ghost.get('io_failed'):
                    st.fail('C13.reads', 'reads a connection that has failed or ended')
        ext['$io'] = io

        def unflushed(I, st, o, p):
            st.fail('C14.flush', 'reads on while reply bytes are not flushed')
        ext['$unflushed'] = unflushed

        def serve(I, st, a, ins):
            p = a[1]
            if p is None:
                raise GoPanic('the handler is given no request')
            out = cat(st.norm(st.ghost[('c.out', conn)]), *[st.norm(v) for k, v in st.ghost.items()
                                                            if isinstance(k, tuple) and k[0] == 'w.pend' and st.ghost[('w.dst', k[1])] == conn])
            if adv:
                self.join(I, st, p, conn)
                return self.anyanswer(I, st)
            r = shot(I, st, p, '*' + SRVT + 'Request')
            n = len(st.ghost.get('reqs', ()))
            if n >= (1 if self.first else 0) + 2:
                st.fail('C12.count', 'the handler is called %d times, more often than there are requests' % (n + 1))
                raise Stop('cut', None)
            st.ghost['reqs'] = st.ghost.get('reqs', ()) + ((r, p, out, rlen(st.norm(st.ghost[('c.in', conn)]))),)
            want = st.ghost['answer']
            if n != (1 if self.first else 0):
                want = [{'Key': EMPTY, 'Error': None, 'Flags': None, 'Value': None, 'Cas': 0, 'TTL': 0}]
            if isinstance(want, Refuse):
                return (NILSLICE, st.err('*errors.errorString', want.msg))
            l = [response(I, st, x) for x in want]
            return (st.mklist(l, '*' + SRVT + 'Response', owner='answer', what='the answer of the handler') if l else NILSLICE, None)
        ext['($handler).ServeRequest'] = serve

    def join(self, I, st, p, conn):
        """the handler boundary: the request is replaced by an arbitrary one of its
        shape, what follows is explored once for each shape"""
        memo, key = {}, []
        old, more = rlen(st.norm(st.ghost[('c.in', conn)])), st.fvar('more')
        if 'mark.in' in st.ghost:
            # every request takes input: the loop over the requests ends with it
            st.vcs += ('C13.variant',)
            if not st.must(lt(old, st.ghost['mark.in'])):
                st.fail('C13.variant', 'the handler is called again although no input has been consumed')
        st.assume(le(more.ln, old))
        st.ghost[('c.in', conn)] = sym(more)
        st.ghost.pop(('c.used', conn), None)

        def gen(v, t):
            d = I.p.under(t)
            k = d['kind']
            if k == 'pointer':
                if v is None:
                    key.append('nil')
                    return None
                if v.path:
                    raise Unsupported('pointer into an object')
                if v.oid not in memo:
                    memo[v.oid] = True
                    key.append('ptr')
                    st.heap[v.oid] = gen(st.heap[v.oid], d['elem'])
                return v
            if k == 'struct':
                return StructV(v.t, [gen(x, f['type']) for x, f in zip(v.f, d['fields'])])
            if isinstance(v, Rope):
                return sym(st.fvar('any'))
            if k == 'slice':
                if v.base is None:
                    key.append('nil')
                    return v
                if I.p.isbyte(d['elem']):
                    n = v.ln if isc(v.ln) else None
                    x = st.fvar('any')
                    if n is not None:
                        st.assume(eq(x.ln, n))
                    key.append(('bytes', n))
                    return SliceV(Ptr(st.new(BArr(sym(x)))), 0, x.ln, x.ln)
                if I.p.uname(d['elem']) == 'string':
                    key.append('strings')
                    n = st.fint('anycount', 0, 1 << 40)
                    nm = st.fresh('anys')
                    f = z3.Function('len_' + nm, z3.IntSort(), z3.IntSort())

                    def at(i, nm=nm, f=f):
                        s = spec.CURRENT['st']
                        return sym(Var(nm, ALL, f(T(i)), (i,)))
                    return SliceV(Ptr(st.new(lmk([LSeg(Gen(nm, at, key=('anys', nm)), 0, n)], 'string'))), 0, n, n)
                raise Unsupported('slice')
            if isinstance(v, bool) and not self.precise:
                key.append('bool')
                return st.fbool('any')
            if isinstance(v, bool) or isc(v) and (self.precise or '.' in t):
                key.append(v)               # a constant of a named type (the opcode)
                return v
            if isc(v):
                key.append('int')
                return st.fint('any', *irange(I.p.uname(t)))
            if z3.is_expr(v) and z3.is_bool(v):
                key.append('bool')
                return st.fbool('any')
            if z3.is_expr(v):
                key.append('int')
                return st.fint('any', *irange(I.p.uname(t)))
            raise Unsupported('value')

        def shape(v, seen, d=0):
            if isinstance(v, Ptr):
                if v.oid in seen or v.oid in memo:
                    return ('p', seen.get(v.oid, 'req'), v.path)
                seen[v.oid] = len(seen)
                return ('o', shape(st.heap.get(v.oid), seen, d + 1), v.path)
            if isinstance(v, StructV):
                return ('s', v.t) + tuple(shape(x, seen, d + 1) for x in v.f)
            if isinstance(v, IfaceV):
                return ('i', v.t, shape(v.v, seen, d + 1))
            if isinstance(v, Rope):
                c = v.concrete()
                if c is None:
                    raise Unsupported('symbolic text')
                return c
            if isinstance(v, SliceV):
                if v.base is None:
                    return 'nil'
                if not (isc(v.off) and isc(v.ln) and isc(v.cap)):
                    raise Unsupported('symbolic slice')
                return ('sl', shape(v.base, seen, d + 1), v.off, v.ln, v.cap)
            if isinstance(v, BArr):
                return shape(v.r, seen, d + 1)
            if isinstance(v, FuncV):
                return ('f', v.n) + tuple(shape(x, seen, d + 1) for x in v.b)
            if isinstance(v, tuple):
                return tuple(shape(x, seen, d + 1) for x in v)
            if v is None or isinstance(v, (bool, int, str, bytes)):
                return v
            if isinstance(v, Opaque):
                return ('q', v.n)
            raise Unsupported('value %r' % (v,))
        s0 = st.clone()
        try:
            gen(p, '*' + SRVT + 'Request')
            seen = {}
            for fr in st.frames:
                key.append((fr.fn['name'], fr.blk, fr.ip, tuple(sorted(fr.loops.items(), key=repr))))
                live = [r for r in fr.regs if not dead(fr, r)]
                key.append(tuple((r, shape(fr.regs[r], seen)) for r in sorted(live)))
            key.append(tuple(repr(v) for k, v in sorted(((str(k), v) for k, v in st.ghost.items() if isinstance(k, str)), key=repr)
                             if isinstance(v, (bool, int, str))))
            key.append(tuple((o, shape(st.heap[o], seen)) for o in self.W.base.heap if st.heap[o] is not self.W.base.heap[o]))
            for g, v in sorted(st.ghost.items(), key=lambda x: repr(x[0])):
                if isinstance(g, tuple) and not (isinstance(g[0], str) and (g[0][:2] in ('c.', 'r.', 'w.') or g[0] in (
                        'stderr', 'global', 'replaced', 'idxlen'))):
                    key.append((repr(g), repr(v) if isinstance(v, (bool, int, str, tuple)) or v is None else shape(v, seen)))
            pend = [st.norm(v) for k, v in st.ghost.items() if isinstance(k, tuple) and k[0] == 'w.pend']
            key.append((any(x.a for x in pend), [k for k in st.ghost if isinstance(k, tuple) and k[0] == 'w.err'].__len__(),
                        bool(st.ghost.get(('c.closed', conn)))))
        except Unsupported as e:
            if os.environ.get('VERIF_DEBUG'):
                print('no join:', e)
            st.heap, st.ghost, st.pc = s0.heap, s0.ghost, s0.pc
            return
        m = I.models
        d = len(st.frames)
        m.seendepth = d if m.seendepth is None else min(d, m.seendepth)
        k = repr(key)
        if k in m.seen:
            raise Stop('cut', None)
        m.seen.add(k)

    def anyanswer(self, I, st):
        if st.choose(2, 'the handler refuses') == 1:
            return (NILSLICE, st.err('*errors.errorString', sym(st.fvar('errmsg'))))
        nm = st.fresh('answers')
        n = st.fint('responses', 0, 1 << 40)

        def mat(s, i):
            k = ('piece', nm, tkey(i))
            if k not in s.ghost:
                kind = s.choose(4, 'response')
                if kind == 0:
                    e = None
                elif kind == 1:
                    e = IfaceV('*' + MOD + '/errors.MemcachedError', s.load(I.globalptr(s, MOD + '/errors.ItemNotFound')))
                elif kind == 2:
                    e = ('mcerr', s.fint('status', 0, 65535), sym(s.fvar('errmsg')))
                else:
                    e = ('plain', sym(s.fvar('errmsg')))
                s.ghost[k] = response(I, s, {'Key': sym(s.fvar('akey')), 'Error': e, 'Flags': sym(s.fvar('aflags')),
                                             'Value': sym(s.fvar('avalue')), 'Cas': s.fint('acas', -(1 << 63), (1 << 63) - 1),
                                             'TTL': s.fint('attl', -(1 << 63), (1 << 63) - 1)})
            return s.ghost[k]
        l = lmk([LSeg(Gen(nm, None, key=nm, info={'mat': mat}), 0, n)], '*' + SRVT + 'Response')
        return (SliceV(Ptr(st.new(l)), 0, n, n), None)

    # ---- obligations
    def finish(self, I, res, f, env):
        kind, info = f.outcome
        conn = f.ghost['conn']
        bad = set()
        for ob, msg in f.fails:
            if ob.startswith('shared.'):
                # it has happened by now, whatever follows
                for t in ('C12', 'C14'):
                    res.bad(t + '.shared', msg + ' ' + self.where(f), f.approx)
                    bad.add(t + '.shared')
                continue
            if kind == 'unsupported':
                continue
            ob = ob if ob[0] == 'C' else 'C13.' + ob
            res.bad(ob, msg + ' ' + self.where(f), f.approx)
            bad.add(ob)
        if kind == 'unsupported':
            res.unsupported.append(info)
            return
        for ob in list(set(f.vcs)) + ([] if self.beh.adversarial else ['C12.shared', 'C14.shared']):
            if ob not in bad:
                res.ok(ob)
        if kind == 'cut':
            return
        if kind != 'return':
            res.bad('C13.nopanic', '%s: %s %s' % (kind, info, self.where(f)), f.approx)
            self.noreturn(res, '%s: %s' % (kind, info), f)
            return
        res.ok('C13.nopanic')
        if f.ghost.get(('c.closed', conn)):
            res.ok('C13.closed')
        else:
            res.bad('C13.closed', 'the connection is left open when it is no longer served ' + self.where(f), f.approx)
        if self.beh.adversarial:
            return
        reqs = f.ghost.get('reqs', ())
        b = 1 if self.first else 0
        if self.malformed:
            left = reqs[b][3] if len(reqs) > b else rlen(f.norm(f.ghost[('c.in', conn)]))
            self.ob(res, f, 'C13.malformed', f.must(le(f.ghost['next'], left)),
                    'a malformed request is neither handed to the handler nor ends the connection: the server goes on with the input behind it')
            return
        expect = b + 1 + (0 if self.closing else 1)
        self.ob(res, f, 'C12.count', len(reqs) == expect, 'the handler is called %d times for %d requests' % (len(reqs), expect))
        if len(reqs) <= b:
            self.noreturn(res, 'the handler is not given the request', f)
            return
        self.ob(res, f, 'C14.flush', not any(f.norm(v).a for k, v in f.ghost.items() if isinstance(k, tuple) and k[0] == 'w.pend'),
                'reply bytes are left in the write buffer')
        out = f.norm(f.ghost[('c.out', conn)])
        try:
            start = reqs[b][2]
            cut = rlen(f.norm(start))
            end = reqs[b + 1][2] if len(reqs) > b + 1 else out
            reply = f.sub_rope(f.norm(end), cut, rlen(f.norm(end)))
            rest = f.sub_rope(out, rlen(f.norm(end)), rlen(out))
        except Unsupported as e:
            res.unsupported.append('reply: %s' % e)
            return
        env = dict(env)
        env['reqs'] = [x[0] for x in reqs[b:]]
        env['reply'] = reply
        for i, w in ((0, f.ghost.get('before')) if self.first else (None, None), (b + 1, f.ghost['second'])):
            if i is None or i >= len(reqs) or (self.closing and i > b):
                continue
            x = reqs[i][0]
            self.clause(I, res, f, dict(env, x=x, w=w, key=lit(b'zz' if i else b'yy')), ['C12.next'],
                        'isstore(x, 1, key, w, 7, 0) and nocas(x)')
            if i > b:
                self.clause(I, res, f, dict(env, x=rest), ['C14.next'],
                            'qres(x, 1, "", "", "")' if self.binary else 'x == "STORED" + CRLF')
        # a handler may keep what it was given
        try:
            again = shot(I, f, reqs[b][1], '*' + SRVT + 'Request')
            keep = {k: again[k] for k in again}
            if 'Keys' in keep:
                self.clause(I, res, f, {'a': keep['Keys'], 'b': reqs[b][0]['Keys']}, ['C12.kept'], 'a == b')
            for k in ('Key', 'Value', 'Flags'):
                if k in keep:
                    self.clause(I, res, f, {'a': keep[k], 'b': reqs[b][0][k]}, ['C12.kept'], 'a == b')
        except Unsupported as e:
            res.unsupported.append('C12.kept: %s' % e)
        wr = [m.get('what', '') for o, m in f.meta.items() if m.get('owner') == 'answer' and o in f.ghost.get('$written', ())]
        self.ob(res, f, 'C14.frame', not wr, 'the server changes ' + ', '.join(wr))
        for cl in self.beh.ensures + self.c.ensures:
            self.check(I, res, f, env, ['%s.ensures %s' % (tag, cl.text.strip()) for tag in cl.tags], cl.expr, cl)

    def ob(self, res, f, ob, good, msg):
        if good:
            res.ok(ob)
        else:
            res.bad(ob, msg + ' ' + self.where(f), f.approx)

    def noreturn(self, res, what, f):
        if self.beh.adversarial:
            return
        for cl in self.beh.ensures + self.c.ensures:
            for tag in cl.tags:
                res.bad('%s.ensures %s' % (tag, cl.text.strip()), what + ' ' + self.where(f), f.approx)

    def clause(self, I, res, f, env, obs, text):
        self.check(I, res, f, env, obs, spec.ast.parse(text, mode='eval').body, None)

    def check(self, I, res, f, env, obs, expr, cl):
        def go(s):
            spec.CURRENT['st'] = s
            ev = AnsEv(self.S, s, env, I)
            try:
                return ev.truth(ev.ev(expr))
            except (IndexError, KeyError):
                return False
            except SpecError as e:
                if ' of nil' in str(e):
                    return False
                raise
        try:
            outs = explore(I, f, go)
        except (SpecError, Unsupported) as e:
            res.unsupported.append('%s: %s' % (obs[0], e))
            return
        good = True
        for s, v in outs:
            if isinstance(v, tuple):
                res.unsupported.append('%s: %s' % (obs[0], v[1]))
                good = False
            elif not v:
                good = False
                msg = 'reply %s; requests %s' % (show(s, env['reply']) if 'reply' in env else '', showreq(s, env.get('reqs', [])[:1] or env))
                if cl is not None:
                    msg = '%s (%s); %s' % (cl.text.strip(), cl.src, msg)
                for ob in obs:
                    res.bad(ob, msg[:900] + ' ' + self.where(s), s.approx)
        if good:
            for ob in obs:
                res.ok(ob)

    def where(self, f):
        return '[path: ' + '; '.join('%s=%s' % (a, b) for a, b in f.path)[-300:] + ']'


def dead(fr, r):
    """register r of the frame is not used by any instruction that may still run"""
    uses = fr.fn.setdefault('$uses', {})
    if not uses:
        for bi, b in enumerate(fr.fn['blocks']):
            for ii, ins in enumerate(b['instrs']):
                collect(ins, uses, (bi, ii))
        fr.fn['$reach'] = reachable(fr.fn)
    reach = fr.fn['$reach']
    for bi, ii in uses.get(r, ()):
        if (bi == fr.blk and ii >= fr.ip) or bi in reach[fr.blk]:
            return False
    return True


def collect(x, uses, at):
    if isinstance(x, dict):
        if x.get('k') == 'reg':
            uses.setdefault(x['n'], set()).add(at)
        for v in x.values():
            collect(v, uses, at)
    elif isinstance(x, list):
        for v in x:
            collect(v, uses, at)


def reachable(fn):
    succ = {i: set() for i in range(len(fn['blocks']))}
    for i, b in enumerate(fn['blocks']):
        for p in b['preds']:
            succ[p].add(i)
    out = {}
    for i in succ:
        seen, work = set(), list(succ[i])
        while work:
            x = work.pop()
            if x not in seen:
                seen.add(x)
                work += succ[x]
        out[i] = seen
    return out


def showreq(st, v):
    if isinstance(v, dict):
        return '{' + ', '.join('%s: %s' % (k, showreq(st, x)) for k, x in v.items()) + '}'
    if isinstance(v, (list, tuple)):
        return '[' + ', '.join(showreq(st, x) for x in v) + ']'
    return show(st, v)


def conn_of(I, st):
    return models.conn_new(I, st).v.oid


def sequences(letters, tier):
    out = ['']
    for k in range(1, len(letters) + 1):
        ps = itertools.permutations(letters, k) if (tier != 'quick' or len(letters) <= 3) else \
            itertools.chain(itertools.combinations(letters, k), itertools.combinations(letters[::-1], k))
        out += [''.join(p) for p in ps]
    return sorted(set(out), key=lambda s: (len(s), s))


def units(W, S, tier, want):
    out = []
    for cn, c in S.contracts.items():
        if not cn.startswith('Server.'):
            continue
        if 'malformed' in c.extra:
            for first in (False, True):
                u = ServerUnit(W, S, cn, c.behaviors[0], first=first)
                if (first or 'after' not in c.extra) and want(u):
                    out.append(u)
            continue
        for b in c.behaviors:
            ls = sequences(c.extra['letters'], tier) if 'letters' in c.extra else [None]
            if b.name in ('none', 'error', 'notfound', 'miss', 'exists') and ls != [None]:
                ls = [x for x in ls if len(x) in (0, len(c.extra['letters']))][:2]
            ns = [1, 2, 3] if any(t == 'keys' for _, t in c.params) else [None]
            for l in ls:
                for n in ns:
                    u = ServerUnit(W, S, cn, b, n, l)
                    if want(u):
                        out.append(u)
            if b is c.behaviors[0] and not b.adversarial:
                u = ServerUnit(W, S, cn, b, ns[-1], ls[-1], first=True)
                if want(u):
                    out.append(u)
    return out
