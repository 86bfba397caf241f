"""Units of the pools and of the proxy: the calls made to servers are recorded
in a ghost list; the ring is replaced by its contract (see ring.py)."""
import time
import z3
from terms import *
from rope import *
from engine import *
import engine
import models
import spec
from spec import Ev, Fam, SpecError
import loops
from verify import *
import verify

SRV = '$srv'                     # dynamic type of an abstract server: '$srv' + ring
OPS = ('Get', 'Set', 'Add', 'Replace', 'GetMulti', 'Delete', 'Increment', 'Decrement', 'Touch', 'Flush', 'Version', 'Close', 'Reconnect')


def fresh_item(I, st, hint, flags='four', key=None):
    """an item nobody else refers to, with arbitrary contents"""
    t = MOD + '/client.Item'
    fs = []
    vals = {}
    for f in I.p.under(t)['fields']:
        nm = f['name']
        if nm == 'Value':
            v = sym(st.fvar(hint + '_Value'))
            o = st.new(BArr(v), owner='answer', what='value of an item of the server')
            x = SliceV(Ptr(o), 0, rlen(v), rlen(v))
        elif nm == 'Flags':
            if flags == 'four':
                n = st.fint(hint + '_flags', 0, (1 << 32) - 1)
                o = st.new(BArr(be(n, 4)), owner='answer', what='flags of an item of the server')
                x = SliceV(Ptr(o), 0, 4, 4)
            else:
                x = NILSLICE
        elif nm == 'Key' and key is not None:
            x = key
        elif f['type'] == 'string':
            x = sym(st.fvar(hint + '_' + nm))
        elif I.p.uname(f['type']) in INTS:
            x = st.fint(hint + '_' + nm, *irange(I.p.uname(f['type'])))
        else:
            x = I.p.zero(f['type'])
        fs.append(x)
    return Ptr(st.new(StructV(t, fs), owner='answer', what='an item of the server'))


def snapshot(I, st, v):
    """value of an argument at the time of the call, as specification value"""
    if isinstance(v, Ptr):
        s = st.heap.get(v.oid)
        if not v.path and isinstance(s, StructV) and s.t == MOD + '/client.Item':
            return itemfields(I, st, v)
        return v
    if isinstance(v, SliceV):
        if v.base is None:
            return []
        b = st.sbase(v)
        if isinstance(b, BArr):
            return st.srope(v)
        l = st.slist(v)
        return [snapshot(I, st, x.v) if isinstance(x, EL) else x for x in l.a]
    return v


def itemfields(I, st, p):
    s = st.load(p)
    g = lambda n: s.f[I.p.fieldidx(s.t, n)]
    return [g('Key'), st.srope(g('Value')), st.srope(g('Flags')), g('Expiration'), g('Cas')]


class PoolEv(Ev):
    """clauses over ghost calls"""

    def f_fields(self, item):
        if isinstance(item, dict):
            return [item[k] for k in ('Key', 'Value', 'Flags', 'Expiration', 'Cas')]
        if item is None:
            raise SpecError('fields of nil')
        return itemfields(self.I, self.st, item)

    def f_got(self, c):
        """the item a Get returned, as it was"""
        p = c['res'][0]
        if p is None:
            raise SpecError('no item')
        return dict(zip(('Key', 'Value', 'Flags', 'Expiration', 'Cas'), itemfields(self.I, self.st, p)))

    def f_distinct(self, l):
        for i in range(len(l)):
            for j in range(i):
                if not self.truth(not_(self.equal(l[i], l[j]))):
                    return False
        return True

    def keylist(self, keys):
        if isinstance(keys, Fam):
            n = self.env['n']
            return [keys.at(i) for i in range(n)]
        return self.aslist(keys)

    def f_ownedby(self, calls, keys):
        """every call asks only for keys of its server"""
        given = self.keylist(keys)
        for c in calls:
            for k in c['args'][0]:
                k = self.rope(k)
                if not any(self.st.norm(g).key() == k.key() for g in given):
                    return False
                if not self.truth(self.equal(c['server'], self.env['owner'](k))):
                    return False
        return True

    def f_eachonce(self, calls, keys):
        a = [self.rope(k).key() for c in calls for k in c['args'][0]]
        b = [self.st.norm(g).key() for g in self.keylist(keys)]
        return sorted(map(repr, a)) == sorted(map(repr, b))

    def f_alltheitems(self, items, calls):
        def flat(v):
            if v is None or v.base is None:
                return []
            out = []
            for x in self.st.slist(v).a:
                if isinstance(x, EL):
                    out.append(('el', x.v.oid if isinstance(x.v, Ptr) else repr(x.v)))
                elif isinstance(x, LSeg):
                    if self.st.must(eq(x.lo, x.hi)):
                        continue
                    out.append(('seg', repr(x.g.k), tkey(x.lo), tkey(x.hi)))
                else:
                    raise Unsupported('list %r' % (x,))
            return out
        return sorted(map(repr, flat(items))) == sorted(repr(x) for c in calls for x in flat(c['res'][0]))

    def f_at(self, m, k):
        if m is None:
            return None
        if isinstance(m, Ptr):
            for kk, v in self.st.load(m).e:
                if self.truth(self.equal(kk, k)):
                    return v
            return None
        return m.get(self.rope(k).concrete())

    def f_ismc(self, e):
        return isinstance(e, IfaceV) and e.t == '*' + MOD + '/errors.MemcachedError'

    def f_items(self, c):
        out = []
        for p in self.aslist(c['res'][0]):
            out.append(dict(zip(('Key', 'Value', 'Flags', 'Expiration', 'Cas'), itemfields(self.I, self.st, p))))
        return out

    def f_samekeys(self, a, b):
        """two lists of strings"""
        def flat(v):
            if isinstance(v, list):
                return v
            return list(self.st.slist(v).a) if v.base is not None else []
        x, y = flat(a), flat(b)
        if len(x) != len(y):
            return False
        for p, q in zip(x, y):
            p, q = (w.v if isinstance(w, EL) else w for w in (p, q))
            if isinstance(p, LSeg) and isinstance(q, LSeg):
                if p.g.k != q.g.k or not self.truth(and_(eq(p.lo, q.lo), eq(p.hi, q.hi))):
                    return False
            elif isinstance(p, Rope) and isinstance(q, Rope):
                if not self.truth(self.equal(p, q)):
                    return False
            else:
                return False
        return True

    def f_nameof(self, s):
        return self.env['nameof'](s)


class EventUnit:
    """one operation of a pool, for all answers of the servers"""
    kind = 'pool'
    bounds = None

    def __init__(self, W, S, cname, prop, flagcase=None, n=None, ns=None, sizes=None):
        self.W, self.S, self.cname, self.prop = W, S, cname, prop
        self.flagcase, self.n, self.ns, self.sizes = flagcase, n, ns, sizes
        self.c = S.contracts[cname]
        self.beh = None
        self.tname, self.op = cname.split('.')
        self.pkg = {'SinglePool': 'client', 'ReplicaPool': 'cluster', 'ReplicaProxy': 'proxy'}[self.tname]
        self.name = cname + ''.join('/%s=%s' % (k, v) for k, v in
                                    (('flags', flagcase), ('n', n), ('servers', ns), ('answers', sizes)) if v is not None)

    def function(self):
        return '%s.%s' % (self.pkg, self.cname)

    # ---- the environment of the pool
    def answers(self, I):
        """contracts of the servers"""
        ext = I.models.ext

        def err(st, op, kinds):
            k = st.choose(len(kinds) + 1, op + ' answers')
            if k == 0:
                return None
            k = kinds[k - 1]
            if k == 'other':
                return st.err('*errors.errorString', sym(st.fvar('errmsg')))
            p = I.globalptr(st, MOD + '/errors.' + k)
            return IfaceV('*' + MOD + '/errors.MemcachedError', st.load(p))

        def record(st, srv, op, args, res):
            st.ghost['calls'] = st.ghost.get('calls', ()) + ({'server': srv, 'op': lit(op.encode()), 'args': args,
                                                              'res': list(res), 'err': res[-1]},)

        def mk1(op, tag):
            def f(I, st, a, ins):
                srv = a[0]
                args = [snapshot(I, st, x) for x in a[1:]]
                return self.answer(I, st, srv, op, args, err, record)
            ext['(%s%s).%s' % (SRV, tag, op)] = f
        for tag in ('P', 'S'):
            for op in OPS:
                mk1(op, tag)

            def name(I, st, a, ins, tag=tag):
                return self.nameof(st, a[0])
            ext['(%s%s).Name' % (SRV, tag)] = name

    def nameof(self, st, srv):
        i = srv.v
        if isc(i):
            return lit(b'name-%d' % i)
        ln = z3.Function('len_srvname' + srv.t, z3.IntSort(), z3.IntSort())(i)
        c = and_(le(0, ln), le(ln, 1000))
        k = ('namefact', tkey(i), srv.t)
        if not st.facts.get(k):
            st.facts[k] = True
            st.pc.append(c)
        return sym(Var('$name' + srv.t, ALL, ln, (i,)))

    def answer(self, I, st, srv, op, args, err, record):
        if op == 'Get':
            e = err(st, op, ['ItemNotFound', 'other'])
            # C02: the item of a hit carries the key of the request
            res = (fresh_item(I, st, 'item', ('four', 'nil')[st.choose(2, 'flags of the answer')], args[0]), None) if e is None else (None, e)
        elif op == 'GetMulti':
            e = err(st, op, ['ItemNotFound', 'other'])
            if e is not None:
                res = (NILSLICE, e)
            else:
                t = '*' + MOD + '/client.Item'
                if self.sizes == 'any':
                    nm = st.fresh('answer')
                    n = st.fint('items', 0, 1 << 40)

                    def at(i, nm=nm):
                        raise Unsupported('element of an answer of symbolic length')
                    g = Gen(nm, at, key=nm)
                    res = (st.mklarr(lmk([LSeg(g, 0, n)], t), owner='answer', what='the answer of the server'), None)
                else:
                    k = st.choose(3, 'items of the answer')
                    res = (st.mklist([fresh_item(I, st, 'item') for _ in range(k)], t) if k else
                           (NILSLICE if st.choose(2, 'nil answer') else st.mklist([], t)), None)
        elif op in ('Increment', 'Decrement'):
            e = err(st, op, ['ItemNotFound', 'other'])
            res = (st.fint('counter', -(1 << 63), (1 << 63) - 1), e)
        elif op == 'Version':
            e = err(st, op, ['ItemNotFound', 'other'])
            res = (sym(st.fvar('version')), None) if e is None else (EMPTY, e)
        else:
            e = err(st, op, ['ItemNotFound', 'ItemExists', 'other'] if op in ('Set', 'Add', 'Replace', 'Delete', 'Touch') else ['ItemNotFound', 'other'] if op == 'Flush' else ['other'])
            res = (e,)
        record(st, srv, op, args, res)
        return res if len(res) > 1 else res[0]

    def ring(self, I):
        """contract of Ring: Pick is a function of ring and key, Find inverts Name"""
        R = '(*%s/client.Ring).' % MOD
        own = {}
        self.rings = rings = []

        def newring(st, args, ins):
            l = st.slist(args[0]) if args[0].base is not None else LArr((), None)
            p = Ptr(st.new(StructV(MOD + '/client.Ring', [I.p.zero(f['type']) for f in I.p.under(MOD + '/client.Ring')['fields']])))
            st.ghost['rings'] = st.ghost.get('rings', ()) + ((p.oid, tuple(x.v for x in l.a if isinstance(x, EL)), len(l.a)),)
            return p

        def tag(st, p):
            for i, (o, s, n) in enumerate(st.ghost.get('rings', ())):
                if o == p.oid:
                    return 'PS'[i]
            raise Unsupported('unknown ring')

        def owner(st, t, key):
            k = (t, repr(st.norm(key).key()))
            if k not in own:
                own[k] = z3.Int('own%s_%d' % (t, len(own)))
            f = ('ownfact', k)
            if not st.facts.get(f):
                st.facts[f] = True
                st.pc.append(own[k] >= 0)
            return IfaceV(SRV + t, own[k])
        self.owner = owner

        def pick(st, args, ins):
            if args[0] is None:
                raise GoPanic('nil pointer dereference')
            return owner(st, tag(st, args[0]), args[1])

        def find(st, args, ins):
            r = st.norm(args[1])
            t = tag(st, args[0])
            if len(r.a) == 1 and isinstance(r.a[0], Seg) and r.a[0].v.name == '$name' + SRV + t and st.must(eq(r.a[0].lo, 0)) \
                    and st.must(eq(r.a[0].hi, r.a[0].v.ln)):
                return IfaceV(SRV + t, r.a[0].v.idx[0])
            return None
        I.modular[R + 'Pick'] = pick
        I.modular[R + 'Find'] = find
        I.modular[MOD + '/client.NewRing'] = newring

    # ---- one run
    def receiver(self, I, st):
        """the pool made by its constructor"""
        if self.tname == 'SinglePool':
            ns = self.ns or 2
            srvs = [IfaceV(SRV + 'P', i) for i in range(ns)]
            args = [st.mklist(srvs, MOD + '/client.Server')]
            r = self.W.call(I, st, MOD + '/client.NewSinglePool', args)
            expect = [tuple(srvs)]
        else:
            n1, n2 = 2, 1
            t = MOD + '/client.ServerWithMetaProtocol'
            mk = lambda k: [Ptr(st.new(I.p.zero(t))) for _ in range(k)]
            a, b = mk(n1), mk(n2)
            args = [st.mklist(a, '*' + t), st.mklist(b, '*' + t)]
            r = self.W.call(I, st, MOD + '/cluster.NewReplicaPool', args)
            expect = [tuple(IfaceV('*' + t, x) for x in a), tuple(IfaceV('*' + t, x) for x in b)]
        ok = [s for s in r if s.outcome[0] == 'return']
        if len(r) != 1 or len(ok) != 1:
            raise Unsupported('constructor: %r' % ([s.outcome for s in r],))
        st = ok[0]
        p = st.result
        if isinstance(p, tuple):
            p = p[0]
        st.outcome = st.result = None
        st.trace = ()
        got = st.ghost.get('rings', ())
        self.made = None
        if MOD + '/client.NewRing' in I.modular:
            good = len(got) == len(expect) and all(
                n == len(e) and set((x.t, repr(x.v)) for x in s) == set((x.t, repr(x.v)) for x in e) for (o, s, n), e in zip(got, expect))
            self.made = good
        return st, p

    def setup(self, I):
        st = self.W.start(I)
        self.answers(I)
        if self.ns is None:
            self.ring(I)
        else:
            # the order of the points is the subject of the contract of NewRing
            I.models.ext['$sort'] = lambda I, st, sl, less: None
        st, p = self.receiver(I, st)
        st.ghost['calls'] = ()
        env, args = {}, [p]
        for nm, ty in self.c.params:
            if ty == 'item':
                v, env[nm] = mkitem(self.W, I, st, nm, self.flagcase or 'four')
            elif ty == 'keys':
                v, env[nm] = mkkeys(self.W, I, st, nm, self.n)
                env['n'] = self.n
            else:
                v = env[nm] = mkvar(I, st, nm, ty)
            args.append(v)
        return st, p, args, env

    def fname(self):
        return '(*%s/%s.%s).%s' % (MOD, self.pkg, self.tname, self.op)

    def run(self):
        I = self.W.interp()
        res = Result(self.name)
        t0 = time.time()
        b = []
        if self.n is not None:
            b.append('key lists of length %s' % self.n)
        if self.ns is not None:
            b.append('%s servers' % self.ns)
        if self.sizes == 'few':
            b.append('0, 1 or 2 items per answer')
        res.bounded = ', '.join(b) or None
        I.on_loop = loops.on_loop
        I.loop_policy = loops.unrolling_policy
        I.max_steps = 4000000
        I.deadline = time.time() + 200
        try:
            st, p, args, env = self.setup(I)
            if self.made is not None:
                ob = self.prop + '.servers'
                if self.made:
                    res.ok(ob)
                else:
                    res.bad(ob, 'the constructor does not hand its servers to the rings')
            snap = {o: st.heap[o] for o, m in st.meta.items() if m.get('owner') == 'caller'}
            ends = self.W.call(I, st, self.fname(), args)
        except Unsupported as e:
            res.unsupported.append(str(e))
            res.time = time.time() - t0
            return res
        for f in ends:
            res.paths += 1
            if not res.reach and f.sat() and not f.approx:
                res.reach += 1
            n0 = {k: v['fail'] for k, v in res.obs.items()}
            self.finish(I, res, f, env, snap)
        res.time = time.time() - t0
        return res

    def clauses(self):
        return self.c.ensures + (self.beh.ensures if self.beh else [])

    def finish(self, I, res, f, env, snap):
        P = self.prop
        kind, info = f.outcome
        if kind == 'unsupported':
            res.unsupported.append(info)
            return
        if kind == 'cut':
            return
        for ob, msg in f.fails:
            if ob != 'C07.frame':
                res.bad(P + '.' + ob.split('.')[0] if ob.startswith('shared.') else P + '.' + ob, msg + ' ' + self.where(f), f.approx)
        if not any(o.startswith('shared.') for o, _ in f.fails):
            res.ok(P + '.shared')
        if kind != 'return':
            res.bad(P + '.nopanic', '%s: %s %s' % (kind, info, self.where(f)), f.approx)
            for cl in self.clauses():
                for tag in cl.tags:
                    res.bad('%s.ensures %s' % (tag, cl.text.strip()), 'no result: %s %s %s' % (kind, info, self.where(f)), f.approx)
            return
        res.ok(P + '.nopanic')
        bad = [f.meta[o].get('what', '') for o, v in snap.items() if f.heap[o] is not v]
        if self.tname == 'SinglePool' or self.op in ('Get', 'GetMulti'):
            # what the servers answered is what the caller gets
            bad += [m.get('what', '') for o, m in f.meta.items() if m.get('owner') == 'answer' and o in f.ghost.get('$written', ())]
        if bad:
            res.bad(P + '.frame', 'changed: ' + ', '.join(bad) + ' ' + self.where(f), f.approx)
        else:
            res.ok(P + '.frame')
        vals = f.result if isinstance(f.result, tuple) else (f.result,)
        env = dict(env)
        for nm, v in zip(self.c.results, vals):
            env[nm] = v
        env['calls'] = list(f.ghost.get('calls', ()))
        for cl in self.clauses():
            self.check(I, res, f, env, cl)

    def evenv(self, s, env):
        e = dict(env)
        if self.ns is None:
            e['owner'] = lambda k: self.owner(s, 'P', k)
            e['secondary'] = lambda k: self.owner(s, 'S', k)
        else:
            e['nservers'] = self.ns
        e['nameof'] = lambda v: self.nameof(s, v)
        return e

    def check(self, I, res, f, env, cl):
        obs = ['%s.ensures %s' % (tag, cl.text.strip()) for tag in (cl.tags or [self.prop])]

        def go(s):
            spec.CURRENT['st'] = s
            ev = PoolEv(self.S, s, self.evenv(s, env), I)
            try:
                return ev.truth(ev.ev(cl.expr))
            except (IndexError, KeyError):
                return False
        try:
            outs = explore(I, f, go)
        except SpecError as e:
            for ob in obs:
                res.bad(ob, 'specification: %s %s' % (e, self.where(f)), f.approx)
            return
        except Unsupported as e:
            res.unsupported.append('%s: %s' % (obs[0], e))
            return
        good = True
        for s, v in outs:
            if isinstance(v, tuple):
                res.unsupported.append('%s: %s' % (obs[0], v[1]))
                good = False
            elif not v:
                good = False
                msg = '%s (%s); calls %s; returns %s' % (cl.text.strip(), cl.src, self.showcalls(s, env), ', '.join(
                    '%s=%s' % (nm, show(s, env.get(nm))) for nm in self.c.results))
                for ob in obs:
                    res.bad(ob, msg + ' ' + self.where(s), s.approx)
        if good:
            for ob in obs:
                res.ok(ob)

    def showcalls(self, s, env):
        out = []
        for c in env.get('calls', []):
            out.append('%s.%s(%s) -> %s' % (c['server'], c['op'].concrete().decode(), ', '.join(showarg(s, a) for a in c['args']),
                                            ', '.join(show(s, r) for r in c['res'])))
        return '; '.join(out)[:600]

    def where(self, f):
        return '[path: ' + '; '.join('%s=%s' % (a, b) for a, b in f.path)[-300:] + ']'


def showarg(s, a):
    if isinstance(a, list):
        return '[' + ', '.join(showarg(s, x) for x in a) + ']'
    return show(s, a)


class ProxyUnit(EventUnit):
    """one kind of request of the proxy, for all answers of the replica pool"""
    kind = 'proxy'

    def __init__(self, W, S, cname, prop, kind_, variant):
        EventUnit.__init__(self, W, S, cname, prop)
        self.reqkind, self.variant = kind_, variant
        self.name = '%s/%s' % (cname, variant)
        self.sizes = 'few' if kind_ == 'GetMulti' else None

    def function(self):
        return 'proxy.ReplicaProxy.ServeRequest'

    def fname(self):
        return '(*%s/proxy.ReplicaProxy).ServeRequest' % MOD

    def struct(self, I, st, t, hint, given):
        fs = []
        for f in I.p.under(t)['fields']:
            nm = f['name']
            fs.append(given[nm] if nm in given else self.fresh(I, st, f['type'], hint + '_' + nm))
        return Ptr(st.new(StructV(t, fs), owner='caller', what='the request'))

    def fresh(self, I, st, t, hint):
        d = I.p.under(t)
        if t == 'string' or d.get('name') == 'string':
            return sym(st.fvar(hint))
        u = I.p.uname(t)
        if u == 'bool':
            return st.fbool(hint)
        if u in INTS:
            return st.fint(hint, *irange(u))
        return I.p.zero(t)

    def bytesof(self, st, r):
        n = rlen(r)
        return SliceV(Ptr(st.new(BArr(r), owner='caller', what='bytes of the request')), 0, n, n)

    def request(self, I, st):
        S = MOD + '/server.'
        n = z3.Int('n')
        k, v = self.reqkind, self.variant
        g = {'Opcode': {'Get': 0, 'GetMulti': 0, 'Set': 1}.get(k), 'Keys': NILSLICE, 'Value': NILSLICE, 'Flags': NILSLICE,
             'GetOpt': None, 'SetOpt': None, 'DelOpt': None}
        if g['Opcode'] is None:
            o = z3.Int('opcode')
            st.pc += [o >= 2, o <= 255]
            g['Opcode'] = o
        fam = None
        if k == 'GetMulti':
            st.pc += [n >= 1, n <= 1 << 30]
            g['Keys'], fam = mkkeys(self.W, I, st, 'keys', n)
            g['Key'] = EMPTY
        elif k == 'Get' and v.startswith('empty'):
            g['Keys'] = st.mklist([], 'string')
        if k in ('Get', 'GetMulti') and v.endswith('opt'):
            g['GetOpt'] = self.struct(I, st, S + 'GetOpt', 'opt', {})
        if k == 'Other' and v == 'opt':
            g['SetOpt'] = self.struct(I, st, S + 'SetOpt', 'opt', {})
            g['GetOpt'] = self.struct(I, st, S + 'GetOpt', 'gopt', {})
            g['Value'] = self.bytesof(st, sym(st.fvar('value')))
        if k == 'Set':
            g['Value'] = self.bytesof(st, sym(st.fvar('value')))
            o = {'Meta': v == 'meta'}
            if v != 'meta':
                g['Flags'] = self.bytesof(st, be(st.fint('flags', 0, (1 << 32) - 1), 4))
                o['Flag'] = 0
            g['SetOpt'] = self.struct(I, st, S + 'SetOpt', 'opt', o)
        return self.struct(I, st, S + 'Request', 'req', g)

    def setup(self, I):
        st = self.W.start(I)
        self.answers(I)
        self.made = None
        P = '(*%s/cluster.ReplicaPool).' % MOD

        def err(st, op, kinds):
            k = st.choose(len(kinds) + 1, op + ' answers')
            if k == 0:
                return None
            if kinds[k - 1] == 'other':
                return st.err('*errors.errorString', sym(st.fvar('errmsg')))
            p = I.globalptr(st, MOD + '/errors.' + kinds[k - 1])
            return IfaceV('*' + MOD + '/errors.MemcachedError', st.load(p))

        def record(st, srv, op, args, res):
            st.ghost['calls'] = st.ghost.get('calls', ()) + ({'server': srv, 'op': lit(op.encode()), 'args': args,
                                                              'res': list(res), 'err': res[-1]},)

        def mk(op):
            def f(st, a, ins):
                if a[0] != pool:
                    raise Unsupported('another pool')
                args = [x if isinstance(x, SliceV) else snapshot(I, st, x) for x in a[1:]]
                return self.answer(I, st, a[0], op, args, err, record)
            I.modular[P + op] = f
        for f in W_methods(self.W, 'cluster.ReplicaPool'):
            mk(f)
        pool = Ptr(st.new(I.p.zero(MOD + '/cluster.ReplicaPool')))
        r = self.W.call(I, st, MOD + '/proxy.NewReplicaProxy', [pool])
        ok = [s for s in r if s.outcome[0] == 'return']
        if len(r) != 1 or len(ok) != 1:
            raise Unsupported('constructor: %r' % ([s.outcome for s in r],))
        st = ok[0]
        p = st.result
        st.outcome = st.result = None
        st.trace = ()
        st.ghost['calls'] = ()
        req = self.request(I, st)
        return st, p, [p, req], {'req': self.view(I, st, req)}

    def view(self, I, st, p):
        """the request as specification value"""
        if p is None:
            return None
        s = st.load(p)
        out = {}
        for f, x in zip(I.p.under(s.t)['fields'], s.f):
            if isinstance(x, Ptr):
                x = self.view(I, st, x)
            elif isinstance(x, SliceV) and f['type'] in ('[]byte', '[]uint8'):
                x = st.srope(x)
            elif isinstance(x, SliceV):
                x = snapshot(I, st, x) if x.base is None else x
            out[f['name']] = x
        return out

    def evenv(self, s, env):
        return dict(env)


def W_methods(W, t):
    """exported methods of the pool"""
    pre = '(*%s/%s).' % (MOD, t)
    return [n[len(pre):] for n in W.p.funcs if n.startswith(pre) and n[len(pre)].isupper()]


def proxy_units(W, S, tier, want):
    out = []
    for k, vs in (('Get', ('nil', 'empty', 'nil/opt', 'empty/opt')), ('GetMulti', ('plain', 'opt')), ('Set', ('plain', 'meta')), ('Other', ('plain', 'opt'))):
        for v in vs:
            u = ProxyUnit(W, S, 'ReplicaProxy.' + k, 'C15', k, v)
            if want(u):
                out.append(u)
    return out
