"""Contracts of the ring (client/ring.go).

  NewRing(servers)   the nodes are exactly the points
                       be32(sha1(name(s) + "/" + dec(j))[0:4]),  s in servers, j in 0..199
                     of each server, in the order (hash, name); the server map
                     has exactly the servers under their names.
  Pick(key)          requires nodes sorted by hash, at least one node; the
                     server of the last node whose hash is <= crc32(key), of
                     the first node when there is none.  Nothing is modified.
  Find(name(s))      s

With the lemmas at the end: the assignment is a function of the key and of the
set of servers, and a larger set moves keys only to the added servers.
"""
import time
import z3
from terms import *
from rope import *
from engine import *
import models
import loops
import spec
from verify import *
from pool import SRV, EventUnit

RING = MOD + '/client.Ring'
NPOINTS = 200


def ringfields(I):
    d = I.p.under(RING)
    nodes = [i for i, f in enumerate(d['fields']) if I.p.under(f['type'])['kind'] == 'slice']
    if len(nodes) != 1:
        raise Unsupported('the ring has %d lists' % len(nodes))
    return nodes[0], I.p.under(d['fields'][nodes[0]]['type'])['elem']


def nodetype(I, et):
    """(struct type, by pointer)"""
    d = I.p.under(et)
    if d['kind'] == 'pointer':
        return d['elem'], True
    return et, False


def nodefields(I, nt):
    d = I.p.under(nt)
    if d['kind'] != 'struct':
        raise Unsupported('nodes of type ' + nt)
    h = [i for i, f in enumerate(d['fields']) if I.p.uname(f['type']) in INTS]
    s = [i for i, f in enumerate(d['fields']) if I.p.under(f['type'])['kind'] == 'interface']
    if len(h) != 1 or len(s) != 1:
        raise Unsupported('structure of the nodes')
    return h[0], s[0]


def mknode(I, st, et, h, srv):
    nt, byptr = nodetype(I, et)
    hi, si = nodefields(I, nt)
    fs = [I.p.zero(f['type']) for f in I.p.under(nt)['fields']]
    fs[hi], fs[si] = h, srv
    v = StructV(nt, fs)
    return Ptr(st.new(v)) if byptr else v


def readnode(I, st, et, v):
    nt, byptr = nodetype(I, et)
    hi, si = nodefields(I, nt)
    if byptr:
        v = st.heap[v.oid]
    return v.f[hi], v.f[si]


class RingUnit:
    kind = 'ring'
    beh = None
    prop = 'C09'
    bounded = None

    def __init__(self, W, S):
        self.W, self.S = W, S

    def function(self):
        return self.fn

    def names(self, I):
        """servers with arbitrary distinct names"""
        u = EventUnit.nameof
        I.models.ext['(%sP).Name' % SRV] = lambda I, st, a, ins: self.nameof(st, a[0])

    def nameof(self, st, srv):
        i = srv.v
        t = T(i)
        ln = z3.Function('len_srvname', z3.IntSort(), z3.IntSort())(t)
        k = ('namefact', tkey(t))
        if not st.facts.get(k):
            st.facts[k] = True
            st.pc.append(z3.And(ln >= 0, ln <= 1000))
        return sym(Var('$name', ALL, ln, (i,)))

    def run(self):
        I = self.W.interp()
        res = Result(self.name)
        res.bounded = self.bounded
        t0 = time.time()
        I.on_loop = loops.on_loop
        I.max_steps = 4000000
        I.deadline = time.time() + 200
        try:
            self.go(I, res)
        except Unsupported as e:
            res.unsupported.append(str(e))
        res.time = time.time() - t0
        return res

    def outcome(self, res, f):
        kind, info = f.outcome
        res.paths += 1
        if not res.reach and f.sat() and not f.approx:
            res.reach += 1
        if kind == 'unsupported':
            res.unsupported.append(info)
            return False
        for ob in set(f.vcs):
            if ob == 'C09.variant' and not any(o == ob for o, _ in f.fails):
                res.ok(ob)
        for ob, msg in f.fails:
            if ob == 'C09.variant' or ob.startswith('shared.'):
                res.bad(ob if ob[0] == 'C' else 'C09.shared', msg + ' ' + self.where(f), f.approx)
        if not any(o.startswith('shared.') for o, _ in f.fails):
            res.ok('C09.shared')
        if kind == 'cut':
            return False
        if kind != 'return':
            res.bad('C09.nopanic', '%s: %s %s' % (kind, info, self.where(f)), f.approx)
            return False
        res.ok('C09.nopanic')
        return True

    def ob(self, res, f, name, good, msg):
        if good:
            res.ok('C09.' + name)
        else:
            res.bad('C09.' + name, msg + ' ' + self.where(f), f.approx)

    def where(self, f):
        return '[path: ' + '; '.join('%s=%s' % (a, b) for a, b in f.path)[-300:] + ']'


def hargs(pc):
    """indices the path condition speaks about"""
    out, seen, work = [], set(), list(pc)
    while work:
        e = work.pop()
        if not z3.is_expr(e) or e.get_id() in seen or z3.is_var(e):
            continue
        seen.add(e.get_id())
        if z3.is_app(e):
            if e.decl().name() == 'H' and e.num_args() == 1:
                out.append(e.arg(0))
            work += e.children()
    return out


class PickUnit(RingUnit):
    """Pick on any sorted list of nodes of any length"""
    fn = 'client.Ring.Pick'
    name = 'Ring.Pick'

    def go(self, I, res):
        st = self.W.start(I)
        ni, et = ringfields(I)
        H = z3.Function('H', z3.IntSort(), z3.IntSort())
        Sv = z3.Function('S', z3.IntSort(), z3.IntSort())
        N = z3.Int('N')
        st.pc += [N >= 1, N <= (1 << 40)]

        def facts(s, i):
            """the nodes are sorted; hashes are 32-bit"""
            k = ('hidx', tkey(i))
            if s.facts.get(k):
                return
            s.facts[k] = True
            i = T(i)
            l = s.ghost.get('$idx', ())
            s.pc.append(z3.And(H(i) >= 0, H(i) < (1 << 32)))
            for j in l:
                s.pc.append(z3.And(z3.Implies(i <= j, H(i) <= H(j)), z3.Implies(j <= i, H(j) <= H(i))))
            s.ghost['$idx'] = l + (i,)
        loops.IGNORE.add('$idx')

        def mat(s, i):
            k = ('node', tkey(i))
            if k not in s.facts:
                facts(s, i)
                s.facts[k] = mknode(I, s, et, H(T(i)), IfaceV(SRV + 'P', Sv(T(i))))
            return s.facts[k]
        g = Gen('nodes', None, key='nodes', info={'mat': mat})
        arr = st.new(lmk([LSeg(g, 0, N)], et), owner='caller', what='the nodes')
        fs = [I.p.zero(f['type']) for f in I.p.under(RING)['fields']]
        fs[ni] = SliceV(Ptr(arr), 0, N, N)
        ring = st.new(StructV(RING, fs), owner='caller', what='the ring')
        key = mkvar(I, st, 'key', 'bytes')
        h = models.crc(st, key)
        st.facts[('crc', key.key())] = h
        self.names(I)
        I.loop_policy = lambda I, st, fr, blk: (0, None)
        I.variants = 'C09.variant'

        def tmpl(c, what, first=0):
            def t(x):
                i = T(add(x, c))
                inr = z3.And(i >= first, i < N)
                return z3.Implies(inr, {'le': H(i) <= h, 'lt': H(i) < h, 'gt': H(i) > h, 'ge': H(i) >= h}[what])
            return t
        I.loop_templates = [tmpl(c, w) for c in (-1, 0, 1) for w in ('le', 'gt', 'lt', 'ge')] + [tmpl(0, 'le', 1)]
        for f in self.W.call(I, st, '(*%s).Pick' % RING, [Ptr(ring), key]):
            if not self.outcome(res, f):
                continue
            v = f.result
            p = None
            if isinstance(v, IfaceV) and v.t == SRV + 'P' and z3.is_app(v.v) and v.v.decl().name() == 'S':
                p = v.v.arg(0)
            if p is None:
                self.ob(res, f, 'pick', False, 'the result %r is not the server of a node' % (v,))
                continue
            q = z3.Int('q')
            f.pc += [q >= 0, q < N]
            for i in [q, p, simp(p + 1), z3.IntVal(0), simp(N - 1)] + hargs(f.pc):
                facts(f, i)
            self.ob(res, f, 'pick', f.must(z3.And(p >= 0, p < N)) and
                    f.must(z3.Implies(H(q) <= h, z3.And(H(p) <= h, q <= p))) and
                    f.must(z3.Implies(H(q) > h, z3.Or(H(p) <= h, p == 0))),
                    'the server returned is not the owner: node %s' % p)
            self.ob(res, f, 'frame', all(f.heap[o] is st.heap[o] for o in (ring, arr)) and
                    not any(o == 'C07.frame' for o, _ in f.fails), 'Pick modifies the ring')


class NewUnit(RingUnit):
    """NewRing and Find for n servers with arbitrary names"""
    fn = 'client.NewRing'

    def __init__(self, W, S, n):
        RingUnit.__init__(self, W, S)
        self.n = n
        self.name = 'NewRing/servers=%d' % n
        self.bounded = '%d servers' % n

    def go(self, I, res):
        st = self.W.start(I)
        self.names(I)
        digests = {}

        def sha1(s, r):
            k = repr(r.key())
            if k not in digests:
                digests[k] = z3.Int('point_%d' % len(digests))
            x = digests[k]
            if not s.facts.get(('sha', k)):
                s.facts[('sha', k)] = True
                s.pc.append(z3.And(x >= 0, x < (1 << 32)))
            return cat(be(x, 4), sym(Var('sharest', ALL, 16, (x,))))
        I.models.ext['$sha1'] = sha1
        ni, et = ringfields(I)
        I.loop_policy = lambda I, st, fr, blk: (None, 2000)
        I.models.ext['$sort'] = lambda I, s, sl, less: self.sort(I, s, sl, less, et)
        srvs = [IfaceV(SRV + 'P', i) for i in range(self.n)]
        arg = st.mklist(srvs, MOD + '/client.Server') if srvs else NILSLICE
        if srvs:
            st.meta[arg.base.oid] = {'owner': 'caller', 'what': 'the list of servers'}
        want = []
        names = [self.nameof(st, s) for s in srvs]
        for i in range(self.n):
            for j in range(NPOINTS):
                want.append((repr(st.norm(cat(names[i], lit(b'/%d' % j))).key()), i))
        for f in self.W.call(I, st, MOD + '/client.NewRing', [arg]):
            if not self.outcome(res, f):
                continue
            for o, msg in f.fails:
                if o.startswith('C09'):
                    res.bad(o, msg + ' ' + self.where(f), f.approx)
            for o in ('C09.order',):
                if not any(x == o for x, _ in f.fails):
                    res.ok(o)
            self.ob(res, f, 'frame', not any(o == 'C07.frame' for o, _ in f.fails), 'NewRing modifies its argument')
            r = f.result
            ring = f.heap[r.oid]
            nodes = ring.f[ni]
            rec = f.ghost.get('$sorted')
            good = rec is not None and isinstance(nodes, SliceV) and nodes.base is not None and nodes.base.oid == rec[0] and \
                f.heap[nodes.base.oid] is rec[1] and f.must(eq(nodes.off, 0)) and f.must(eq(nodes.ln, len(rec[2])))
            self.ob(res, f, 'sorted', good, 'the nodes of the ring are not the sorted list of points')
            inv = {tkey(x): k for k, x in digests.items()}
            got = []
            for hsh, srv in (rec[2] if rec else []):
                k = inv.get(tkey(hsh)) if z3.is_expr(hsh) else None
                got.append((k, srv.v if isinstance(srv, IfaceV) and srv.t == SRV + 'P' else None))
            self.ob(res, f, 'points', sorted(map(repr, got)) == sorted(map(repr, want)),
                    'the points of the ring are not the %d points of each server (%d points)' % (NPOINTS, len(got)))
            # Find
            for i, s in enumerate(srvs):
                w = f.clone()
                w.outcome = None
                for g in self.W.call(I, w, '(*%s).Find' % RING, [r, names[i]]):
                    if self.outcome(res, g):
                        v = g.result
                        self.ob(res, g, 'find', isinstance(v, IfaceV) and v.t == SRV + 'P' and g.must(eq(v.v, i)),
                                'Find of the name of server %d gives %r' % (i, v))

    def sort(self, I, st, sl, less, et):
        """obligation: less is the order (hash, name); the list is sorted afterwards"""
        l = st.slist(sl)
        if not all(isinstance(x, EL) for x in l.a):
            raise Unsupported('sorting of a list of unknown length')
        if l.t != et:
            raise Unsupported('sorting of %s' % l.t)
        points = [readnode(I, st, et, x.v) for x in l.a]
        if len(l.a) >= 2:
            s = st.clone()
            s.dq, s.dn, s.alts = [], [], None
            h = [z3.Int('nodehash_%d' % k) for k in (0, 1)]
            n = [z3.Int('nodesrv_%d' % k) for k in (0, 1)]
            for x in h:
                s.pc += [x >= 0, x < (1 << 32)]
            srv = [IfaceV(SRV + 'P', x) for x in n]
            el = [EL(mknode(I, s, et, h[k], srv[k])) for k in (0, 1)]
            s.heap[sl.base.oid] = s.setpath(s.heap[sl.base.oid], (), LArr(el + list(l.a)[2:], l.t)) if not sl.base.path else None
            if s.heap[sl.base.oid] is None:
                raise Unsupported('sorting of a nested list')

            def cmp(q):
                spec.CURRENT['st'] = q
                got = q.decide(less(q, 0, 1), 'less')
                if q.decide(lt(h[0], h[1])):
                    return (got, True)
                if q.decide(lt(h[1], h[0])):
                    return (got, False)
                return (got, I.strcmp(q, '<', self.nameof(q, srv[0]), self.nameof(q, srv[1])))
            for q, v in explore(I, s, cmp):
                if v[0] == 'unsupported':
                    raise Unsupported(v[1])
                if v[0] != v[1]:
                    st.fail('C09.order', 'the order of the points is not (hash, name): less gives %s where %s is needed %s' % (
                        v[0], v[1], self.where(q)))
        nm = st.fresh('sorted')

        def mat(s, i):
            k = ('sortednode', nm, tkey(i))
            if k not in s.facts:
                s.facts[k] = mknode(I, s, et, s.fint('hash', 0, (1 << 32) - 1), IfaceV(SRV + 'P', s.fint('server', 0)))
            return s.facts[k]
        arr = lmk([LSeg(Gen(nm, None, key=nm, info={'mat': mat}), 0, len(l.a))], l.t)
        st.heap[sl.base.oid] = arr
        st.ghost['$sorted'] = (sl.base.oid, arr, tuple(points))
        return None


class LemmaUnit(RingUnit):
    """consequences of the contracts, proved by z3 alone"""
    fn = 'lemmas over the contracts of NewRing and Pick'
    name = 'Ring.lemmas'

    def go(self, I, res):
        res.reach = 1
        # points are totally ordered by (hash, name): any order embedding into the integers; Hh is the hash of a point
        I_, B = z3.IntSort(), z3.BoolSort()
        Hh = z3.Function('hash', I_, I_)
        A, D = z3.Function('inA', I_, B), z3.Function('inD', I_, B)
        h = z3.Int('h')
        x, y = z3.Ints('x y')
        mono = z3.ForAll([x, y], z3.Implies(x <= y, Hh(x) <= Hh(y)))

        def owner(P, o):
            """o is the point the contract of Pick selects in the set P"""
            return z3.And(P(o), z3.ForAll([x], z3.Implies(z3.And(P(x), Hh(x) <= h), z3.And(Hh(o) <= h, x <= o))),
                          z3.ForAll([x], z3.Implies(z3.And(P(x), Hh(x) > h), z3.Or(Hh(o) <= h, o <= x))))

        def prove(name, hyp, concl):
            s = z3.Solver()
            s.set('timeout', 20000)
            s.add(*hyp)
            s.add(z3.Not(concl))
            r = s.check()
            if r == z3.unsat:
                res.ok('C09.lemma ' + name)
            elif r == z3.sat:
                res.bad('C09.lemma ' + name, str(s.model()))
            else:
                res.bad('C09.lemma ' + name, 'unknown', ('solver',))
        o, p = z3.Ints('o p')
        prove('the owner is a function of the key and of the set of points', [mono, owner(A, o), owner(A, p)], o == p)
        AD = lambda v: z3.Or(A(v), D(v))
        prove('a larger set of points moves keys only to the points added', [mono, owner(A, o), owner(AD, p)],
              z3.Or(D(p), p == o))
        # the index found by Pick in the sorted list is the owner in the set of the points of the list
        N, i, q = z3.Ints('N i q')
        pt = z3.Function('pt', I_, I_)
        inl = lambda v: z3.Exists([q], z3.And(0 <= q, q < N, pt(q) == v))
        srt = z3.ForAll([x, y], z3.Implies(z3.And(0 <= x, x <= y, y < N), pt(x) <= pt(y)))
        picked = z3.And(0 <= i, i < N,
                        z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < N, Hh(pt(q)) <= h), z3.And(Hh(pt(i)) <= h, q <= i))),
                        z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < N, Hh(pt(q)) > h), z3.Or(Hh(pt(i)) <= h, i == 0))))
        mem = z3.And(z3.ForAll([x], z3.Implies(A(x), inl(x))), z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < N), A(pt(q)))))
        prove('the node found in the sorted list is the owner in the set', [mono, srt, picked, mem], owner(A, pt(i)))


def units(W, S, tier, want):
    return [PickUnit(W, S), LemmaUnit(W, S)] + [NewUnit(W, S, n) for n in ((1, 2, 3) if tier == 'quick' else (1, 2, 3, 5))]
