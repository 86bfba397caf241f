"""Verification of contracts: builds the initial states, runs the real code
symbolically and checks every obligation."""
import os
import re
import sys
import json
import time
import traceback
import z3
sys.setrecursionlimit(20000)
from terms import *
from rope import *
from engine import *
import engine
import models
from models import *
import spec
from spec import Spec, Ev, Fam, Range, SpecError
import loops

MOD = 'go.f110.dev/go-memcached'


def explore(I, st, fn, limit=4000):
    """run fn(state) on every feasible outcome of its decisions;
    returns [(state, value)]"""
    out, work = [], [[]]
    while work:
        pre = work.pop()
        s = st.clone()
        s.dq, s.dn, s.alts = list(pre), [], []
        keep, v = True, None
        try:
            v = fn(s)
        except Dead:
            keep = False
        except Unsupported as e:
            v = ('unsupported', str(e))
        except GoPanic as e:
            v = ('unsupported', 'panic in specification: ' + e.msg)
        alts = s.alts
        s.alts, s.dq, s.dn = None, [], []
        work.extend(alts)
        if keep:
            out.append((s, v))
        if len(out) + len(work) > limit:
            raise Unsupported('specification branches too much')
    return out


class World:
    """the loaded program with its packages initialised"""

    def __init__(self, js, solver_ms=4000):
        self.p = Program(js)
        find_loops(self.p)
        self.m = Models()
        self.I = Interp(self.p, self.m)
        self.I.solver_ms = solver_ms
        st = State(self.p, self.I)
        for g in models.SENTINELS:
            self.I.globalptr(st, g)
        for g in ('encoding/binary.BigEndian', 'encoding/binary.LittleEndian', 'io.Discard', 'os.Stderr'):
            self.I.globalptr(st, g)
        for g in sorted(self.p.globals):
            self.I.globalptr(st, g)
        for pk in ('errors', 'client', 'cluster', 'proxy', 'server'):
            n = MOD + '/' + pk + '.init'
            if n not in self.p.funcs:
                continue
            s0 = st.clone()
            try:
                self.I.push(s0, self.p.funcs[n], [], [], None)
                r = [s for s in self.I.run(s0)]
                if len(r) != 1 or r[0].outcome[0] != 'return':
                    raise Unsupported('init of %s: %r' % (pk, [s.outcome for s in r]))
                st = r[0]
                st.outcome = None
            except Unsupported as e:
                st.approx += ('initialisation of package %s: %s' % (pk, e),)
        st.trace = ()
        self.base = st
        # everything the package variables refer to is shared by all connections of the process
        own = {st.ghost[('global', g)]: 'the package variable ' + g.split('/')[-1] for g in self.p.globals}
        ext = {v for k, v in st.ghost.items() if isinstance(k, tuple) and k[0] == 'global' and v not in own}
        self.shared = {o: own.get(o, 'what a package variable refers to') for o in st.heap if o not in ext}

    def interp(self):
        m = Models()
        I = Interp(self.p, m)
        I.solver_ms = self.I.solver_ms
        I.shared = self.shared
        return I

    def start(self, I):
        st = self.base.clone()
        st.I = I
        return st

    def call(self, I, st, fname, args):
        """all outcomes of fname(args)"""
        f = self.p.funcs.get(fname)
        if f is None:
            raise Unsupported('function %s does not exist' % fname)
        st.outcome = None
        st.result = None
        st.panic = None
        I.push(st, f, list(args), [], None)
        return I.run(st)


# ---------------------------------------------------------------- values of specification types
def mkvar(I, st, name, ty, idx=None):
    """fresh symbolic value of a specification type"""
    m = re.match(r'^(.*)\[(.*)\]$', ty)
    if m:
        base = m.group(1)
        cache = {}

        def at(i, base=base, name=name, cache=cache):
            k = tkey(i)
            if k not in cache:
                cache[k] = mkfam(I, spec.CURRENT['st'] or st, name, base, i)
            st2 = spec.CURRENT['st'] or st
            famfacts(st2, cache[k], base)
            return cache[k]
        f = Fam(at)
        f.name = name
        return f
    if ty in ('bytes', 'line', 'key', 'token', 'digits', 'linecr', 'text'):
        cls = {'bytes': ALL, 'line': LINECLS, 'key': KEYCLS, 'token': KEYCLS, 'digits': DIG,
               'linecr': cls_not(b'\n'), 'text': cls_not(b'\r\n ')}[ty]
        lo, hi = {'key': (1, 250), 'token': (1, 250), 'digits': (1, 20), 'line': (0, 2000), 'linecr': (0, 2000),
                  'text': (1, 2000)}.get(ty, (0, 1 << 30))
        ln = z3.Int('len_' + name)
        st.pc += [ln >= lo, ln <= hi]
        return sym(Var(name, cls, ln))
    if ty == 'bool':
        return z3.Bool(name)
    lo, hi = intrange(ty)
    v = z3.Int(name)
    st.pc += [v >= lo, v <= hi]
    return v


RANGES = {'u8': (0, 255), 'u16': (0, 65535), 'u32': (0, (1 << 32) - 1), 'u64': (0, (1 << 64) - 1),
          'i64': (-(1 << 63), (1 << 63) - 1), 'i32': (-(1 << 31), (1 << 31) - 1),
          'int': (-(1 << 63), (1 << 63) - 1), 'exp': (-(1 << 31), (1 << 31) - 1),
          'delta': (0, (1 << 63) - 1), 'ttl': (0, (1 << 31) - 1), 'ttl1': (-1, (1 << 31) - 1), 'count': (0, 1 << 30), 'nat': (0, (1 << 63) - 1),
          'cas1': (1, (1 << 64) - 1)}


def intrange(ty):
    if ty in RANGES:
        return RANGES[ty]
    raise SpecError('type ' + ty)


def mkfam(I, st, name, base, i):
    if base in ('bytes', 'key', 'line', 'token'):
        f = z3.Function('len_' + name, z3.IntSort(), z3.IntSort())
        cls = {'bytes': ALL, 'line': LINECLS, 'key': KEYCLS, 'token': KEYCLS}[base]
        return sym(Var(name, cls, f(T(i)), (i,)))
    if base == 'bool':
        return z3.Function(name, z3.IntSort(), z3.BoolSort())(T(i))
    return z3.Function(name, z3.IntSort(), z3.IntSort())(T(i))


def famfacts(st, v, base):
    if isinstance(v, Rope):
        ln = v.a[0].v.ln
        lo, hi = {'key': (1, 250), 'token': (1, 250), 'line': (0, 2000)}.get(base, (0, 1 << 30))
        c = and_(le(lo, ln), le(ln, hi))
    elif base == 'bool':
        return
    else:
        lo, hi = intrange(base)
        c = and_(le(lo, v), le(v, hi))
    k = ('famfact', tkey(c))
    if not st.facts.get(k):
        st.facts[k] = True
        st.pc.append(c)


class Receiver:
    """a protocol client built by its real constructor"""
    KINDS = {'Text': 'ServerWithTextProtocol', 'Meta': 'ServerWithMetaProtocol', 'Binary': 'ServerWithBinaryProtocol'}


def during_operations(p):
    """the functions that may run during an operation: those reachable from anything but the
    constructors, Close and Reconnect (what is started with 'go' runs during operations)"""
    skip = lambda n: n.split('.')[-1].startswith('New') or n.split('.')[-1] in ('Close', 'Reconnect')

    def refs(x, acc):
        if isinstance(x, dict):
            if x.get('k') == 'func' and x.get('n') in p.funcs:
                acc.add(x['n'])
            for v in x.values():
                refs(v, acc)
        elif isinstance(x, list):
            for v in x:
                refs(v, acc)
    uses, spawned, called = {}, set(), set()
    for n, f in p.funcs.items():
        uses[n] = set()
        for b in f['blocks']:
            for ins in b['instrs']:
                acc = set()
                refs(ins, acc)
                uses[n] |= acc
                if ins['op'] == 'Go':
                    spawned |= acc
        called |= uses[n]
    todo = [n for n in p.funcs if not skip(n) and (n in spawned or n not in called or n.split('.')[-1][:1].isupper())]
    seen = set(todo)
    while todo:
        for m in uses[todo.pop()]:
            if m not in seen and not skip(m):
                seen.add(m)
                todo.append(m)
    return sorted(seen)


def mutated_fields(p, tname):
    """fields of a struct type that are stored to outside of its construction:
    arbitrary when another operation may have run in between"""
    out = set()
    full = '%s/client.%s' % (p.module, tname)
    for n in during_operations(p):
        f = p.funcs[n]
        addr = {}
        for b in f['blocks']:
            for ins in b['instrs']:
                if ins['op'] == 'FieldAddr' and ins['x'].get('t') in ('*' + full,):
                    addr[ins['reg']] = ins['field']
                if ins['op'] == 'Store' and ins['addr'].get('n') in addr:
                    out.add(addr[ins['addr']['n']])
                c = ins.get('call')
                if c and 'invoke' not in c and 'sync/atomic.' in c['fn'].get('n', '') and 'Load' not in c['fn']['n'] and c['args'] \
                        and c['args'][0].get('n') in addr:
                    out.add(addr[c['args'][0]['n']])
    return out


def install_hooks(W, I, st, recv=None, timeout=None):
    """ghost obligations of exchanges with the connection"""
    ext = I.models.ext

    def io(I, st, conn, kind):
        if st.ghost.get('inop') is None:
            return
        held = st.ghost.get('held', ())
        excl = [h for h in held if h[2]]
        st.vcs += ('C08.locked', 'C16.deadline', 'C17.deadline')
        if not excl:
            st.fail('C08.locked', 'the connection is used without holding the lock')
        else:
            ks = frozenset((h[0], h[1]) for h in excl)
            cur = st.ghost.get('iolocks')
            cur = ks if cur is None else (cur & ks)
            if not cur:
                st.fail('C08.span', 'the lock is released between request and reply')
            st.ghost['iolocks'] = cur
        if conn in st.ghost.get('stale', ()):
            st.fail('C08.stale', 'uses a connection read before the lock was acquired')
        t = st.ghost.get('timeout')
        if t is not None:
            d = st.ghost.get(('c.%sdl' % kind, conn))
            ok = isinstance(d, Opaque) and isinstance(d.info, tuple) and d.info[0] == 'now' and d.info[1] == st.ghost.get('opid') \
                and st.must(or_(le(t, 0), eq(d.info[2], t)))
            if not ok and not st.must(le(t, 0)):
                st.fail('C16.deadline', 'no %s deadline of now+Timeout is set before the exchange' % {'r': 'read', 'w': 'write'}[kind])
                if not (isinstance(d, Opaque) and isinstance(d.info, tuple) and d.info[0] == 'now' and d.info[1] == st.ghost.get('opid')
                        and st.must(or_(le(t, 0), le(d.info[2], t)))):
                    st.fail('C17.deadline', 'waits for the peer without a %s deadline of at most Timeout' % {'r': 'read', 'w': 'write'}[kind])

    def unflushed(I, st, o, p):
        if st.ghost.get('inop') is None:
            return
        st.fail('C01.flush', 'waits for the reply while request bytes are not flushed')

    ext['$io'] = io
    ext['$unflushed'] = unflushed


def dial_success(I, st, a, ins):
    c = conn_new(I, st)
    st.trace += (('dial', c.v.oid),)
    return (c, None)


def dial_any(I, st, a, ins):
    if st.choose(2, 'dial fails') == 1:
        st.trace += (('dial', None),)
        return (None, st.err('*net.OpError'))
    return dial_success(I, st, a, ins)


def make_receiver(W, I, st, tname):
    """state with a constructed client; returns (state, pointer)"""
    I.models.ext['$dial'] = dial_success
    name = sym(Var('srvname', ALL, z3.Int('len_srvname')))
    st.pc += [z3.Int('len_srvname') >= 0, z3.Int('len_srvname') <= 1000]
    args = [IfaceV('$ctx', None), name, lit('tcp'), lit('addr:1'), NILSLICE]
    r = W.call(I, st, '%s/client.New%s' % (MOD, tname), args)
    ok = [s for s in r if s.outcome[0] == 'return' and s.result[1] is None]
    if len(ok) != 1 or len(r) != 1:
        raise Unsupported('constructor of %s: %r' % (tname, [(s.outcome, s.result) for s in r]))
    st = ok[0]
    p = st.result[0]
    st.outcome = st.result = None
    st.trace = ()
    t = '%s/client.%s' % (MOD, tname)
    fi = W.p.fieldidx(t, 'Timeout')
    tv = z3.Int('Timeout')
    st.pc += [tv >= 0, tv <= (1 << 62)]
    st.heap[p.oid] = st.setpath(st.heap[p.oid], (fi,), tv)
    st.ghost['timeout'] = tv
    return st, p, name


def interfere(W, I, st, p, tname):
    """another operation may have run: the connection may be a new one"""
    root = p.oid
    conns = set()
    seen = set()
    order = []

    def reach(v):
        if isinstance(v, Ptr):
            if v.oid in seen:
                return
            seen.add(v.oid)
            order.append(v.oid)
            o = st.heap.get(v.oid)
            for k in ('r.src', 'w.dst'):
                c = st.ghost.get((k, v.oid))
                if c is not None:
                    reach(Ptr(c))
            reach(o)
        elif isinstance(v, StructV):
            for x in v.f:
                reach(x)
        elif isinstance(v, IfaceV):
            reach(v.v)
        elif isinstance(v, SliceV) and v.base is not None:
            reach(v.base)
        elif isinstance(v, LArr):
            for x in v.a:
                if isinstance(x, EL):
                    reach(x.v)
        elif isinstance(v, FuncV):
            for x in v.b:
                reach(x)
    reach(p)
    m = {}
    for o in order:
        v = st.heap.get(o)
        if isinstance(v, Opaque) and v.n in ('conn', 'bufio.Reader', 'bufio.Writer'):
            m[o] = st.new(v)
        elif isinstance(v, StructV) and v.t == 'bufio.ReadWriter' and o != root:
            m[o] = st.new(v)

    def rw(v):
        if isinstance(v, Ptr):
            return Ptr(m[v.oid], v.path) if v.oid in m else v
        if isinstance(v, StructV):
            return StructV(v.t, [rw(x) for x in v.f])
        if isinstance(v, IfaceV):
            return IfaceV(v.t, rw(v.v))
        if isinstance(v, SliceV) and v.base is not None:
            return SliceV(rw(v.base), v.off, v.ln, v.cap)
        if isinstance(v, FuncV):
            return FuncV(v.n, [rw(x) for x in v.b])
        if isinstance(v, LArr):
            return LArr([EL(rw(x.v)) if isinstance(x, EL) else x for x in v.a], v.t)
        return v
    for o in order:
        st.heap[m.get(o, o)] = rw(st.heap[o])
    for k, v in list(st.ghost.items()):
        if isinstance(k, tuple) and len(k) == 2 and k[1] in m and isinstance(k[0], str) and k[0][:2] in ('c.', 'r.', 'w.'):
            if k[0] in ('r.src', 'w.dst', 'c.reader') and v in m:
                v = m[v]
            st.ghost[(k[0], m[k[1]])] = v
    for c in m.values():
        # the deadlines are those of the other operation
        st.ghost.pop(('c.rdl', c), None)
        st.ghost.pop(('c.wdl', c), None)
    st.ghost['stale'] = tuple(m)
    st.ghost['conn'] = m.get(st.ghost.get('conn'), st.ghost.get('conn'))
    # fields modified by operations hold arbitrary values
    t = '%s/client.%s' % (MOD, tname)
    d = W.p.under(t)
    v = st.heap[root]
    for i in mutated_fields(W.p, tname):
        f = d['fields'][i]
        if W.p.under(f['type'])['kind'] in ('basic', 'array', 'struct', 'slice') and f['type'] not in ('sync.Mutex', 'sync.RWMutex'):
            v = st.setpath(v, (i,), havoc_like(I, st, v.f[i], f['type'], 'field_' + f['name']))
    st.heap[root] = v


# ---------------------------------------------------------------- caller data
def mkitem(W, I, st, name, flagcase):
    t = MOD + '/client.Item'
    vals = {}
    key = mkvar(I, st, name + '_Key', 'key')
    value = mkvar(I, st, name + '_Value', 'bytes')
    spare = mkvar(I, st, name + '_spare', 'bytes')
    vo = st.new(BArr(cat(value, spare)), owner='caller', what='spare capacity or bytes of item.Value')
    vals['Key'] = key
    vln = rlen(value)
    vals['Value'] = SliceV(Ptr(vo), 0, vln, add(vln, rlen(spare)))
    if flagcase == 'nil':
        vals['Flags'] = NILSLICE
        fl, flags = EMPTY, 0
    else:
        if flagcase == 'empty':
            fl, flags, n = EMPTY, 0, 0
        else:
            flags = z3.Int(name + '_flags')
            st.pc += [flags >= 0, flags < (1 << 32)]
            fl, n = be(flags, 4), 4
        fsp = mkvar(I, st, name + '_fspare', 'bytes')
        fo = st.new(BArr(cat(fl, fsp)), owner='caller', what='item.Flags')
        vals['Flags'] = SliceV(Ptr(fo), 0, n, add(n, rlen(fsp)))
    exp = mkvar(I, st, name + '_Expiration', 'exp')
    cas = mkvar(I, st, name + '_Cas', 'u64')
    vals['Expiration'], vals['Cas'] = exp, cas
    vals['Server'] = sym(Var(name + '_Server', ALL, z3.Int('len_%s_Server' % name)))
    st.pc += [z3.Int('len_%s_Server' % name) >= 0, z3.Int('len_%s_Server' % name) <= 1000]
    fs = []
    for f in W.p.under(t)['fields']:
        fs.append(vals[f['name']] if f['name'] in vals else W.p.zero(f['type']))
    oid = st.new(StructV(t, fs), owner='caller', what='the item')
    old = {'Key': key, 'Value': value, 'Flags': fl, 'flags': flags, 'Expiration': exp, 'Cas': cas,
           'Server': vals['Server'], 'hasflags': flagcase == 'four'}
    return Ptr(oid), old


def mkkeys(W, I, st, name, n):
    """caller-owned list of n keys"""
    fam = mkvar(I, st, name, 'key[n]')
    spec.CURRENT['st'] = st
    if isc(n):
        at = [EL(fam.at(i)) for i in range(n)]
        vals = [x.v for x in at]
        oid = st.new(LArr(at, 'string'), owner='caller', what='the key list')
    else:
        g = Gen(name, fam.at, key=('fam', name), info={'kind': 'keys'})
        oid = st.new(lmk([LSeg(g, 0, n)], 'string'), owner='caller', what='the key list')
        vals = None
    if isc(n) and n == 0:
        return NILSLICE, fam
    return SliceV(Ptr(oid), 0, n, n), fam


class Result:
    """outcome of one unit: obligations with status"""

    def __init__(self, unit):
        self.unit = unit
        self.obs = {}          # name -> {'status','paths','msgs'}
        self.paths = 0
        self.unsupported = []
        self.time = 0
        self.bounded = None
        self.models = []       # counterexamples
        self.reach = 0

    def ok(self, ob):
        self.obs.setdefault(ob, {'ok': 0, 'fail': 0, 'unknown': 0, 'msgs': []})['ok'] += 1

    def bad(self, ob, msg, approx=()):
        o = self.obs.setdefault(ob, {'ok': 0, 'fail': 0, 'unknown': 0, 'msgs': []})
        o['unknown' if approx else 'fail'] += 1
        if len(o['msgs']) < 5:
            o['msgs'].append(msg + (' (approximate: %s)' % '; '.join(approx)[:300] if approx else ''))

    def js(self):
        return {'unit': self.unit, 'obs': self.obs, 'paths': self.paths, 'unsupported': self.unsupported[:5],
                'time': self.time, 'bounded': self.bounded, 'models': self.models, 'reach': self.reach}


# implicit obligation -> property
def prop_of(ob):
    m = re.match(r'(C\d\d)', ob)
    if m:
        return m.group(1)
    if ob.startswith('pool.'):
        return 'C08'
    return None


class ClientUnit:
    """one behaviour of one client operation"""

    kind = 'client'

    def __init__(self, W, S, cname, beh, flagcase=None, n=None):
        self.W, self.S, self.cname, self.beh, self.flagcase, self.n = W, S, cname, beh, flagcase, n
        self.c = S.contracts[cname]
        self.tname, self.op = cname.split('.')
        self.name = '%s/%s' % (cname, beh.name if beh else '-') + (('/flags=' + flagcase) if flagcase else '') + \
            (('/n=%s' % n) if n is not None else '')

    def function(self):
        return 'client.' + self.cname

    def setup(self, I):
        W = self.W
        st = W.start(I)
        install_hooks(W, I, st)
        st, p, name = make_receiver(W, I, st, self.tname)
        st.ghost['conn'] = st.ghost['conns'][-1]
        env = {'s': {'name': name, 'Timeout': st.ghost['timeout']}}
        args = [p]
        self.old = {}
        for nm, ty in self.c.params:
            if ty == 'item':
                v, old = mkitem(W, I, st, nm, self.flagcase or 'four')
                env[nm] = old
            elif ty == 'keys':
                n = self.n
                if n is None:
                    n = z3.Int('n')
                    st.pc += [n >= 0, n <= (1 << 20)]
                v, fam = mkkeys(W, I, st, nm, n)
                env[nm] = fam
                env['n'] = n
            elif ty == 'unused':
                v = mkvar(I, st, nm, 'int')
                env[nm] = v
            else:
                v = mkvar(I, st, nm, ty)
                env[nm] = v
            args.append(v)
        return st, p, args, env

    def run(self):
        W = self.W
        I = W.interp()
        res = Result(self.name)
        t0 = time.time()
        if self.n is not None:
            res.bounded = 'key lists of length %s' % self.n
        st, p, args, env = self.setup(I)
        self.exercise(I, res, st, p, args, env)
        res.time = time.time() - t0
        return res

    def exercise(self, I, res, st, p, args, env):
        """the operation from the state st, with every obligation"""
        W = self.W
        self.snapshot = {o: st.heap[o] for o, m in st.meta.items() if m.get('owner') == 'caller'}
        beh, c = self.beh, self.c

        def prep(s):
            spec.CURRENT['st'] = s
            e = dict(env)
            for nm, ty in beh.vars:
                e[nm] = mkvar(I, s, nm, ty)
            ev = Ev(self.S, s, e, I)
            for q in c.requires + beh.when:
                if not ev.truth(ev.ev(q.expr)):
                    raise Dead()
            conn = s.ghost['conn']
            if beh.adversarial:
                rp = mkvar(I, s, 'reply', 'bytes')
                s.ghost['endmode'] = 'eof'
                s.ghost['faults'] = True
            else:
                rp = ev.rope(ev.ev(beh.reply.expr))
                s.ghost['endmode'] = 'block'
            e['reply'] = rp
            s.ghost[('c.in', conn)] = rp
            if not s.sat():
                raise Dead()
            return e
        starts = explore(I, st, prep)
        if not starts:
            res.bad('vacuous', 'the behaviour has no instances')
        I.models.ext['$locked'] = self.locked(I, p)
        I.on_loop = loops.on_loop
        if beh.adversarial:
            I.maxsplit = 2
            I.coarse = True
            I.variants = 'C06.variant'
        I.loop_policy = loops.adversarial_policy if beh.adversarial else loops.unrolling_policy
        for s, e in starts:
            if isinstance(e, tuple):
                res.unsupported.append(e[1])
                continue
            s.ghost['inop'] = True
            s.ghost['opid'] = 1
            s.trace = ()
            I.deadline = time.time() + (420 if beh.adversarial else 150)
            try:
                ends = W.call(I, s, '(*%s/client.%s).%s' % (MOD, self.tname, self.op), args)
            except Unsupported as ex:
                res.unsupported.append(str(ex))
                continue
            for f in ends:
                f.ghost['inop'] = None
                res.paths += 1
                self.finish(I, res, f, p, e)

    def locked(self, I, p):
        def h(I, st, mu):
            if st.ghost.get('inop') and not st.ghost.get('interfered'):
                st.ghost['interfered'] = True
                interfere(self.W, I, st, p, self.tname)
        return h

    def finish(self, I, res, f, p, env):
        n0 = {k: v['fail'] for k, v in res.obs.items()}
        if not res.reach and f.sat() and not f.approx:
            res.reach += 1
        self.finish1(I, res, f, p, env)
        new = [k for k, v in res.obs.items() if v['fail'] > n0.get(k, 0)]
        new = [k for k in new if sum(1 for m in res.models if m['ob'] == k) < 3]
        if new and len(res.models) < 12:
            m = counterexample(f, env, self)
            if m is not None:
                for k in new:
                    res.models.append({'ob': k, 'env': m})

    def finish1(self, I, res, f, p, env):
        kind, info = f.outcome
        approx = f.approx
        bad = set()
        reply = {'Get': 'C02', 'GetMulti': 'C03'}.get(self.op, 'C04') + '.shared'
        for ob, msg in f.fails:
            if ob.startswith('shared.'):
                # it has happened by now, whatever follows
                ob = 'C01.shared' if ob == 'shared.request' else reply
            elif kind == 'unsupported':
                continue
            res.bad(ob, msg + ' ' + self.where(f), approx)
            bad.add(ob)
        if kind == 'unsupported':
            res.unsupported.append(info)
            return
        for ob in ('C01.shared', reply):
            if ob not in bad:
                res.ok(ob)
            if ob == 'C06.variant':
                res.bad('C17.variant', msg + ' ' + self.where(f), approx)
        for ob in set(f.vcs):
            if ob not in bad:
                res.ok(ob)
                if ob == 'C06.variant':
                    res.ok('C17.variant')
        if kind == 'cut':
            return
        if kind in ('deadlock', 'blocked') or (kind == 'return' and f.ghost.get('held', ())):
            res.bad('C17.released', 'the operation keeps the lock, or waits for a lock for ever ' + self.where(f), approx)
        elif kind == 'return':
            res.ok('C17.released')
        if kind == 'panic':
            res.bad('C06.nopanic', 'panic: %s %s' % (info, self.where(f)), approx)
            self.noreturn(res, 'panics', f)
            return
        res.ok('C06.nopanic')
        malformed = 'malformed' in self.beh.extra
        if kind == 'blocked' and malformed:
            return                            # waiting for the rest of a reply that is not well-formed
        if kind == 'blocked':
            res.bad('C05.consume', 'the operation waits for bytes beyond the complete reply %s' % self.where(f), approx)
            self.noreturn(res, 'waits for bytes beyond the complete reply', f)
            return
        if kind in ('deadlock', 'fatal'):
            self.noreturn(res, 'does not return', f)
            return
        if kind != 'return':
            res.bad('C06.nopanic', 'the process ends (%s)' % kind, approx)
            return
        if f.ghost.get('held', ()):
            res.bad('C08.released', 'the lock is still held when the operation returns ' + self.where(f), approx)
        else:
            res.ok('C08.released')
        # results bound to names
        vals = f.result if isinstance(f.result, tuple) else (f.result,)
        env = dict(env)
        for nm, v in zip(self.c.results, vals):
            env[nm] = v
        conn = f.ghost['conn']
        self.frame(I, res, f, vals, p)
        if self.beh.adversarial:
            if f.ghost.get('io_failed'):
                if 'err' in env and env['err'] is None:
                    res.bad('C04.iofailure', 'success is returned although the connection failed ' + self.where(f), approx)
                else:
                    res.ok('C04.iofailure')
        else:
            left = f.norm(f.ghost[('c.in', conn)])
            L = rlen(left)
            if malformed:
                pass
            elif not f.must(eq(L, 0)):
                res.bad('C05.consume', 'reply bytes left unread: %r %s' % (left, self.where(f)), approx)
                if self.n is not None:
                    res.bad('C03.consume', 'a part of the batch is left unread: %r %s' % (left, self.where(f)), approx)
            else:
                res.ok('C05.consume')
                if self.n is not None:
                    res.ok('C03.consume')
            pend = [f.norm(v) for k, v in f.ghost.items() if isinstance(k, tuple) and k[0] == 'w.pend' and f.ghost[('w.dst', k[1])] == conn]
            if any(not f.must(eq(rlen(x), 0)) for x in pend):
                res.bad('C01.flush', 'request bytes are left in the write buffer', approx)
            else:
                res.ok('C01.flush')
            sends = self.beh.sends or self.c.sends
            if sends is not None:
                self.check(I, res, f, env, 'C01.sends', sends, lambda ev, v: f_eq(ev, f_out(ev.st, conn), v))
        for cl in self.beh.ensures + self.c.ensures:
            self.check(I, res, f, env, ['%s.ensures %s' % (tag, cl.text.strip()) for tag in (cl.tags or ['?'])], cl, None)

    def noreturn(self, res, what, f):
        """the clauses on the result of an exact behaviour do not hold when there is no result"""
        if self.beh.adversarial:
            return
        for cl in self.beh.ensures + self.c.ensures:
            for tag in cl.tags:
                res.bad('%s.ensures %s' % (tag, cl.text.strip()), 'the operation %s %s' % (what, self.where(f)), f.approx)

    def check(self, I, res, f, env, obs, clause, test):
        if isinstance(obs, str):
            obs = [obs]

        def go(s):
            spec.CURRENT['st'] = s
            ev = Ev(self.S, s, env, I)
            v = ev.ev(clause.expr)
            if test is not None:
                v = test(ev, v)
            return ev.truth(v)
        try:
            outs = explore(I, f, go)
        except SpecError as e:
            for ob in obs:
                res.bad(ob, 'specification: %s %s' % (e, self.where(f)), f.approx)
            return
        except Unsupported as e:
            res.unsupported.append('%s: %s' % (obs[0], e))
            return
        good = True
        for s, v in outs:
            if isinstance(v, tuple):
                res.unsupported.append('%s: %s' % (obs[0], v[1]))
                good = False
            elif not v:
                good = False
                msg = '%s (%s)' % (clause.text.strip(), clause.src)
                if test is not None:
                    msg = 'sent %r' % (s.norm(s.ghost[('c.out', s.ghost['conn'])]),)
                for ob in obs:
                    res.bad(ob, msg + ' ' + self.where(s) + ' ' + self.rv(s, env), s.approx)
        if good:
            for ob in obs:
                res.ok(ob)

    def rv(self, s, env):
        out = []
        for nm in self.c.results:
            if nm in env:
                out.append('%s=%s' % (nm, show(s, env[nm])))
        return '; '.join(out)

    def where(self, f):
        return '[path: ' + '; '.join('%s=%s' % (a, b) for a, b in f.path)[-400:] + ']'

    def frame(self, I, res, f, vals, p):
        """caller data unchanged, results not aliased with reused memory"""
        ok = True
        for o, v in self.snapshot.items():
            if f.heap[o] is not v:
                ok = False
                res.bad('C07.frame', 'caller memory changed: ' + f.meta[o].get('what', ''), f.approx)
        seen = set()
        # memory the receiver still reaches
        rec = set()

        def reach(v, acc):
            if isinstance(v, Ptr):
                if v.oid in acc:
                    return
                acc.add(v.oid)
                reach(f.heap.get(v.oid), acc)
            elif isinstance(v, StructV):
                for x in v.f:
                    reach(x, acc)
            elif isinstance(v, IfaceV):
                reach(v.v, acc)
            elif isinstance(v, SliceV) and v.base is not None:
                reach(v.base, acc)
            elif isinstance(v, LArr):
                for x in v.a:
                    if isinstance(x, EL):
                        reach(x.v, acc)
            elif isinstance(v, MapV):
                for a, b in v.e:
                    reach(b, acc)
        for v in vals:
            if isinstance(v, IfaceV):
                continue
            reach(v, seen)
        reach(p, rec)
        for k, g in f.ghost.items():
            if isinstance(k, tuple) and k[0] == 'global':
                reach(Ptr(g), rec)
        for o in seen:
            m = f.meta.get(o, {})
            if m.get('owner') == 'bufview':
                ok = False
                res.bad('C07.alias', 'the result refers to the connection read buffer', f.approx)
            if m.get('pool') or m.get('freed'):
                ok = False
                res.bad('C07.alias', 'the result refers to a pooled object', f.approx)
            if m.get('owner') == 'caller':
                ok = False
                res.bad('C07.alias', 'the result refers to memory of the caller', f.approx)
        if (seen & rec):
            ok = False
            res.bad('C07.alias', 'the result shares memory with the client', f.approx)
        if ok:
            res.ok('C07.frame')


class NoModel(Exception):
    pass


class Concretizer:
    """concrete values of symbolic ones in a model of the path condition"""

    def __init__(self, st):
        self.st = st
        self.m = None
        self.vars = {}
        self.lens = []

    def collect(self, r):
        for a in r.a:
            if isinstance(a, Seg):
                self.lens.append(a.v.ln)

    def solve(self):
        for bound in (24, 400, 70000, None):
            s = z3.Solver()
            s.set('timeout', 3000)
            s.add(*self.st.pc)
            if bound is not None:
                s.add(*[T(le(x, bound)) for x in self.lens])
            if s.check() == z3.sat:
                self.m = s.model()
                return
        raise NoModel()

    def num(self, t):
        if isc(t):
            return t
        v = self.m.eval(t, model_completion=True)
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_true(v) or z3.is_false(v):
            return z3.is_true(v)
        raise NoModel()

    def var(self, v):
        k = (v.name,) + tuple(self.num(i) for i in v.idx)
        if k not in self.vars:
            n = self.num(v.ln)
            if n > 200000 or n < 0:
                raise NoModel()
            cl = cls_list(v.cls)
            pref = [b for b in cl if 97 <= b <= 122] or cl
            if not pref and n:
                raise NoModel()
            out = bytearray()
            h = sum(map(ord, v.name))
            for i in range(n):
                b = self.m.eval(v.at(i)) if n <= 400 else None
                if b is not None and z3.is_int_value(b) and b.as_long() in range(256) and (v.cls >> b.as_long()) & 1:
                    out.append(b.as_long())
                else:
                    out.append(pref[(h + i) % len(pref)])
            self.vars[k] = bytes(out)
        return self.vars[k]

    def rope(self, r):
        out = b''
        for a in r.a:
            if isinstance(a, Lit):
                out += a.b
            elif isinstance(a, Seg):
                b = self.var(a.v)
                lo, hi = self.num(a.lo), self.num(a.hi)
                if not 0 <= lo <= hi <= len(b):
                    raise NoModel()
                out += b[lo:hi]
            elif isinstance(a, Enc):
                x = self.num(a.t) % (1 << (8 * a.w))
                out += x.to_bytes(a.w, 'big')[a.lo:a.hi]
            elif isinstance(a, Dec):
                out += str(self.num(a.t)).encode()
            elif isinstance(a, Rep):
                n = self.num(a.n)
                if n > 200000:
                    raise NoModel()
                out += bytes([a.c]) * n
            elif isinstance(a, Fold):
                lo, hi = self.num(a.lo), self.num(a.hi)
                if hi - lo > 64:
                    raise NoModel()
                for j in range(lo, hi):
                    x = a.g.at(j)
                    if not isinstance(x, Rope):
                        raise NoModel()
                    out += self.rope(self.st.norm(x))
            else:
                raise NoModel()
        return out


def counterexample(f, env, unit):
    try:
        spec.CURRENT['st'] = f
        C = Concretizer(f)
        flat = []

        def walk(v):
            if isinstance(v, Rope):
                C.collect(f.norm(v))
            elif isinstance(v, dict):
                for x in v.values():
                    walk(x)
        for k, v in env.items():
            walk(v)
        C.solve()
        n = C.num(env['n']) if 'n' in env else 0
        if n > 40:
            raise NoModel()

        def conc(v):
            if isinstance(v, Rope):
                return {'b': C.rope(f.norm(v)).hex()}
            if isinstance(v, bool) or v is None:
                return v
            if isc(v):
                return {'i': str(v)}
            if z3.is_expr(v):
                x = C.num(v)
                return x if isinstance(x, bool) else {'i': str(x)}
            if isinstance(v, dict):
                return {'d': {a: conc(b) for a, b in v.items()}}
            if isinstance(v, Fam):
                return {'fam': [conc(v.at(i)) for i in range(n)], 'name': v.name}
            return None
        return {k: conc(v) for k, v in env.items() if conc(v) is not None or v is None}
    except (NoModel, Unsupported, Dead, z3.Z3Exception, SpecError, OverflowError) as e:
        return None


def unconc(j):
    """specification value of a concretised one"""
    if isinstance(j, bool) or j is None:
        return j
    if 'b' in j:
        return lit(bytes.fromhex(j['b']))
    if 'i' in j:
        return int(j['i'])
    if 'd' in j:
        return {a: unconc(b) for a, b in j['d'].items()}
    if 'fam' in j:
        vals = [unconc(x) for x in j['fam']]
        fm = Fam(lambda i: vals[i], concrete=vals)
        fm.name = j['name']
        return fm
    raise ValueError(j)


def f_out(st, conn):
    return st.norm(st.ghost[('c.out', conn)])


def f_eq(ev, a, b):
    return ev.st.req(ev.rope(a), ev.rope(b))


def show(st, v, d=0):
    try:
        if isinstance(v, Rope):
            return repr(st.norm(v))
        if isinstance(v, SliceV):
            if v.base is None:
                return 'nil'
            b = st.sbase(v)
            if isinstance(b, BArr):
                return 'bytes%r[%s:+%s]' % (st.norm(b.r), v.off, v.ln)
            return '[' + ', '.join(show(st, x.v if isinstance(x, EL) else x, d + 1) for x in b.a) + ']'
        if isinstance(v, Ptr) and d < 3:
            return '&' + show(st, st.heap[v.oid], d + 1)
        if isinstance(v, StructV):
            return '{' + ', '.join(show(st, x, d + 1) for x in v.f) + '}'
        if isinstance(v, IfaceV):
            return '%s(%s)' % (v.t, show(st, v.v, d + 1))
    except Exception as e:
        return '?'
    return repr(v)
