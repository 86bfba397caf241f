"""Symbolic execution of go/ssa functions.

Every instruction of the real code is interpreted over symbolic values.  A
branch, a slice bound, a type assertion or a byte-string comparison whose
outcome is not fixed by the path condition splits the path; infeasible sides
are removed by the solver.  Calls to functions of the module are entered
(their bodies are the current source); calls to the standard library use the
contracts of models.py.
"""
import base64
import itertools
import time
import z3
from terms import *
from rope import *


class Unsupported(Exception):
    pass


class Dead(Exception):
    """the current path is infeasible"""


class GoPanic(Exception):
    def __init__(self, msg):
        self.msg = msg


class Stop(Exception):
    """stop the path here with an outcome"""

    def __init__(self, kind, info=None):
        self.kind, self.info = kind, info


# ---------------------------------------------------------------- values
class Ptr:
    __slots__ = ('oid', 'path')

    def __init__(self, oid, path=()):
        self.oid, self.path = oid, path

    def __repr__(self):
        return '&%s%s' % (self.oid, ''.join('.%s' % (p,) for p in self.path))

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.oid == o.oid and pathkey(self.path) == pathkey(o.path)

    def __hash__(self):
        return hash((self.oid, pathkey(self.path)))


def pathkey(p):
    return tuple(x if isinstance(x, int) else tkey(x[1]) if isinstance(x, tuple) else x for x in p)


class SliceV:
    __slots__ = ('base', 'off', 'ln', 'cap')

    def __init__(self, base, off, ln, cap):
        self.base, self.off, self.ln, self.cap = base, off, ln, cap

    def __repr__(self):
        return 'slice(%r,%s,%s,%s)' % (self.base, self.off, self.ln, self.cap)


NILSLICE = SliceV(None, 0, 0, 0)


class StructV:
    __slots__ = ('t', 'f')

    def __init__(self, t, f):
        self.t, self.f = t, tuple(f)

    def __repr__(self):
        return '%s%r' % (self.t.split('.')[-1], self.f)


class BArr:
    """array of bytes"""
    __slots__ = ('r',)

    def __init__(self, r):
        self.r = r

    def __repr__(self):
        return 'barr%r' % (self.r,)


class EL:
    __slots__ = ('v',)
    len = 1

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return repr(self.v)


class LSeg:
    """elements gen.at(lo) .. gen.at(hi-1)"""
    __slots__ = ('g', 'lo', 'hi')

    def __init__(self, g, lo, hi):
        self.g, self.lo, self.hi = g, lo, hi

    @property
    def len(self):
        return sub(self.hi, self.lo)

    def __repr__(self):
        return '%r[%s..%s]' % (self.g, self.lo, self.hi)


class LFold:
    """for j in [lo,hi): the elements of the (possibly empty) list gen.at(j)"""
    __slots__ = ('g', 'lo', 'hi')

    def __init__(self, g, lo, hi):
        self.g, self.lo, self.hi = g, lo, hi

    @property
    def len(self):
        f = z3.Function('lfoldlen_' + self.g.name, z3.IntSort(), z3.IntSort(), z3.IntSort())
        return f(T(self.lo), T(self.hi))

    def __repr__(self):
        return 'lfold(%r,%s,%s)' % (self.g, self.lo, self.hi)


class LArr:
    """array of non-byte elements"""
    __slots__ = ('a', 't')

    def __init__(self, a, t):
        self.a, self.t = tuple(a), t

    def __repr__(self):
        return '[%s]' % ', '.join(map(repr, self.a))


def lmk(atoms, t):
    out = []
    for x in atoms:
        if not isinstance(x, EL):
            if tkey(x.lo) == tkey(x.hi):
                continue
            if out and type(out[-1]) is type(x) and out[-1].g.k == x.g.k and tkey(out[-1].hi) == tkey(x.lo):
                out[-1] = type(x)(x.g, out[-1].lo, x.hi)
                continue
        out.append(x)
    return LArr(out, t)


def llen(l):
    n = 0
    for x in l.a:
        n = add(n, x.len)
    return n


class IfaceV:
    __slots__ = ('t', 'v')

    def __init__(self, t, v):
        self.t, self.v = t, v

    def __repr__(self):
        return 'iface(%s,%r)' % (self.t, self.v)


class FuncV:
    __slots__ = ('n', 'b')

    def __init__(self, n, b=()):
        self.n, self.b = n, tuple(b)

    def __repr__(self):
        return 'func(%s)' % self.n


class MapV:
    __slots__ = ('e', 'sym')

    def __init__(self, e=(), sym=None):
        self.e, self.sym = tuple(e), sym

    def __repr__(self):
        return 'map%r' % (self.e,)


class Opaque:
    """value without modelled structure"""
    __slots__ = ('n', 'info')

    def __init__(self, n, info=None):
        self.n, self.info = n, info

    def __repr__(self):
        return '?' + self.n

    def __eq__(self, o):
        return isinstance(o, Opaque) and self.n == o.n

    def __hash__(self):
        return hash(self.n)


class Frame:
    __slots__ = ('fn', 'blk', 'ip', 'prev', 'regs', 'defers', 'dest', 'cont', 'gor', 'unw', 'loops')

    def __init__(self, fn):
        self.fn = fn
        self.blk, self.ip, self.prev = 0, 0, -1
        self.regs, self.defers = {}, ()
        self.dest, self.cont, self.gor, self.unw = None, None, False, False
        self.loops = {}

    def clone(self):
        f = Frame(self.fn)
        f.blk, f.ip, f.prev = self.blk, self.ip, self.prev
        f.regs, f.defers = dict(self.regs), self.defers
        f.dest, f.cont, f.gor, f.unw = self.dest, self.cont, self.gor, self.unw
        f.loops = dict(self.loops)
        return f


class Program:
    def __init__(self, js):
        self.funcs = js['funcs']
        self.types = js['types']
        self.methods = js['methods']
        self.globals = {g['name']: g['type'] for g in js['globals']}
        self.module = js['module']
        self._under = {}
        for name, f in self.funcs.items():
            f['name'] = name

    def under(self, t):
        """description of the underlying type"""
        d = self._under.get(t)
        if d is None:
            d = self.types.get(t)
            if d is None:
                raise Unsupported('type ' + t)
            while d['kind'] in ('named', 'alias'):
                d = self.types[d['under'] if d['kind'] == 'named' else d['to']]
            self._under[t] = d
        return d

    def uname(self, t):
        d = self.under(t)
        return d['name'] if d['kind'] == 'basic' else None

    def isbyte(self, t):
        return self.uname(t) in ('byte', 'uint8')

    def fieldidx(self, t, name):
        for i, f in enumerate(self.under(t)['fields']):
            if f['name'] == name:
                return i
        raise Unsupported('field %s of %s' % (name, t))

    def hasfield(self, t, name):
        return any(f['name'] == name for f in self.under(t)['fields'])

    def zero(self, t):
        d = self.under(t)
        k = d['kind']
        if k == 'basic':
            n = d['name']
            if n in ('string', 'untyped string'):
                return EMPTY
            if n in ('bool', 'untyped bool'):
                return False
            if n in INTS:
                return 0
            return None
        if k == 'struct':
            return StructV(t, [self.zero(f['type']) for f in d['fields']])
        if k == 'array':
            if self.isbyte(d['elem']):
                return BArr(rep(0, int(d['len'])))
            n = int(d['len'])
            if n > 4096:
                raise Unsupported('large array')
            z = self.zero(d['elem'])
            return LArr([EL(z)] * n, d['elem'])
        if k == 'slice':
            return NILSLICE
        if k == 'tuple':
            return tuple(self.zero(e['type']) for e in d['elems'])
        return None


class Stats:
    def __init__(self):
        self.solver_calls = 0
        self.solver_time = 0.0
        self.unknown = 0
        self.paths = 0
        self.steps = 0
        self.rope_eqs = 0


STATS = Stats()
_satcache = {}
_keep = []


class _Solver:
    s = None
    ms = None
    stack = []
    refs = []


SOLVERS = [_Solver(), _Solver(), _Solver()]


class State:
    def __init__(self, prog, interp):
        self.p, self.I = prog, interp
        self.heap, self.meta, self.ghost = {}, {}, {}
        self.frames = []
        self.pc = []
        self.bind, self.facts = {}, {}
        self.nid = 0
        self.trace = ()
        self.panic = None
        self.approx = ()
        self.fails = ()          # (obligation, message)
        self.vcs = ()            # obligations discharged on this path
        self.result = None
        self.outcome = None
        self.path = ()           # human readable decisions
        self.neg = ()            # (a, b, prefix): a != b, or b no prefix of a
        # decision replay for the current instruction
        self.dq, self.dn, self.alts = [], [], None

    def clone(self):
        s = State.__new__(State)
        s.p, s.I = self.p, self.I
        s.heap, s.meta, s.ghost = dict(self.heap), dict(self.meta), dict(self.ghost)
        s.frames = [f.clone() for f in self.frames]
        s.pc = list(self.pc)
        s.bind, s.facts = dict(self.bind), dict(self.facts)
        s.nid = self.nid
        s.trace, s.panic, s.approx = self.trace, self.panic, self.approx
        s.fails, s.vcs = self.fails, self.vcs
        s.result, s.outcome, s.path = self.result, self.outcome, self.path
        s.neg = self.neg
        s.dq, s.dn, s.alts = [], [], None
        return s

    # ------------------------------------------------------------ fresh
    def fresh(self, hint):
        self.nid += 1
        return '%s!%d' % (hint, self.nid)

    def fint(self, hint, lo=None, hi=None):
        v = z3.Int(self.fresh(hint))
        if lo is not None:
            self.pc.append(v >= lo)
        if hi is not None:
            self.pc.append(v <= hi)
        return v

    def fbool(self, hint):
        return z3.Bool(self.fresh(hint))

    def fvar(self, hint, cls=ALL, lo=0, hi=(1 << 40)):
        n = self.fresh(hint)
        ln = z3.Int('len_' + n)
        self.pc.append(ln >= lo)
        if hi is not None:
            self.pc.append(ln <= hi)
        return Var(n, cls, ln)

    def new(self, val, **meta):
        self.nid += 1
        oid = self.nid
        self.heap[oid] = val
        if meta:
            self.meta[oid] = meta
        return oid

    # ------------------------------------------------------------ solver
    def sat(self, *extra):
        ex = []
        for c in extra:
            if isc(c):
                if not c:
                    return False
            else:
                ex.append(c)
        if not ex and not self.pc:
            return True
        ids = [c.ast.value for c in self.pc]
        key = (tuple(ids), tuple(c.ast.value for c in ex))
        r = _satcache.get(key)
        if r is not None:
            return r
        r = self.query(ids, ex)
        if r == z3.unknown:
            self.approx += ('solver unknown',)
            r = True
        else:
            r = (r == z3.sat)
        _satcache[key] = r
        _keep.append((list(self.pc), ex))
        return r

    def query(self, ids, ex, model=None, pc=None):
        """one incremental solver follows the path conditions"""
        t0 = time.time()
        if pc is None:
            pc = self.pc
        # (of a few solvers, the one that shares the longest prefix)
        S, n = None, -1
        for c in SOLVERS:
            st = c.stack
            m, k = min(len(st), len(ids)), 0
            if c.s is None or c.ms != self.I.solver_ms:
                k = -1
            else:
                while k < m and st[k] == ids[k]:
                    k += 1
                if len(st) - k > 4 and k < len(ids) - 4:
                    k = min(k, 0)
            if k > n or S is None:
                S, n = c, k
        if n <= 0:
            S = SOLVERS[-1]
            n = 0
            if S.s is None or S.ms != self.I.solver_ms:
                S.s = z3.SimpleSolver()
                S.ms = self.I.solver_ms
                S.s.set('timeout', S.ms)
                S.stack = []
            m = min(len(S.stack), len(ids))
            while n < m and S.stack[n] == ids[n]:
                n += 1
        if S is not SOLVERS[0]:
            SOLVERS.remove(S)
            SOLVERS.insert(0, S)
        s, st = S.s, S.stack
        if n < len(st):
            s.pop(len(st) - n)
            del st[n:]
        for c, i in zip(pc[n:], ids[n:]):
            s.push()
            s.add(c)
            st.append(i)
        S.refs = list(pc)
        if ex:
            s.push()
            s.add(*ex)
        r = s.check()
        if model is not None and r == z3.sat:
            model.append(s.model())
        if ex:
            s.pop()
        STATS.solver_calls += 1
        STATS.solver_time += time.time() - t0
        if r == z3.unknown:
            # once more from scratch
            f = z3.SimpleSolver()
            f.set('timeout', S.ms)
            f.add(*pc)
            f.add(*ex)
            r = f.check()
            if r == z3.unknown:
                STATS.unknown += 1
            elif model is not None and r == z3.sat:
                model.append(f.model())
        return r

    def must(self, c):
        if isc(c):
            return bool(c)
        return not self.sat(not_(c))

    def assume(self, c):
        if isc(c):
            if not c:
                raise Dead()
            return
        c = simp(c)
        if isc(c):
            if not c:
                raise Dead()
            return
        self.pc.append(c)

    def decide(self, c, note=None):
        if not isc(c):
            c = simp(c)
        if isc(c):
            return bool(c)
        if self.dq:
            d = self.dq.pop(0)
            self.dn.append(d)
            v, forced = d
            if not forced:
                self.pc.append(c if v else not_(c))
                self.path += ((note or str(c)[:120], v),)
            return v
        t = self.sat(c)
        f = self.sat(not_(c)) if t else True
        if t and f:
            if self.alts is None:
                raise Unsupported('decision outside of a step')
            self.alts.append(self.dn + [(False, False)])
            self.dn.append((True, False))
            self.pc.append(c)
            self.path += ((note or str(c)[:120], True),)
            return True
        if not t and not self.sat():
            raise Dead()
        self.dn.append((t, True))
        return t

    def choose(self, n, note='choice'):
        """nondeterministic choice; every outcome is explored"""
        if n == 1:
            return 0
        if self.dq:
            d = self.dq.pop(0)
            self.dn.append(d)
            self.path += ((note, d[0]),)
            return d[0]
        if self.alts is None:
            raise Unsupported('choice outside of a step')
        for k in range(n - 1, 0, -1):
            self.alts.append(self.dn + [(k, None)])
        self.dn.append((0, None))
        self.path += ((note, 0),)
        return 0

    # ------------------------------------------------------------ obligations
    def fail(self, ob, msg):
        self.fails += ((ob, msg),)

    def oblige(self, ob, cond, msg):
        """cond must hold on this path"""
        self.vcs += (ob,)
        if self.must(cond):
            return True
        self.fail(ob, msg)
        return False

    # ------------------------------------------------------------ ropes
    def checkneg(self):
        """drop the path when a recorded disequality has become an equality"""
        keep = []
        for a, b, prefix in self.neg:
            A, B = self.normq(a), self.normq(b)
            if A is None or B is None:
                keep.append((a, b, prefix))
                continue
            if A.key() == B.key():
                raise Dead()
            x, y = A.concrete(), B.concrete()
            if x is not None and y is not None:
                if prefix and x.startswith(y):
                    raise Dead()
                continue
            if prefix and y is not None and A.a and isinstance(A.a[0], Lit):
                h = A.a[0].b
                if h.startswith(y):
                    raise Dead()
                if not y.startswith(h):
                    continue
            keep.append((a, b, prefix))
        self.neg = tuple(keep)

    def normq(self, r):
        """norm without decisions; None when it would need one"""
        dq, dn, alts = self.dq, self.dn, self.alts
        npc, path = len(self.pc), self.path
        self.dq, self.dn, self.alts = [], [], []
        try:
            r = self.norm(r)
            if self.alts or len(self.pc) != npc:
                return None
            return r
        except (Dead, Unsupported):
            return None
        finally:
            del self.pc[npc:]
            self.path = path
            self.dq, self.dn, self.alts = dq, dn, alts

    def norm(self, r):
        for x in r.a:
            if isinstance(x, Seg) and x.v.key in self.bind:
                break
        else:
            return r
        out = []
        for x in r.a:
            if isinstance(x, Seg) and x.v.key in self.bind:
                b = self.norm(self.bind[x.v.key])
                if not x.whole():
                    _, b2 = self.split(b, x.lo)
                    b, _ = self.split(b2, sub(x.hi, x.lo))
                out.extend(b.a)
            else:
                out.append(x)
        return mk(out)

    def bindvar(self, v, r):
        """v := r"""
        self.assume(eq(v.ln, rlen(r)))
        self.bind[v.key] = r

    def bindseg(self, s, r):
        if s.whole():
            self.bindvar(s.v, r)
            return
        parts = []
        v = s.v
        if not (isc(s.lo) and s.lo == 0):
            a = Var(self.fresh(v.name), v.cls, s.lo)
            parts.append(sym(a))
        parts.append(r)
        if tkey(s.hi) != tkey(v.ln):
            a = Var(self.fresh(v.name), v.cls, sub(v.ln, s.hi))
            parts.append(sym(a))
        self.assume(eq(s.len, rlen(r)))
        self.bind[v.key] = cat(*parts)

    def split(self, r, off):
        """(r[:off], r[off:]) assuming 0 <= off <= len(r)"""
        r = self.norm(r)
        if isc(off) and off == 0:
            return EMPTY, r
        left = []
        atoms = list(r.a)
        o = off
        for i, x in enumerate(atoms):
            if isc(o) and o == 0:
                return mk(left), mk(atoms[i:])
            L = x.len
            if isc(o) and isc(L):
                whole = o >= L
            elif tkey(o) == tkey(L):
                whole = True
            else:
                d = simp(T(o) - T(L))
                if isc(d):
                    whole = d >= 0
                elif self.decide(le(o, 0), 'split at 0'):
                    return mk(left), mk(atoms[i:])
                else:
                    whole = self.decide(ge(d, 0), 'split past atom')
            if whole:
                left.append(x)
                o = sub(o, L)
                continue
            a, b = self.split_atom(x, o)
            return mk(left + a), mk(b + atoms[i + 1:])
        return mk(left), EMPTY

    def split_atom(self, x, o):
        if isinstance(x, Seg):
            m = add(x.lo, o)
            return [Seg(x.v, x.lo, m)], [Seg(x.v, m, x.hi)]
        if isinstance(x, Rep):
            return [Rep(x.c, o)], [Rep(x.c, sub(x.n, o))]
        if not isc(o) and isinstance(x, (Lit, Enc)):
            L = x.len
            if L > 64:
                raise Unsupported('symbolic split of a long literal')
            for k in range(0, L):
                if self.decide(eq(o, k)):
                    o = k
                    break
            else:
                o = L
        if isinstance(x, Lit):
            return [Lit(x.b[:o])], [Lit(x.b[o:])]
        if isinstance(x, Enc):
            return [Enc(x.t, x.w, x.lo, x.lo + o)], [Enc(x.t, x.w, x.lo + o, x.hi)]
        if isinstance(x, Fold):
            f = self.foldpeel(x)
            if f is None:
                return [], []
            r, rest = f
            a, b = self.split(cat(r, mk((rest,))), o)
            return list(a.a), list(b.a)
        if isinstance(x, Dec):
            # turn into an opaque digit string of the same length
            v = Var('decs(%s)' % tkey(x.t), DECCLS, x.len)
            m = o
            return [Seg(v, 0, m)], [Seg(v, m, v.ln)]
        raise Unsupported('split of %r' % (x,))

    def foldpeel(self, x):
        """(first rope, rest Fold) or None when empty"""
        if not self.decide(lt(x.lo, x.hi), 'more iterations'):
            return None
        alts = x.g.at(x.lo)
        for c, r in alts[:-1]:
            if self.decide(c):
                break
        else:
            r = alts[-1][1]
        return r, Fold(x.g, add(x.lo, 1), x.hi)

    def sub_rope(self, r, lo, hi):
        _, b = self.split(r, lo)
        a, _ = self.split(b, sub(hi, lo))
        return a

    def byte_at(self, r, i):
        r = self.norm(r)
        o = i
        for x in r.a:
            L = x.len
            c = lt(o, L)
            if self.decide(c, 'index within atom'):
                return self.atom_byte(x, o)
            o = sub(o, L)
        raise Unsupported('byte_at out of range')

    def inclass(self, t, cls):
        if cls == ALL:
            return and_(le(0, t), le(t, 255))
        return or_(*[and_(le(lo, t), le(t, hi)) for lo, hi in cls_ranges(cls)])

    def atom_byte(self, x, o):
        if isinstance(x, Lit):
            if isc(o):
                return x.b[o]
            if len(x.b) > 64:
                raise Unsupported('symbolic index into a long literal')
            for k in range(len(x.b) - 1):
                if self.decide(eq(o, k)):
                    return x.b[k]
            return x.b[-1]
        if isinstance(x, Seg):
            if x.v.cls == ALL and isc(o) and isc(x.lo):
                t = self.fint('byte', 0, 255)
                self.bindseg(Seg(x.v, x.lo + o, x.lo + o + 1), mk((Enc(t, 1),)))
                return t
            t = x.v.at(add(x.lo, o))
            self.assume(self.inclass(t, x.v.cls))
            return t
        if isinstance(x, Enc):
            if not isc(o):
                for k in range(x.len - 1):
                    if self.decide(eq(o, k)):
                        o = k
                        break
                else:
                    o = x.len - 1
            return Enc(x.t, x.w, x.lo + o, x.lo + o + 1).value()
        if isinstance(x, Dec):
            t = DECAT(T(x.t), T(o))
            self.assume(or_(self.inclass(t, DIG), and_(eq(t, 45), eq(o, 0), lt(x.t, 0))))
            return t
        if isinstance(x, Rep):
            return x.c
        if isinstance(x, Fold):
            if self.I.coarse and not isc(o):
                return self.fint('byte', 0, 255)
            f = self.foldpeel(x)
            if f is None:
                raise Dead()
            return self.byte_at(cat(f[0], mk((f[1],))), o)
        raise Unsupported('byte of %r' % (x,))

    def decfacts(self, t):
        self.assume(and_(DECLEN(t) >= 1, DECLEN(t) <= 20))

    def find(self, r, c):
        """index of the first byte c as (rope before, rope from c on) or None"""
        r = self.norm(r)
        before = []
        atoms = list(r.a)
        i = 0
        while i < len(atoms):
            x = atoms[i]
            if isinstance(x, Lit):
                k = x.b.find(bytes([c]))
                if k >= 0:
                    return mk(before + [Lit(x.b[:k])]), mk([Lit(x.b[k:])] + atoms[i + 1:])
                before.append(x)
                i += 1
                continue
            cl = x.cls()
            if not (cl >> c) & 1:
                before.append(x)
                i += 1
                continue
            if isinstance(x, Seg):
                fk = ('has', x.key(), c)
                L = x.len
                if self.facts.get(fk) is False:
                    before.append(x)
                    i += 1
                    continue
                if isc(L) and L == 0:
                    i += 1
                    continue
                if self.choose(2, 'contains %r' % bytes([c])) == 0:
                    a = self.fvar(x.v.name, x.v.cls & ~(1 << c))
                    b = self.fvar(x.v.name, x.v.cls)
                    new = cat(sym(a), bytes([c]), sym(b))
                    self.bindseg(x, new)
                    if not self.sat():
                        raise Dead()
                    self.checkneg()
                    return mk(before + [Seg(a)]), mk([Lit(bytes([c])), Seg(b)] + atoms[i + 1:])
                a = self.fvar(x.v.name, x.v.cls & ~(1 << c))
                if (x.v.cls & ~(1 << c)) == 0:
                    raise Dead()
                self.bindseg(x, sym(a))
                before.append(Seg(a))
                i += 1
                continue
            if isinstance(x, Rep):
                if self.decide(lt(0, x.n)):
                    return mk(before), mk(atoms[i:])
                i += 1
                continue
            if isinstance(x, Enc):
                for k in range(x.len):
                    e = Enc(x.t, x.w, x.lo + k, x.lo + k + 1)
                    if self.decide(eq(e.value(), c)):
                        pre = Enc(x.t, x.w, x.lo, x.lo + k)
                        post = Enc(x.t, x.w, x.lo + k + 1, x.hi)
                        return mk(before + [pre]), mk([Lit(bytes([c])), post] + atoms[i + 1:])
                before.append(x)
                i += 1
                continue
            if isinstance(x, Dec):   # '-' only at the start
                if c == 45:
                    if self.decide(lt(x.t, 0)):
                        return mk(before), mk(atoms[i:])
                    before.append(x)
                    i += 1
                    continue
                raise Unsupported('digit search in a decimal')
            if isinstance(x, Fold):
                f = self.foldpeel(x)
                if f is None:
                    i += 1
                    continue
                atoms[i:i + 1] = list(self.norm(f[0]).a) + [f[1]]
                continue
            raise Unsupported('find in %r' % (x,))
        return None

    def req(self, a, b):
        """byte-string equality, splitting the path when undecided"""
        STATS.rope_eqs += 1
        a, b = self.norm(a), self.norm(b)
        if a.key() == b.key():
            return True
        A, B = list(a.a), list(b.a)
        if len(A) == 1 and len(B) == 1 and isinstance(A[0], Seg) and isinstance(B[0], Seg):
            x, y = A[0], B[0]
            if x.v.name.startswith('$name') and x.v.name == y.v.name and x.len is not None and tkey(x.len) == tkey(x.v.ln) \
                    and tkey(y.len) == tkey(y.v.ln):
                # names of servers are distinct
                return self.decide(eq(x.v.idx[0], y.v.idx[0]), 'same server')
        # strip equal ends
        while A and B:
            r = self._striphead(A, B)
            if r is False:
                return False
            if r is None:
                break
        A[:], B[:] = A[::-1], B[::-1]
        while A and B and A[0].key() == B[0].key():
            A.pop(0)
            B.pop(0)
        while A and B and isinstance(A[0], Lit) and isinstance(B[0], Lit):
            x, y = A[0].b, B[0].b
            n = min(len(x), len(y))
            if x[-n:] != y[-n:]:
                return False
            A.pop(0)
            B.pop(0)
            if len(x) > n:
                A.insert(0, Lit(x[:-n]))
            if len(y) > n:
                B.insert(0, Lit(y[:-n]))
            while A and B and A[0].key() == B[0].key():
                A.pop(0)
                B.pop(0)
        A[:], B[:] = A[::-1], B[::-1]
        if not A and not B:
            return True
        if not A or not B:
            R = mk(A or B)
            if not R.a:
                return True
            L = rlen(R)
            return self.decide(eq(L, 0), 'empty rest')
        LA, LB = rlen(mk(A)), rlen(mk(B))
        if not self.sat(eq(LA, LB)):
            return False
        return self._reqatoms(A, B)

    def _striphead(self, A, B):
        """strip from the front; True progress, False unequal, None stuck"""
        x, y = A[0], B[0]
        if x.key() == y.key():
            A.pop(0)
            B.pop(0)
            return True
        if isinstance(y, Lit) and not isinstance(x, Lit):
            A, B, x, y = B, A, y, x
        if isinstance(x, Lit) and isinstance(y, Lit):
            n = min(len(x.b), len(y.b))
            if x.b[:n] != y.b[:n]:
                return False
            A.pop(0)
            B.pop(0)
            if len(x.b) > n:
                A.insert(0, Lit(x.b[n:]))
            if len(y.b) > n:
                B.insert(0, Lit(y.b[n:]))
            return True
        if isinstance(x, Lit) and isinstance(y, Enc):
            n = min(len(x.b), y.len)
            e = Enc(y.t, y.w, y.lo, y.lo + n)
            if not self.decide(eq(e.value(), int.from_bytes(x.b[:n], 'big'))):
                return False
            A.pop(0)
            B.pop(0)
            if len(x.b) > n:
                A.insert(0, Lit(x.b[n:]))
            if y.len > n:
                B.insert(0, Enc(y.t, y.w, y.lo + n, y.hi))
            return True
        if isinstance(x, Enc) and isinstance(y, Enc):
            n = min(x.len, y.len)
            a, b = Enc(x.t, x.w, x.lo, x.lo + n), Enc(y.t, y.w, y.lo, y.lo + n)
            if not self.decide(eq(a.value(), b.value())):
                return False
            A.pop(0)
            B.pop(0)
            if x.len > n:
                A.insert(0, Enc(x.t, x.w, x.lo + n, x.hi))
            if y.len > n:
                B.insert(0, Enc(y.t, y.w, y.lo + n, y.hi))
            return True
        if isinstance(x, Lit) and isinstance(y, Dec) and self._nodigit(B[1:]):
            k = 0
            if x.b[:1] == b'-':
                k = 1
            while k < len(x.b) and 48 <= x.b[k] <= 57:
                k += 1
            d = x.b[:k]
            if k == len(x.b) and not self._nodigit(A[1:]):
                return None
            if d in (b'', b'-') or str(int(d)).encode() != d:
                return False
            if not self.decide(eq(y.t, int(d))):
                return False
            A.pop(0)
            B.pop(0)
            if k < len(x.b):
                A.insert(0, Lit(x.b[k:]))
            return True
        if isinstance(x, Dec) and isinstance(y, Dec) and self._nodigit(A[1:]) and self._nodigit(B[1:]):
            if not self.decide(eq(x.t, y.t)):
                return False
            A.pop(0)
            B.pop(0)
            return True
        if isinstance(x, Lit) and isinstance(y, (Seg, Dec)) and x.b:
            if not (y.cls() >> x.b[0]) & 1:
                if self.must(lt(0, y.len)):
                    return False
        if isinstance(x, Fold) or isinstance(y, Fold):
            return None
        return None

    def _nodigit(self, atoms):
        """the byte string starts with a non-digit or is empty"""
        for x in atoms:
            c = x.cls() if not isinstance(x, Lit) else cls_of(x.b[:1])
            if c & DIG:
                return False
            if self.must(lt(0, x.len)):
                return True
        return True

    def _reqatoms(self, A, B):
        if self.must(eq(rlen(mk(A)), 0)) and self.must(eq(rlen(mk(B)), 0)):
            return True
        # X ++ delimiter... : X ends at the first byte outside its class
        for (P, Q) in ((A, B), (B, A)):
            x = P[0]
            if isinstance(x, (Seg, Dec)) and len(P) > 1 and isinstance(P[1], Lit):
                d = P[1].b[0]
                if not (x.cls() >> d) & 1:
                    # the other side must reach d, too
                    ok = True
                    for y in Q:
                        if isinstance(y, Lit):
                            if bytes([d]) in y.b:
                                break
                        elif (y.cls() >> d) & 1:
                            ok = isinstance(y, Seg)
                            break
                    if ok:
                        f = self.find(mk(Q), d)
                        if f is None:
                            return False
                        pre, post = f
                        return self.req(mk([x]), pre) and self.req(mk(P[1:]), post)
        # whole variable against anything
        for (P, Q) in ((A, B), (B, A)):
            if len(P) == 1 and isinstance(P[0], Seg):
                x = P[0]
                if any(isinstance(y, Seg) and y.v.key == x.v.key for y in Q):
                    continue
                cls = x.v.cls
                for y in Q:
                    if isinstance(y, Lit):
                        if cls_of(y.b) & ~cls:
                            return False
                    elif not (y.cls() & cls):
                        if self.must(lt(0, y.len)):
                            return False
                return self._eqatom(x, mk(Q))
        # equal leading lengths
        for (P, Q) in ((A, B), (B, A)):
            x = P[0]
            L = x.len
            n = 0
            for k, y in enumerate(Q):
                n = add(n, y.len)
                if tkey(n) == tkey(L) or self.must(eq(n, L)):
                    if k + 1 == len(Q) and len(P) == 1:
                        break
                    return self.req(mk([x]), mk(Q[:k + 1])) and self.req(mk(P[1:]), mk(Q[k + 1:]))
        for (P, Q) in ((A, B), (B, A)):
            x = P[0]
            if isinstance(x, Seg) and isinstance(Q[0], (Seg, Lit)):
                n = Q[0].len
                if self.must(ge(x.len, n)):
                    a = Seg(x.v, x.lo, add(x.lo, n))
                    b = Seg(x.v, add(x.lo, n), x.hi)
                    return self.req(mk([a]), mk(Q[:1])) and self.req(mk([b] + P[1:]), mk(Q[1:]))
        if any(isinstance(x, Fold) for x in A + B):
            r = self._eqfold(A, B)
            if r is not None:
                return r
        return self._eqopaque(mk(A), mk(B))

    def _eqfold(self, A, B):
        return None

    def _eqatom(self, x, r):
        """x (opaque segment) == r : split"""
        k = ('eq', x.key(), r.key())
        k2 = ('eq', r.key(), x.key())
        if len(r.a) == 1:
            k2 = ('eq', r.a[0].key(), (x.key(),))
        if k in self.facts:
            return self.facts[k]
        if k2 in self.facts:
            return self.facts[k2]
        Lr = rlen(r)
        if not self.sat(eq(x.len, Lr)):
            return False
        if self.choose(2, '%r == %r' % (x, r)) == 0:
            self.assume(eq(x.len, Lr))
            # keep the narrower class
            if len(r.a) == 1 and isinstance(r.a[0], Seg):
                y = r.a[0]
                c = x.v.cls & y.v.cls
                if c != y.v.cls:
                    if c == 0:
                        self.assume(eq(x.len, 0))
                    z = self.fvar('m', c)
                    self.assume(eq(z.ln, x.len))
                    self.bindseg(y, sym(z))
                    r = sym(z)
            self.bindseg(x, r)
            if not self.sat():
                raise Dead()
            self.checkneg()
            return True
        self.facts[k] = False
        self.neg += ((mk([x]), r, False),)
        if isc(Lr) and Lr == 0:
            self.assume(ne(x.len, 0))
            if not self.sat():
                raise Dead()
        return False

    def _eqopaque(self, a, b):
        k = ('eq', a.key(), b.key())
        if k in self.facts:
            return self.facts[k]
        k2 = ('eq', b.key(), a.key())
        if k2 in self.facts:
            return self.facts[k2]
        self.approx += ('undecided equality %r == %r' % (a, b),)
        if self.choose(2, '%r == %r' % (a, b)) == 0:
            self.assume(eq(rlen(a), rlen(b)))
            if not self.sat():
                raise Dead()
            self.facts[k] = True
            return True
        self.facts[k] = False
        return False

    def starts(self, r, pre):
        """HasPrefix"""
        r, pre = self.norm(r), self.norm(pre)
        A, B = list(r.a), list(pre.a)
        while A and B:
            if isinstance(A[0], Fold):
                f = self.foldpeel(A[0])
                A[0:1] = [] if f is None else list(self.norm(f[0]).a) + [f[1]]
                continue
            s = self._striphead(A, B)
            if s is False:
                return False
            if s is None:
                break
        if not B:
            return True
        R, P = mk(A), mk(B)
        LR, LP = rlen(R), rlen(P)
        k = ('prefix', R.key(), P.key())
        if k in self.facts:
            return self.facts[k]
        if not self.decide(le(LP, LR), 'long enough for prefix'):
            self.facts[k] = False
            return False
        a, b = self.split(R, LP)
        v = self.req(a, P)
        if not v:
            self.facts[k] = False
            self.neg += ((R, P, True),)
        return v

    def ends(self, r, suf):
        r, suf = self.norm(r), self.norm(suf)
        LR, LS = rlen(r), rlen(suf)
        if not self.decide(le(LS, LR), 'long enough for suffix'):
            return False
        if not suf.a:
            return True
        _, b = self.split(r, sub(LR, LS))
        return self.req(b, suf)

    # ------------------------------------------------------------ memory
    def load(self, p):
        if p is None:
            raise GoPanic('nil pointer dereference')
        if not isinstance(p, Ptr):
            raise Unsupported('load through %r' % (p,))
        self.touch(p.oid, 'r')
        if self.I.race is not None and self.frames:
            self.I.race.access(self, p, 'r')
        v = self.heap[p.oid]
        for e in p.path:
            v = self.getpath(v, e)
        return v

    def unshared(self, oid):
        """a write into memory which every connection of the process shares"""
        if not self.frames or self.ghost.get('$once') or any(h[0][0] in self.I.shared for h in self.ghost.get('held', ())):
            return
        ph = 'reply' if any(isinstance(k, tuple) and k[0] == 'c.used' for k in self.ghost) else 'request'
        self.fail('shared.' + ph, 'write without synchronisation into memory that all connections share (%s)' % self.I.shared[oid])

    def touch(self, oid, mode):
        if mode == 'w' and oid in self.I.shared:
            self.unshared(oid)
        m = self.meta.get(oid)
        if m:
            if mode == 'w' and m.get('pieceof'):
                raise Unsupported('write into a piece of a split')
            if m.get('freed'):
                self.fail('pool.use_after_put', 'object used after it was returned to its sync.Pool')
            if mode == 'w' and m.get('owner') == 'caller':
                self.fail('C07.frame', 'write into memory owned by the caller (%s)' % m.get('what', ''))
            if mode == 'w' and m.get('owner') == 'answer':
                self.ghost['$written'] = self.ghost.get('$written', ()) + (oid,)
            if mode == 'w' and m.get('owner') == 'readonly':
                self.fail('frame', 'write into read-only memory')

    def getpath(self, v, e):
        if isinstance(v, StructV):
            return v.f[e]
        if isinstance(e, tuple):
            i = e[1]
            if isinstance(v, BArr):
                return self.byte_at(v.r, i)
            if isinstance(v, LArr):
                return self.lget(v, i)
        raise Unsupported('path %r into %r' % (e, v))

    def setpath(self, v, path, x):
        if not path:
            return x
        e = path[0]
        if isinstance(v, StructV):
            f = list(v.f)
            f[e] = self.setpath(f[e], path[1:], x)
            return StructV(v.t, f)
        if isinstance(e, tuple):
            i = e[1]
            if isinstance(v, BArr):
                a, b = self.split(v.r, i)
                _, c = self.split(b, 1)
                return BArr(cat(a, be(x, 1), c))
            if isinstance(v, LArr):
                a, b = self.lsplit(v, i)
                h, c = self.lsplit(b, 1)
                if len(path) > 1:
                    x = self.setpath(self.lget(h, 0), path[1:], x)
                return lmk(a.a + (EL(x),) + c.a, v.t)
        raise Unsupported('store path %r into %r' % (e, v))

    def store(self, p, x):
        if p is None:
            raise GoPanic('nil pointer dereference')
        if not isinstance(p, Ptr):
            raise Unsupported('store through %r' % (p,))
        self.touch(p.oid, 'w')
        if self.I.race is not None and self.frames:
            self.I.race.access(self, p, 'w')
        self.heap[p.oid] = self.setpath(self.heap[p.oid], p.path, x)

    # lists
    def lget(self, l, i):
        o = i
        for x in l.a:
            if isinstance(x, LFold):
                x2 = self.lfoldfirst(LArr([x], l.t))
                raise Unsupported('index into a filtered list')
            if self.decide(lt(o, x.len), 'list index'):
                if isinstance(x, EL):
                    return x.v
                return self.genat(x.g, add(x.lo, o))
            o = sub(o, x.len)
        raise Unsupported('list index out of range')

    def genat(self, g, i):
        if g.info and 'mat' in g.info:
            return g.info['mat'](self, i)
        v = g.at(i)
        if isinstance(v, Rope):
            for x in v.a:
                if isinstance(x, Seg):
                    self.assume(le(0, x.v.ln))
        return v

    def lsplit(self, l, off):
        if isc(off) and off == 0:
            return LArr((), l.t), l
        left, o = [], off
        atoms = list(l.a)
        for i, x in enumerate(atoms):
            if isc(o) and o == 0:
                return lmk(left, l.t), lmk(atoms[i:], l.t)
            L = x.len
            if isc(o) and isc(L):
                whole = o >= L
            elif tkey(o) == tkey(L):
                whole = True
            elif self.decide(le(o, 0), 'split at 0'):
                return lmk(left, l.t), lmk(atoms[i:], l.t)
            else:
                whole = self.decide(ge(o, L), 'split past element')
            if whole:
                left.append(x)
                o = sub(o, L)
                continue
            if isinstance(x, LSeg):
                m = add(x.lo, o)
                return lmk(left + [LSeg(x.g, x.lo, m)], l.t), lmk([LSeg(x.g, m, x.hi)] + atoms[i + 1:], l.t)
            raise Unsupported('split of %r' % (x,))
        return lmk(left, l.t), LArr((), l.t)

    # slices
    def sbase(self, s):
        """array value under a slice"""
        return self.load(s.base)

    def srope(self, s):
        """bytes covered by a byte slice"""
        if s.base is None:
            return EMPTY
        v = self.sbase(s)
        if not isinstance(v, BArr):
            raise Unsupported('bytes of %r' % (v,))
        if isc(s.off) and s.off == 0 and tkey(s.ln) == tkey(rlen(v.r)):
            return self.norm(v.r)
        return self.sub_rope(v.r, s.off, add(s.off, s.ln))

    def slist(self, s):
        if s.base is None:
            return LArr((), None)
        v = self.sbase(s)
        if not isinstance(v, LArr):
            raise Unsupported('elements of %r' % (v,))
        if isc(s.off) and s.off == 0 and tkey(s.ln) == tkey(llen(v)):
            return v
        _, b = self.lsplit(v, s.off)
        a, _ = self.lsplit(b, s.ln)
        return a

    def sput(self, s, off, rope):
        """write rope into slice s at offset off (relative)"""
        n = rlen(rope)
        if isc(n) and n == 0:
            return
        v = self.sbase(s)
        st = add(s.off, off)
        a, b = self.split(v.r, st)
        _, c = self.split(b, n)
        self.store(s.base, BArr(cat(a, rope, c)))

    def mkbytes(self, rope, **meta):
        """fresh byte slice with this content"""
        rope = self.norm(rope)
        oid = self.new(BArr(rope), **meta)
        n = rlen(rope)
        return SliceV(Ptr(oid), 0, n, n)

    def mklist(self, vals, t, **meta):
        oid = self.new(LArr([EL(v) for v in vals], t), **meta)
        return SliceV(Ptr(oid), 0, len(vals), len(vals))

    def mklarr(self, arr, **meta):
        oid = self.new(arr, **meta)
        n = llen(arr)
        return SliceV(Ptr(oid), 0, n, n)

    # errors
    def err(self, kind, msg=None):
        oid = self.new(StructV('$err', (msg if msg is not None else EMPTY,)))
        return IfaceV(kind, Ptr(oid))


# ---------------------------------------------------------------- equality of Go values
def veq(st, a, b):
    """Go == (may split)"""
    if a is b:
        return True
    if isinstance(a, Rope) and isinstance(b, Rope):
        return st.req(a, b)
    if isinstance(a, IfaceV) or isinstance(b, IfaceV):
        if a is None or b is None:
            return False
        if not isinstance(a, IfaceV) or not isinstance(b, IfaceV):
            raise Unsupported('interface comparison')
        if a.t != b.t:
            return False
        return veq(st, a.v, b.v)
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        if a is None or b is None:
            return False
        return a == b
    if a is None or b is None:
        if isinstance(a, (FuncV, Opaque)) or isinstance(b, (FuncV, Opaque)):
            return False
        if isinstance(a, SliceV):
            return a.base is None
        if isinstance(b, SliceV):
            return b.base is None
        return a is b
    if isinstance(a, SliceV) and isinstance(b, SliceV):
        if b.base is None:
            return a.base is None
        if a.base is None:
            return b.base is None
        raise Unsupported('slice comparison')
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        return a == b
    if isinstance(a, StructV) and isinstance(b, StructV):
        for x, y in zip(a.f, b.f):
            r = veq(st, x, y)
            if not (r is True):
                if r is False or not st.decide(r):
                    return False
        return True
    if isinstance(a, BArr) and isinstance(b, BArr):
        return st.req(a.r, b.r)
    if isc(a) or isc(b) or z3.is_expr(a) or z3.is_expr(b):
        return eq(a, b)
    raise Unsupported('comparison of %r and %r' % (a, b))


# ---------------------------------------------------------------- interpreter
class Interp:
    def __init__(self, prog, models):
        self.p = prog
        self.models = models
        self.solver_ms = 4000
        self.max_paths = 4000
        self.max_steps = 400000
        self.modular = {}        # function name -> contract callable
        self.invoke_hook = None
        self.on_loop = None      # loop handler
        self.go_policy = 'record'
        self.deadline = None
        self.unsupported = {}
        self.loop_policy = None
        self.loop_templates = []
        self.loops_proved = set()
        self.coarse = False
        self.variants = None             # name of the obligation: every loop has a decreasing measure
        self.race = None         # recorder of accesses to shared memory
        self.shared = {}         # object -> description: memory that all connections share
        self.maxsplit = 3        # pieces of opaque text that are told apart

    # ---- exploration
    def run(self, st, stop=None):
        """explore every path; returns the terminal states"""
        work = [st]
        done = []
        steps = 0
        while work:
            s = work.pop()
            while True:
                steps += 1
                STATS.steps += 1
                if steps > self.max_steps or len(done) > self.max_paths or (self.deadline and time.time() > self.deadline):
                    raise Unsupported('path budget exceeded')
                if not s.frames:
                    done.append(s)
                    break
                if stop is not None and stop(s):
                    done.append(s)
                    break
                nxt = self.step(s)
                if not nxt:
                    break
                s = nxt[0]
                if len(nxt) > 1:
                    work.extend(nxt[:0:-1])
        STATS.paths += len(done)
        return done

    PURE = {'Jump', 'Phi', 'Alloc', 'MakeInterface', 'ChangeType', 'ChangeInterface', 'Extract', 'MakeClosure', 'FieldAddr',
            'Field', 'Defer'}

    def step(self, st):
        """execute one instruction on every feasible outcome"""
        fr = st.frames[-1]
        if st.outcome is not None:
            st.frames = []
            return [st]
        ins = fr.fn['blocks'][fr.blk]['instrs'][fr.ip]
        if fr.ip == 0 and fr.fn['blocks'][fr.blk].get('loophead') is not None and self.on_loop is not None:
            r = self.on_loop(self, st)
            if r is not None:
                return r
        if ins['op'] == 'Phi' and fr.ip == 0:
            self.phis(st, fr)
            return [st]
        if ins['op'] in self.PURE or (ins['op'] == 'Call' and 'invoke' not in ins['call'] and ins['call']['fn']['k'] == 'func'
                                      and ins['call']['fn']['n'] in self.p.funcs and ins['call']['fn']['n'] not in self.modular):
            # instructions without decisions
            try:
                self.exec(st, fr, ins)
            except Dead:
                return []
            except GoPanic as e:
                st.panic = e.msg
                try:
                    self.unwind(st)
                except Dead:
                    return []
            except Unsupported as e:
                st.outcome = ('unsupported', '%s at %s' % (e, ins.get('pos')))
                st.frames = []
            return [st]
        out = []
        work = [[]]
        first = True
        snap = st.clone()
        while work:
            pre = work.pop()
            s = snap.clone() if (work or out or pre) else snap
            if pre == [] and first:
                s = snap.clone()
                first = False
            s.dq, s.dn, s.alts = list(pre), [], []
            keep = True
            try:
                self.exec(s, s.frames[-1], ins)
            except Dead:
                keep = False
            except GoPanic as e:
                s.panic = e.msg
                try:
                    self.unwind(s)
                except Dead:
                    keep = False
            except Stop as e:
                s.outcome = (e.kind, e.info)
                s.frames = []
            except Unsupported as e:
                s.outcome = ('unsupported', '%s at %s' % (e, ins.get('pos')))
                s.frames = []
            alts = s.alts
            s.alts, s.dq, s.dn = None, [], []
            work.extend(alts)
            if keep:
                out.append(s)
            if len(out) + len(work) > self.max_paths:
                raise Unsupported('path budget exceeded')
        return out

    def phis(self, st, fr):
        blk = fr.fn['blocks'][fr.blk]
        k = blk['preds'].index(fr.prev)
        vals = []
        n = 0
        for ins in blk['instrs']:
            if ins['op'] != 'Phi':
                break
            vals.append((ins['reg'], self.val(st, fr, ins['edges'][k])))
            n += 1
        for r, v in vals:
            fr.regs[r] = v
        fr.ip = n

    def phis_only(self, st, fr):
        if fr.fn['blocks'][fr.blk]['instrs'][0]['op'] == 'Phi':
            self.phis(st, fr)

    def val(self, st, fr, o):
        k = o['k']
        if k == 'reg':
            try:
                return fr.regs[o['n']]
            except KeyError:
                raise Unsupported('register %s' % o['n'])
        if k == 'const':
            if o.get('nil'):
                return self.p.zero(o['t'])
            if o.get('str'):
                return lit(base64.b64decode(o['v']))
            if o.get('int'):
                return int(o['v'])
            if isinstance(o['v'], bool):
                return o['v']
            if o.get('float'):
                return Opaque('float ' + str(o['v']))
            return o['v']
        if k == 'global':
            return self.globalptr(st, o['n'], o['t'])
        if k == 'func':
            return FuncV(o['n'])
        if k == 'builtin':
            return FuncV('builtin ' + o['n'])
        raise Unsupported('operand %r' % (o,))

    def globalptr(self, st, name, t=None):
        key = ('global', name)
        if key not in st.ghost:
            if name in self.p.globals:
                st.ghost[key] = st.new(self.p.zero(self.p.globals[name]))
            else:
                v = self.models.external_global(st, name, t)
                st.ghost[key] = st.new(v)
        return Ptr(st.ghost[key])

    def setreg(self, st, ins, v):
        st.frames[-1].regs[ins['reg']] = v

    # ---- instructions
    def exec(self, st, fr, ins):
        op = ins['op']
        m = getattr(self, 'x_' + op, None)
        if m is None:
            raise Unsupported('instruction ' + op)
        fr.ip += 1
        m(st, fr, ins)

    def jump(self, fr, to):
        fr.prev, fr.blk, fr.ip = fr.blk, to, 0

    def x_Jump(self, st, fr, ins):
        self.jump(fr, fr.fn['blocks'][fr.blk]['succs'][0])

    def x_If(self, st, fr, ins):
        c = self.val(st, fr, ins['cond'])
        t = st.decide(c, 'branch %s' % ins.get('pos', ''))
        self.jump(fr, fr.fn['blocks'][fr.blk]['succs'][0 if t else 1])

    def x_Alloc(self, st, fr, ins):
        fr.regs[ins['reg']] = Ptr(st.new(self.p.zero(ins['elem'])))

    def x_Phi(self, st, fr, ins):
        fr.ip -= 1
        self.phis(st, fr)

    def x_ChangeType(self, st, fr, ins):
        v = self.val(st, fr, ins['x'])
        if isinstance(v, StructV):
            v = StructV(ins['type'], v.f)
        fr.regs[ins['reg']] = v

    def x_ChangeInterface(self, st, fr, ins):
        fr.regs[ins['reg']] = self.val(st, fr, ins['x'])

    def x_MakeInterface(self, st, fr, ins):
        fr.regs[ins['reg']] = IfaceV(ins['x']['t'], self.val(st, fr, ins['x']))

    def x_Extract(self, st, fr, ins):
        fr.regs[ins['reg']] = self.val(st, fr, ins['x'])[ins['index']]

    def x_MakeClosure(self, st, fr, ins):
        fr.regs[ins['reg']] = FuncV(ins['fn']['n'], [self.val(st, fr, b) for b in ins['bindings']])

    def x_FieldAddr(self, st, fr, ins):
        p = self.val(st, fr, ins['x'])
        if p is None:
            raise GoPanic('nil pointer dereference')
        if not isinstance(p, Ptr):
            raise Unsupported('field of %r' % (p,))
        fr.regs[ins['reg']] = Ptr(p.oid, p.path + (ins['field'],))

    def x_Field(self, st, fr, ins):
        fr.regs[ins['reg']] = self.val(st, fr, ins['x']).f[ins['field']]

    def x_IndexAddr(self, st, fr, ins):
        x = self.val(st, fr, ins['x'])
        i = self.val(st, fr, ins['index'])
        if isinstance(x, SliceV):
            if not st.decide(and_(le(0, i), lt(i, x.ln)), 'index in range'):
                raise GoPanic('index out of range')
            fr.regs[ins['reg']] = Ptr(x.base.oid, x.base.path + (('i', add(x.off, i)),))
            return
        if x is None:
            raise GoPanic('nil pointer dereference')
        if isinstance(x, Ptr):
            d = self.p.under(self.p.under(ins['x']['t'])['elem'])
            if not st.decide(and_(le(0, i), lt(i, int(d['len']))), 'index in range'):
                raise GoPanic('index out of range')
            fr.regs[ins['reg']] = Ptr(x.oid, x.path + (('i', i),))
            return
        raise Unsupported('index address')

    def x_Index(self, st, fr, ins):
        x = self.val(st, fr, ins['x'])
        i = self.val(st, fr, ins['index'])
        if isinstance(x, Rope):
            if not st.decide(and_(le(0, i), lt(i, rlen(st.norm(x)))), 'index in range'):
                raise GoPanic('index out of range')
            fr.regs[ins['reg']] = st.byte_at(x, i)
            return
        n = rlen(x.r) if isinstance(x, BArr) else llen(x)
        if not st.decide(and_(le(0, i), lt(i, n)), 'index in range'):
            raise GoPanic('index out of range')
        fr.regs[ins['reg']] = st.getpath(x, ('i', i))

    def x_Slice(self, st, fr, ins):
        x = self.val(st, fr, ins['x'])
        lo = self.val(st, fr, ins['low']) if ins['low'] else 0
        hi = self.val(st, fr, ins['high']) if ins['high'] else None
        mx = self.val(st, fr, ins['max']) if ins['max'] else None
        if isinstance(x, Rope):
            x = st.norm(x)
            n = rlen(x)
            if hi is None:
                hi = n
            if not st.decide(and_(le(0, lo), le(lo, hi), le(hi, n)), 'slice bounds'):
                raise GoPanic('slice bounds out of range')
            fr.regs[ins['reg']] = st.sub_rope(x, lo, hi)
            return
        if x is None:
            raise GoPanic('nil pointer dereference')
        if isinstance(x, Ptr):
            d = self.p.under(self.p.under(ins['x']['t'])['elem'])
            n = int(d['len'])
            x = SliceV(x, 0, n, n)
        if not isinstance(x, SliceV):
            raise Unsupported('slice of %r' % (x,))
        if hi is None:
            hi = x.ln
        m = x.cap if mx is None else mx
        c = and_(le(0, lo), le(lo, hi), le(hi, m), le(m, x.cap))
        if not st.decide(c, 'slice bounds'):
            raise GoPanic('slice bounds out of range')
        if x.base is None:
            fr.regs[ins['reg']] = NILSLICE
            return
        fr.regs[ins['reg']] = SliceV(x.base, add(x.off, lo), sub(hi, lo), sub(m, lo))

    def x_MakeSlice(self, st, fr, ins):
        n = self.val(st, fr, ins['len'])
        c = self.val(st, fr, ins['cap'])
        fr.regs[ins['reg']] = self.makeslice(st, ins['type'], n, c)

    MAXALLOC = 1 << 47

    def makeslice(self, st, t, n, c):
        if not st.decide(and_(le(0, n), le(n, c), le(c, self.MAXALLOC)), 'make: length in range'):
            raise GoPanic('makeslice: len out of range')
        et = self.p.under(t)['elem']
        if self.p.isbyte(et):
            return self.models.born(st, SliceV(Ptr(st.new(BArr(rep(0, c)))), 0, n, c))
        z = self.p.zero(et)
        if isc(c) and c <= 64:
            return SliceV(Ptr(st.new(LArr([EL(z)] * c, et))), 0, n, c)
        nm = 'zero_' + et
        g = Gen(nm, lambda i, z=z: z, key=nm)
        return SliceV(Ptr(st.new(lmk([LSeg(g, 0, c)], et))), 0, n, c)

    def x_MakeMap(self, st, fr, ins):
        fr.regs[ins['reg']] = Ptr(st.new(MapV()))

    def x_MakeChan(self, st, fr, ins):
        p = Ptr(st.new(Opaque('chan')))
        st.ghost[('chan', p.oid)] = False
        fr.regs[ins['reg']] = p

    def x_Lookup(self, st, fr, ins):
        m = self.val(st, fr, ins['x'])
        k = self.val(st, fr, ins['index'])
        if isinstance(m, Rope):
            n = rlen(m)
            if not st.decide(and_(le(0, k), lt(k, n)), 'index in range'):
                raise GoPanic('index out of range')
            fr.regs[ins['reg']] = st.byte_at(m, k)
            return
        et = self.p.under(ins['x']['t'])['elem']
        v, ok = self.mapget(st, m, k, et)
        fr.regs[ins['reg']] = (v, ok) if ins['commaok'] else v

    def mapget(self, st, m, k, et):
        if m is None:
            return self.p.zero(et), False
        mv = st.load(m)
        if mv.sym is not None:
            return mv.sym(st, mv, k, et)
        if self.coarse and z3.is_expr(k) and len(mv.e) > 2 and all(isc(kk) and isinstance(v, Rope) for kk, v in mv.e):
            # one of the values: they are texts of messages
            if st.decide(or_(*[eq(kk, k) for kk, v in mv.e]), 'map has the key'):
                return sym(st.fvar('mapvalue', hi=max(rlen(v) for _, v in mv.e))), True
            return self.p.zero(et), False
        for kk, v in mv.e:
            if st.decide(veq(st, kk, k), 'map key'):
                return v, True
        return self.p.zero(et), False

    def x_MapUpdate(self, st, fr, ins):
        m = self.val(st, fr, ins['map'])
        k = self.val(st, fr, ins['key'])
        x = self.val(st, fr, ins['x'])
        if m is None:
            raise GoPanic('assignment to entry in nil map')
        mv = st.load(m)
        if mv.sym is not None:
            raise Unsupported('update of a symbolic map')
        e = list(mv.e)
        for i, (kk, v) in enumerate(e):
            if st.decide(veq(st, kk, k), 'map key'):
                e[i] = (kk, x)
                break
        else:
            e.append((k, x))
        st.store(m, MapV(e))

    def x_Range(self, st, fr, ins):
        x = self.val(st, fr, ins['x'])
        if isinstance(x, Rope):
            it = ('str', st.norm(x), 0)
        elif x is None:
            it = ('map', (), None)
        else:
            mv = st.load(x)
            if mv.sym is not None:
                it = mv.sym('range')
            else:
                it = ('map', tuple(range(len(mv.e))), x)
        fr.regs[ins['reg']] = Ptr(st.new(it))

    def x_Next(self, st, fr, ins):
        p = self.val(st, fr, ins['x'])
        it = st.heap[p.oid]
        if it[0] == 'str':
            r, i = it[1], it[2]
            n = rlen(r)
            if not st.decide(lt(i, n), 'range string'):
                fr.regs[ins['reg']] = (False, 0, 0)
                return
            c = st.byte_at(r, i)
            if st.decide(lt(c, 128), 'ascii'):
                st.heap[p.oid] = ('str', r, add(i, 1))
                fr.regs[ins['reg']] = (True, i, c)
            else:
                cr = r.concrete()
                if cr is not None and isc(i):
                    for w in (2, 3, 4):
                        try:
                            ru = ord(cr[i:i + w].decode())
                            break
                        except Exception:
                            ru, = (0xfffd,)
                            w_ = 1
                    else:
                        w = 1
                    st.heap[p.oid] = ('str', r, i + (w if ru != 0xfffd else 1))
                    fr.regs[ins['reg']] = (True, i, ru)
                    return
                w = st.fint('runew', 1, 4)
                st.assume(le(add(i, w), n))
                st.heap[p.oid] = ('str', r, add(i, w))
                fr.regs[ins['reg']] = (True, i, st.fint('rune', 128, 0x10ffff))
            return
        if it[0] == 'gen':
            return it[1](self, st, fr, ins, p, it)
        left, m = it[1], it[2]
        tt = ins['type']
        if not left:
            el = self.p.under(tt)['elems'] if self.p.under(tt)['kind'] == 'tuple' else None
            fr.regs[ins['reg']] = (False, None, None)
            return
        k = st.choose(len(left), 'map order')
        idx = left[k]
        st.heap[p.oid] = ('map', left[:k] + left[k + 1:], m)
        kk, v = st.load(m).e[idx]
        fr.regs[ins['reg']] = (True, kk, v)

    def x_TypeAssert(self, st, fr, ins):
        x = self.val(st, fr, ins['x'])
        t = ins['asserted']
        d = self.p.under(t)
        if d['kind'] == 'interface':
            ok = x is not None and (self.implements(x.t, d) or self.models.maybe(st, x, d))
            v = x if ok else None
        else:
            ok = x is not None and x.t == t
            v = x.v if ok else self.p.zero(t)
        if ins['commaok']:
            fr.regs[ins['reg']] = (v, ok)
            return
        if not ok:
            raise GoPanic('interface conversion')
        fr.regs[ins['reg']] = v

    def implements(self, t, d):
        need = [m['name'] for m in d['methods']]
        if not need:
            return True
        ms = self.p.methods.get(t)
        if ms is not None:
            return all(n in ms for n in need)
        return all(self.models.has_method(t, n) for n in need)

    # ---- arithmetic
    def wrap(self, st, r, tn):
        if tn not in INTS:
            return r
        lo, hi = irange(tn)
        if isc(r):
            return (int(r) - lo) % (hi - lo + 1) + lo
        if st.must(and_(le(lo, r), le(r, hi))):
            return r
        return simp((T(r) - lo) % (hi - lo + 1) + lo)

    def x_BinOp(self, st, fr, ins):
        x = self.val(st, fr, ins['x'])
        y = self.val(st, fr, ins['y'])
        fr.regs[ins['reg']] = self.binop(st, ins['tok'], x, y, ins['x']['t'], ins['type'])

    def binop(self, st, tok, x, y, xt, rt):
        if tok == '==':
            return veq(st, x, y)
        if tok == '!=':
            return not_(veq(st, x, y))
        if isinstance(x, Rope):
            if tok == '+':
                return cat(st.norm(x), st.norm(y))
            return self.strcmp(st, tok, x, y)
        if isinstance(x, Opaque) or isinstance(y, Opaque):
            if tok in ('<', '<=', '>', '>='):
                return st.fbool('cmp')
            return Opaque('arith')
        if tok == '<':
            return lt(x, y)
        if tok == '<=':
            return le(x, y)
        if tok == '>':
            return lt(y, x)
        if tok == '>=':
            return le(y, x)
        tn = self.p.uname(rt)
        if tok in ('&', '|', '^', '&^') and (isinstance(x, bool) or (z3.is_expr(x) and z3.is_bool(x))):
            return {'&': and_, '|': or_}[tok](x, y)
        if tok == '+':
            return self.wrap(st, add(x, y), tn)
        if tok == '-':
            return self.wrap(st, sub(x, y), tn)
        if tok == '*':
            return self.wrap(st, mul(x, y), tn)
        if tok in ('/', '%'):
            if not st.decide(ne(y, 0), 'divisor'):
                raise GoPanic('integer divide by zero')
            if isc(x) and isc(y):
                q = abs(x) // abs(y)
                if (x < 0) != (y < 0):
                    q = -q
                return self.wrap(st, q if tok == '/' else x - q * y, tn)
            if st.must(and_(ge(x, 0), gt(y, 0))):
                return simp(T(x) / T(y)) if tok == '/' else simp(T(x) % T(y))
            ax, ay = ite(ge(x, 0), x, simp(-T(x))), ite(ge(y, 0), y, simp(-T(y)))
            q = T(ax) / T(ay)
            q = z3.If(T(and_(ge(x, 0), ge(y, 0))) if not isc(and_(ge(x, 0), ge(y, 0))) else T(and_(ge(x, 0), ge(y, 0))), q, z3.If(T(and_(lt(x, 0), lt(y, 0))), q, -q))
            return simp(q) if tok == '/' else simp(T(x) - q * T(y))
        if tok in ('<<', '>>'):
            if isc(y):
                if y < 0:
                    raise GoPanic('negative shift')
                if tok == '<<':
                    return self.wrap(st, mul(x, 1 << min(y, 64)), tn)
                if isc(x):
                    return x >> y
                return simp(T(x) / (1 << y))
            if not st.decide(ge(y, 0), 'shift count'):
                raise GoPanic('negative shift amount')
            w = INTS[tn][0]
            k = 0
            if not st.decide(lt(y, w), 'shift count below the width'):
                return 0 if tok == '<<' else ite(ge(x, 0), 0, -1)
            p = z3.IntVal(1 << (w - 1))
            for k in reversed(range(w - 1)):
                p = z3.If(T(y) == k, z3.IntVal(1 << k), p)
            if tok == '<<':
                return self.wrap(st, mul(x, p), tn)
            return simp(T(x) / p)
        if isc(x) and isc(y):
            r = {'&': x & y, '|': x | y, '^': x ^ y, '&^': x & ~y}[tok]
            return self.wrap(st, r, tn)
        w, s = INTS[tn]
        if tok == '&':
            for a, b in ((x, y), (y, x)):
                if isc(b) and b >= 0 and (b & (b + 1)) == 0:
                    return simp(T(a) % (b + 1))
        if tok == '|':
            # disjoint bit ranges: a multiple of 2^k and a value below 2^k
            for a, b in ((x, y), (y, x)):
                for k in (8, 16, 24, 32, 40, 48, 56):
                    if st.must(and_(ge(b, 0), lt(b, 1 << k))) and st.must(eq(simp(T(a) % (1 << k)), 0)):
                        return add(a, b)
        if s and not st.must(and_(ge(x, 0), ge(y, 0))):
            raise Unsupported('bit operation on signed values')
        bx, by = z3.Int2BV(T(x), w), z3.Int2BV(T(y), w)
        r = {'&': bx & by, '|': bx | by, '^': bx ^ by, '&^': bx & ~by}[tok]
        return z3.BV2Int(r)

    def strcmp(self, st, tok, x, y):
        x, y = st.norm(x), st.norm(y)
        cx, cy = x.concrete(), y.concrete()
        if cx is not None and cy is not None:
            return {'<': cx < cy, '<=': cx <= cy, '>': cx > cy, '>=': cx >= cy}[tok]
        if tok in ('>', '>='):
            x, y, tok = y, x, {'>': '<', '>=': '<='}[tok]
        if tok == '<=':
            return not_(self.strcmp(st, '<', y, x))
        if st.req(x, y):
            return False
        kx, ky = x.key(), y.key()
        k = ('slt', kx, ky)
        if k in st.facts:
            return st.facts[k]
        v = st.choose(2, 'string order') == 0
        st.facts[k] = v
        st.facts[('slt', ky, kx)] = not v
        return v

    def x_UnOp(self, st, fr, ins):
        x = self.val(st, fr, ins['x'])
        tok = ins['tok']
        if tok == '*':
            v = st.load(x)
        elif tok == '!':
            v = not_(x)
        elif tok == '-':
            v = self.wrap(st, sub(0, x), self.p.uname(ins['type']))
        elif tok == '^':
            tn = self.p.uname(ins['type'])
            w, s = INTS[tn]
            v = self.wrap(st, sub(-1, x) if s else sub((1 << w) - 1, x), tn)
        elif tok == '<-':
            v = self.models.recv(st, x, ins)
            if ins['commaok'] and not isinstance(v, tuple):
                v = (v, True)
        else:
            raise Unsupported('unary ' + tok)
        fr.regs[ins['reg']] = v

    def x_Convert(self, st, fr, ins):
        x = self.val(st, fr, ins['x'])
        fr.regs[ins['reg']] = self.convert(st, x, ins['x']['t'], ins['type'])

    def convert(self, st, x, ft, tt):
        fd, td = self.p.under(ft), self.p.under(tt)
        if td['kind'] == 'basic' and td['name'] == 'string':
            if isinstance(x, Rope):
                return x
            if isinstance(x, SliceV):
                if self.p.isbyte(fd['elem']):
                    return st.srope(x)
                raise Unsupported('[]rune to string')
            if isc(x):
                return lit(chr(x).encode())
            if st.decide(and_(le(0, x), lt(x, 128))):
                return be(x, 1)
            raise Unsupported('rune to string')
        if td['kind'] == 'slice' and isinstance(x, Rope):
            if not self.p.isbyte(td['elem']):
                raise Unsupported('string to []rune')
            return self.models.born(st, st.mkbytes(x))
        if td['kind'] == 'basic' and td['name'] in INTS:
            if isinstance(x, Opaque):
                return st.fint('fromfloat', *irange(td['name']))
            return self.wrap(st, x, td['name'])
        if td['kind'] == 'basic' and td['name'].startswith('float'):
            return Opaque('float')
        return x

    # ---- calls
    def x_Call(self, st, fr, ins):
        self.call(st, fr, ins['call'], ins)

    def x_Go(self, st, fr, ins):
        c = ins['call']
        fn, args = self.callee(st, fr, c)
        self.models.go(self, st, fn, args, ins)

    def x_Defer(self, st, fr, ins):
        c = ins['call']
        fn, args = self.callee(st, fr, c)
        fr.defers = fr.defers + ((fn, tuple(args), ins),)

    def x_RunDefers(self, st, fr, ins):
        if fr.defers:
            fn, args, di = fr.defers[-1]
            fr.defers = fr.defers[:-1]
            fr.ip -= 1
            self.docall(st, fn, list(args), None, di)

    def callee(self, st, fr, c):
        if 'invoke' in c:
            r = self.val(st, fr, c['recv'])
            args = [self.val(st, fr, a) for a in c['args']]
            if r is None:
                return FuncV('$nilinvoke'), args
            return self.method(st, r, c['invoke']), [r] + args
        f = self.val(st, fr, c['fn'])
        args = [self.val(st, fr, a) for a in c['args']]
        return f, args

    def method(self, st, r, name):
        """function implementing method name of the dynamic type of r"""
        ms = self.p.methods.get(r.t)
        if ms is not None and name in ms:
            return FuncV('$m ' + ms[name])
        return FuncV('$x (%s).%s' % (r.t, name))

    def call(self, st, fr, c, ins):
        fn, args = self.callee(st, fr, c)
        self.docall(st, fn, args, ins.get('reg'), ins)

    def docall(self, st, fn, args, dest, ins, cont=None, gor=False):
        if fn is None:
            raise GoPanic('call of nil function')
        if not isinstance(fn, FuncV):
            raise Unsupported('call of %r' % (fn,))
        n = fn.n
        if n == '$nilinvoke':
            raise GoPanic('nil pointer dereference (method call on nil interface)')
        if n.startswith('$m '):
            n = n[3:]
            args = [args[0].v] + args[1:]
            if n in self.p.funcs or n in self.modular:
                pass
            else:
                raise Unsupported('method ' + n)
        if n.startswith('builtin '):
            v = self.models.builtin(self, st, n[8:], args, ins)
            self.finish(st, v, dest, cont)
            return
        if n in self.modular:
            v = self.modular[n](st, args, ins)
            self.finish(st, v, dest, cont)
            return
        f = self.p.funcs.get(n)
        if f is not None:
            self.push(st, f, list(args), fn.b, dest, cont, gor)
            return
        v = self.models.call(self, st, n, args, ins, dest, cont, fn)
        if v is not self.models.PUSHED:
            self.finish(st, v, dest, cont)

    def finish(self, st, v, dest, cont):
        if cont is not None:
            cont(self, st, v)
            return
        if dest is not None:
            st.frames[-1].regs[dest] = v

    MAXDEPTH = 60

    def push(self, st, f, args, bindings, dest, cont=None, gor=False):
        if len(st.frames) > self.MAXDEPTH:
            raise Unsupported('call depth')
        fr = Frame(f)
        if len(args) != len(f['params']):
            raise Unsupported('arity of ' + f['name'])
        for p, a in zip(f['params'], args):
            fr.regs[p['reg']] = a
        for p, b in zip(f['freevars'], bindings):
            fr.regs['f$' + p['name']] = b
        fr.dest, fr.cont, fr.gor = dest, cont, gor
        st.frames.append(fr)

    def x_Return(self, st, fr, ins):
        vals = [self.val(st, fr, r) for r in ins['results']]
        v = None
        if len(vals) == 1:
            v = vals[0]
        elif vals:
            v = tuple(vals)
        st.frames.pop()
        if fr.unw:
            self.unwind(st)
            return
        if not st.frames:
            if fr.cont is not None:
                fr.cont(self, st, v)
                if st.frames:
                    return
            st.outcome = ('return', None)
            st.result = v
            return
        if fr.cont is not None:
            fr.cont(self, st, v)
            return
        if fr.dest is not None:
            st.frames[-1].regs[fr.dest] = v

    def x_Panic(self, st, fr, ins):
        raise GoPanic('explicit panic')

    def unwind(self, st):
        while True:
            if not st.frames:
                st.outcome = ('panic', st.panic)
                return
            fr = st.frames[-1]
            if fr.defers:
                fn, args, di = fr.defers[-1]
                fr.defers = fr.defers[:-1]
                n = len(st.frames)
                try:
                    self.docall(st, fn, list(args), None, di)
                except GoPanic as e:
                    st.panic = e.msg
                    continue
                if len(st.frames) > n:
                    st.frames[-1].unw = True
                    return
                continue
            if st.panic is None:
                rb = fr.fn.get('recover')
                if rb is None:
                    res = fr.fn['results']
                    vals = [self.p.zero(r['type']) for r in res]
                    v = vals[0] if len(vals) == 1 else tuple(vals) if vals else None
                    st.frames.pop()
                    if not st.frames:
                        st.outcome, st.result = ('return', None), v
                    elif fr.cont is not None:
                        fr.cont(self, st, v)
                    elif fr.dest is not None:
                        st.frames[-1].regs[fr.dest] = v
                    return
                fr.blk, fr.ip, fr.prev = rb, 0, -1
                return
            if fr.gor:
                st.frames = []
                continue
            st.frames.pop()
            if fr.unw:
                # a deferred call panicked in turn: keep unwinding
                continue

    def x_Store(self, st, fr, ins):
        st.store(self.val(st, fr, ins['addr']), self.val(st, fr, ins['x']))

    def x_Send(self, st, fr, ins):
        st.trace += (('send', self.val(st, fr, ins['chan'])),)

    def x_Select(self, st, fr, ins):
        fr.regs[ins['reg']] = self.models.select(self, st, fr, ins)


def find_loops(prog):
    """mark natural loop headers; block['loophead'] = set of body blocks"""
    for f in prog.funcs.values():
        bs = f['blocks']
        n = len(bs)
        if n == 0:
            continue
        # dominators
        full = set(range(n))
        dom = [full.copy() for _ in range(n)]
        dom[0] = {0}
        roots = {0}
        if f.get('recover') is not None:
            dom[f['recover']] = {f['recover']}
            roots.add(f['recover'])
        ch = True
        while ch:
            ch = False
            for i in range(n):
                if i in roots:
                    continue
                ps = bs[i]['preds']
                d = set.intersection(*[dom[p] for p in ps]) if ps else set()
                d = d | {i}
                if d != dom[i]:
                    dom[i] = d
                    ch = True
        loops = {}
        for i in range(n):
            for s in bs[i]['succs']:
                if s in dom[i]:
                    body = loops.setdefault(s, {s})
                    stack = [i]
                    while stack:
                        x = stack.pop()
                        if x not in body:
                            body.add(x)
                            stack.extend(bs[x]['preds'])
        for h, body in loops.items():
            bs[h]['loophead'] = body
