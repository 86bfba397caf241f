"""Loop rule: invariants by abstraction.

At a loop head the locations the body may change are replaced by arbitrary
values (a set of shapes, with interval invariants for integers that are kept
only if they hold initially and after every iteration).  The set is found by
iteration: starting from nothing, every location that differs after one
execution of the body is added until one execution of the body from the
abstract state leads only to states the abstract state covers (induction).
Then the abstract state stands for every number of iterations, and paths that
return to the head are cut.
"""
import z3
from terms import *
from rope import *
from engine import *
import engine


MISSING = object()


class Abs:
    def __init__(self):
        self.shapes = {}       # location -> list of sample values
        self.ints = {}         # location -> list of candidate invariants (kind, term)
        self.tried = {}        # location -> bounds by constants that were candidates
        self.rel = set()       # (x, y, c): x <= y + c for two abstracted integers
        self.reldone = set()
        self.lens = set()      # (x, s, c): x <= len(s) + c for an abstracted integer and an abstracted slice
        self.lensdone = set()
        self.assumed = set()   # those of lens that the abstract states at hand were built with
        self.sums = {}         # (x, y) -> candidate invariants of the sum of two abstracted integers
        self.lenkeep = {}      # locations whose byte length stays equal
        self.elems = {}        # element type -> shapes of the elements of lists built by the loop
        self.own = {}          # the bounds assumed that are not used for their own proof
        self.seeded = set()
        self.merged = set()    # locations with constants that were merged into an arbitrary value
        self.gens = {}         # generator -> part of a slice (live: within the length; rest: behind it)
        self.cut = {}          # (while an abstract state is built) array -> end of its live part
        self.combos = [{}]     # combinations of shapes that occur: location -> index (default 0)

    def gen(self, st, t, nid, part='live'):
        nm = st.fresh('elems')
        self.gens[nm] = part

        def mat(s, i):
            k = ('piece', nm, tkey(i))
            if k not in s.ghost:
                sh = self.elems.get((t, part), [])
                if not sh:
                    raise Dead()
                src, v = sh[s.choose(len(sh), 'loop element') if len(sh) > 1 else 0]
                s.ghost[k] = generalise(self, s, src, v, 'elem', nid)
            return s.ghost[k]
        return Gen(nm, None, key=nm, info={'mat': mat})

    def merge(self, st, loc, v):
        """too many constants, or arbitrary values: one arbitrary value"""
        self.merged.add(loc)
        self.shapes[loc] = [(st, st.fint('any') if not isinstance(v, Rope) else sym(st.fvar('any')))]
        cs = []
        for c in self.combos:
            c = {k: i for k, i in c.items() if k != loc}
            if c not in cs:
                cs.append(c)
        self.combos = cs

    def addelems(self, st, v, nid, grew=False):
        """element shapes of the new lists reachable from v"""
        seen = set()
        work = [v]
        while work:
            v = work.pop()
            if isinstance(v, StructV):
                work += v.f
            elif isinstance(v, IfaceV):
                work.append(v.v)
            elif isinstance(v, (FuncV,)):
                work += v.b
            elif isinstance(v, Ptr):
                if v.oid > nid and v.oid not in seen:
                    seen.add(v.oid)
                    work.append(st.heap[v.oid])
            elif isinstance(v, SliceV):
                if v.base is not None and v.base.oid > nid:
                    arr = st.heap[v.base.oid]
                    if isinstance(arr, LArr) and not v.base.path:
                        live = st.slist(v)
                        _, tail = st.lsplit(arr, add(v.off, v.ln))
                        grew |= self.addlist(st, live, arr.t, nid, 'live', work)
                        grew |= self.addlist(st, tail, arr.t, nid, 'rest', work)
                    elif v.base.oid not in seen:
                        seen.add(v.base.oid)
                        work.append(arr)
            elif isinstance(v, LArr):
                grew |= self.addlist(st, v, v.t, nid, 'live', work)
        return grew

    def addlist(self, st, l, t, nid, part, work):
        grew = False
        for x in l.a:
            if isinstance(x, EL):
                work.append(x.v)
                grew |= self.addelem(st, t, x.v, nid, part)
            elif isinstance(x, LFold):
                raise Unsupported('loop: filtered list')
            elif x.g.name in self.gens:
                if self.gens[x.g.name] != part:
                    for s, w in list(self.elems.get((t, self.gens[x.g.name]), [])):
                        grew |= self.addelem(s, t, w, nid, part)
            elif x.g.name.startswith('zero_'):
                grew |= self.addelem(st, t, st.p.zero(t), nid, part)
            elif t == 'string':
                grew |= self.addelem(st, t, EMPTY, nid, part)
            else:
                raise Unsupported('loop: elements %r' % (x.g,))
        return grew

    def addelem(self, st, t, v, nid, part='live'):
        k = shapekey(st, v, nid)
        l = self.elems.setdefault((t, part), [])
        if any(shapekey(s, w, nid) == k for s, w in l):
            return False
        l.append((st, v))
        return True


def indexof(v):
    """the index of the node whose server v is (v itself when it is anything else)"""
    if isinstance(v, IfaceV) and z3.is_app(v.v) and v.v.num_args() == 1 and v.v.decl().name() == 'S':
        return v.v.arg(0)
    return v


def small(v):
    return v is None or v is MISSING or isinstance(v, (bool, str)) and not isinstance(v, int)


def same(st, a, b):
    """syntactic equality of two values"""
    if a is b:
        return True
    if a is MISSING or b is MISSING:
        return False
    if isinstance(a, Rope) and isinstance(b, Rope):
        return st.norm(a).key() == st.norm(b).key()
    if type(a) is not type(b):
        if (isc(a) or z3.is_expr(a)) and (isc(b) or z3.is_expr(b)):
            if isinstance(a, bool) != isinstance(b, bool) and (isc(a) and isc(b)):
                return False
            return tkey(a) == tkey(b)
        return False
    if isc(a):
        return a == b
    if z3.is_expr(a):
        return tkey(a) == tkey(b)
    if isinstance(a, StructV):
        return a.t == b.t and all(same(st, x, y) for x, y in zip(a.f, b.f))
    if isinstance(a, BArr):
        return same(st, a.r, b.r)
    if isinstance(a, LArr):
        return len(a.a) == len(b.a) and all(
            type(x) is type(y) and (same(st, x.v, y.v) if isinstance(x, EL) else
                                    x.g.k == y.g.k and tkey(x.lo) == tkey(y.lo) and tkey(x.hi) == tkey(y.hi))
            for x, y in zip(a.a, b.a))
    if isinstance(a, SliceV):
        return (a.base == b.base) and all(tkey(x) == tkey(y) for x, y in ((a.off, b.off), (a.ln, b.ln), (a.cap, b.cap)))
    if isinstance(a, IfaceV):
        return a.t == b.t and same(st, a.v, b.v)
    if isinstance(a, FuncV):
        return a.n == b.n and len(a.b) == len(b.b) and all(same(st, x, y) for x, y in zip(a.b, b.b))
    if isinstance(a, MapV):
        return a.sym is b.sym and len(a.e) == len(b.e) and all(same(st, x, y) and same(st, v, w) for (x, v), (y, w) in zip(a.e, b.e))
    if isinstance(a, tuple):
        return len(a) == len(b) and all(same(st, x, y) for x, y in zip(a, b))
    try:
        return bool(a == b)
    except Exception:
        return False


IGNORE = {'$call', 'mark.in'}


def locations(st, fr, phis):
    """location -> value"""
    out = {}
    for r in phis:
        out[('reg', r)] = fr.regs[r]
    for k, v in st.ghost.items():
        if k in IGNORE or (isinstance(k, tuple) and k[0] in ('c.used', 'r.views', 'idxlen', 'piece', 'replaced')):
            continue
        out[('ghost', k)] = v
    for o, v in st.heap.items():
        out[('heap', o)] = v
    return out


def flatten(loc, v):
    """split struct values into their fields"""
    if isinstance(v, StructV):
        for i, x in enumerate(v.f):
            yield from flatten(loc + (i,), x)
    else:
        yield loc, v


def setloc(st, fr, loc, v):
    kind, k = loc[0], loc[1]
    path = loc[2:]
    if kind == 'reg':
        cur = fr.regs[k]
        fr.regs[k] = st.setpath(cur, path, v)
    elif kind == 'ghost':
        cur = st.ghost.get(k)
        if v is MISSING:
            st.ghost.pop(k, None)
        else:
            st.ghost[k] = st.setpath(cur, path, v)
    else:
        st.heap[k] = st.setpath(st.heap[k], path, v)


OIDS = {'r.src', 'w.dst', 'c.reader', 'conn', 'global', 'opid', 'epoch', 'stderr', 'iolocks', 'held', 'stale', 'conns'}


def fixed(loc):
    """ghost locations that hold object numbers"""
    return loc[0] == 'ghost' and (loc[1] in OIDS or isinstance(loc[1], tuple) and loc[1][0] in OIDS)


def shapekey(st, v, nid, loc=None, d=0):
    """class of values generalised together; nid: objects above are new"""
    if v is MISSING or v is None:
        return ('none', v is MISSING)
    if loc is not None and fixed(loc):
        return ('fixed', tuplekey(v))
    if isinstance(v, bool) and loc is not None and loc[0] == 'ghost':
        return ('gbool', v)
    if isinstance(v, bool) or (z3.is_expr(v) and z3.is_bool(v)):
        return ('bool',)
    if loc is not None and enum(st, loc):
        # a field that tells states apart: its constants are kept apart
        c = v if isc(v) else v.concrete() if isinstance(v, Rope) else None
        if c is not None:
            return ('const', c)
    if isc(v) or z3.is_expr(v):
        return ('int',)
    if isinstance(v, Rope):
        return ('rope',)
    if d > 6:
        raise Unsupported('loop: deep structure')
    if isinstance(v, Ptr):
        if v.oid <= nid:
            return ('ptr', v.oid, pathkey(v.path))
        return ('ptr', 'new', pathkey(v.path), shapekey(st, st.heap[v.oid], nid, None, d + 1))
    if isinstance(v, SliceV):
        if v.base is None:
            return ('nilslice',)
        if v.base.oid <= nid:
            return ('slice', v.base.oid)
        a = st.heap[v.base.oid]
        return ('slice', 'new', a.t if isinstance(a, LArr) else 'bytes')
    if isinstance(v, IfaceV) and indexof(v) is not v:
        return ('nodeserver', v.t)
    if isinstance(v, IfaceV):
        return ('iface', v.t, shapekey(st, v.v, nid, None, d + 1))
    if isinstance(v, FuncV):
        return ('func', v.n, tuple(shapekey(st, x, nid, None, d + 1) for x in v.b))
    if isinstance(v, Opaque):
        return ('opaque', v.n)
    if isinstance(v, BArr):
        return ('barr',)
    if isinstance(v, LArr):
        return ('larr',)
    if isinstance(v, MapV):
        raise Unsupported('loop: map')
    if isinstance(v, StructV):
        return ('struct', v.t) + tuple(shapekey(st, x, nid, None, d + 1) for x in v.f)
    if isinstance(v, tuple):
        if len(v) == 3 and v[0] == 'str' and isinstance(v[1], Rope):
            return ('iter', v[1].key())           # position in the text of a range statement
        return ('tuple', tuplekey(v))
    return ('other', repr(v))


def enum(st, loc):
    """the location is a field of a string type or of a named integer type"""
    if loc[0] != 'heap' or len(loc) < 3:
        return False
    v = st.heap.get(loc[1])
    if not isinstance(v, StructV):
        return False
    try:
        t = v.t
        for e in loc[2:]:
            t = st.p.under(t)['fields'][e]['type']
        u = st.p.uname(t)
    except Exception:
        return False
    return u == 'string' or u in INTS and '.' in t


def tuplekey(v):
    if isinstance(v, tuple):
        return tuple(tuplekey(x) for x in v)
    if isinstance(v, Rope):
        return v.key()
    if z3.is_expr(v):
        return tkey(v)
    return repr(v)


def join_cls(st, vals):
    c = 0
    for r in vals:
        for x in st.norm(r).a:
            c |= cls_of(x.b) if isinstance(x, Lit) else x.cls()
    return c


def generalise(ab, st, src, v, hint, nid, depth=0):
    """arbitrary value of the shape of v (v lives in state src)"""
    if v is MISSING or v is None:
        return v
    if isinstance(v, bool) or (z3.is_expr(v) and z3.is_bool(v)):
        return st.fbool(hint)
    if isc(v) or z3.is_expr(v):
        return st.fint(hint)
    if isinstance(v, Rope):
        return sym(st.fvar(hint))
    if isinstance(v, Ptr):
        if v.oid <= nid:
            return v
        return Ptr(newobj(ab, st, src, v.oid, hint, nid, depth), v.path)
    if isinstance(v, SliceV):
        if v.base is None:
            return v
        if v.base.oid <= nid:
            b = v.base
            off, ln, cap = st.fint(hint + '.off', 0), st.fint(hint + '.len', 0), st.fint(hint + '.cap', 0)
            arr = st.heap[b.oid]              # arrays are replaced before what refers to them
            for e in b.path:
                arr = st.getpath(arr, e)
            n = rlen(arr.r) if isinstance(arr, BArr) else llen(arr)
            st.assume(and_(le(ln, cap), le(add(off, cap), n)))
            if b.oid in ab.cut and not b.path:
                st.assume(le(add(off, ln), ab.cut[b.oid]))
            return SliceV(b, off, ln, cap)
        if v.base.path:
            raise Unsupported('loop: slice into a new structure')
        arr = src.heap[v.base.oid]
        m = dict(src.meta.get(v.base.oid, {}))
        ln, cap = st.fint(hint + '.len', 0, 1 << 46), st.fint(hint + '.cap', 0, 1 << 47)
        st.assume(le(ln, cap))
        if isinstance(arr, BArr):
            x = st.fvar(hint, hi=1 << 47)
            st.assume(eq(x.ln, cap))
            o = st.new(BArr(sym(x)), **m)
        else:
            o = st.new(lmk([LSeg(ab.gen(st, arr.t, nid), 0, ln), LSeg(ab.gen(st, arr.t, nid, 'rest'), ln, cap)], arr.t), **m)
        return SliceV(Ptr(o), 0, ln, cap)
    if isinstance(v, IfaceV) and indexof(v) is not v:
        return IfaceV(v.t, v.v.decl()(st.fint(hint)))
    if isinstance(v, IfaceV):
        return IfaceV(v.t, generalise(ab, st, src, v.v, hint, nid, depth + 1))
    if isinstance(v, FuncV):
        return FuncV(v.n, [generalise(ab, st, src, b, hint, nid, depth + 1) for b in v.b])
    if isinstance(v, BArr):
        x = st.fvar(hint)
        return BArr(sym(x))
    if isinstance(v, LArr):
        return lmk([LSeg(ab.gen(st, v.t, nid), 0, st.fint(hint + '.n', 0, 1 << 47))], v.t)
    if isinstance(v, StructV):
        return StructV(v.t, [generalise(ab, st, src, x, '%s.%d' % (hint, i), nid, depth + 1) for i, x in enumerate(v.f)])
    if isinstance(v, Opaque):
        return v
    if isinstance(v, tuple):
        if len(v) == 3 and v[0] == 'str' and isinstance(v[1], Rope):
            i = st.fint(hint + '.at', 0)
            st.assume(le(i, rlen(st.norm(v[1]))))
            return ('str', v[1], i)
        return v
    raise Unsupported('loop: generalisation of %r' % (v,))


def newobj(ab, st, src, oid, hint, nid, depth):
    if depth > 4:
        raise Unsupported('loop: deep structure')
    v = src.heap[oid]
    m = dict(src.meta.get(oid, {}))
    o = st.new(None, **m)
    st.heap[o] = generalise(ab, st, src, v, hint, nid, depth + 1)
    return o


def typed_range(I, fr, loc, st):
    """range of the machine type of an integer location"""
    t = None
    if loc[0] == 'reg':
        for ins in fr.fn['blocks'][fr.blk]['instrs']:
            if ins['op'] == 'Phi' and ins['reg'] == loc[1]:
                t = ins['type']
        path = loc[2:]
    elif loc[0] == 'heap':
        v = st.heap[loc[1]]
        path = loc[2:]
        if isinstance(v, StructV):
            t = v.t
    else:
        return None
    try:
        for e in path:
            t = I.p.under(t)['fields'][e]['type']
        n = I.p.uname(t) if t else None
    except Exception:
        return None
    return irange(n) if n in INTS else None


def on_loop(I, st):
    """called at the first instruction of a loop head"""
    fr = st.frames[-1]
    blk = fr.blk
    body = fr.fn['blocks'][blk]['loophead']
    key = blk
    n = fr.loops.get(key, 0)
    if n == 'fresh':
        # an abstract state at a head without phis
        fr.loops[key] = 'in'
        return None
    if fr.prev not in body:
        fr.loops[key] = 0
    n = fr.loops.get(key, 0)
    if n == 'in':
        st.outcome = ('cut', None)
        st.frames = []
        return [st]
    n += 1
    fr.loops[key] = n
    peel, limit = I.loop_policy(I, st, fr, blk)
    if limit is not None and n > limit:
        raise Unsupported('loop bound at %s' % fr.fn['name'])
    if peel is None or n <= peel or n <= peel + 64 and counted(I, st, fr, blk, body):
        return None
    return abstract(I, st, fr, blk, body, key)


def counted(I, st, fr, blk, body):
    """does the loop compare two known numbers that are close to each other?
    Then its few rounds are executed one by one"""
    blocks = fr.fn['blocks']
    ins = blocks[blk]['instrs']
    if ins[-1]['op'] != 'If' or ins[-1]['cond'].get('k') != 'reg':
        return False
    cmp = [i for i in ins if i.get('reg') == ins[-1]['cond']['n']]
    if not cmp or cmp[0]['op'] != 'BinOp' or cmp[0]['tok'] not in ('<', '<=', '>', '>=', '!='):
        return False
    if any(i['op'] not in ('Phi', 'BinOp', 'UnOp', 'Convert', 'If', 'FieldAddr', 'Field') and
           not (i['op'] == 'Call' and i['call'].get('fn', {}).get('k') == 'builtin' and i['call']['fn']['n'] == 'len') for i in ins):
        return False
    calls = any(i['op'] == 'Call' and i['call'].get('fn', {}).get('k') != 'builtin' for b in body for i in blocks[b]['instrs'])
    s = st.clone()
    f = s.frames[-1]
    s.dq, s.dn, s.alts = [], [], []
    try:
        I.phis_only(s, f)
        for i in ins:
            if i['op'] == 'Phi':
                continue
            if i is cmp[0]:
                x, y = I.val(s, f, i['x']), I.val(s, f, i['y'])
                ok = all(isc(v) and not isinstance(v, bool) for v in (x, y))
                return ok and abs(x - y) <= (16 if calls else 64)
            I.exec(s, f, i)
            if s.alts:
                return False
    except (Unsupported, Dead, GoPanic, Stop):
        pass
    return False


def abstract(I, st, fr, blk, body, key):
    I.phis_only(st, fr)
    ins = fr.fn['blocks'][blk]['instrs']
    phis = [i['reg'] for i in ins if i['op'] == 'Phi']
    mark = 'in' if phis else 'fresh'
    nid0 = st.nid
    base = st
    ab = Abs()
    depth = len(st.frames)
    cache = I.__dict__.setdefault('loop_cache', {})
    ck = (fr.fn['name'], blk)
    if I.coarse and ck in cache:
        preset(I, base, phis, ab, cache[ck])
    for rnd in range(40):
        I.models.reset_seen(depth)
        starts = build(I, base, phis, ab)
        grew = False
        edges = []                 # back edges: measures that decrease, that do not grow
        rest = []                  # states that leave the loop
        heads = []
        waits = []                 # back edges that prolong the time an operation may take
        for a in starts:
            f = a.frames[-1]
            f.loops[key] = mark

            def stop(s, depth=depth, f=f):
                if len(s.frames) < depth:
                    return True
                if len(s.frames) > depth:
                    return False
                t = s.frames[-1]
                if t.blk not in body:
                    return True
                return t.blk == blk and t.ip == 0 and t.loops.get(key) != 'fresh'
            for b in I.run(a.clone(), stop):
                if not b.frames or len(b.frames) < depth:
                    rest.append(b)
                    continue
                t = b.frames[-1]
                if t.blk != blk or t.ip != 0:
                    rest.append(b)
                    continue
                I.phis_only(b, t)
                if uncovered(I, base, a, b, phis, ab):
                    grew = True
                elif I.variants and not grew:
                    edges.append((b,) + measures(I, base, a, b, phis, ab))
                    ev = {e[0] for e in b.trace[len(a.trace):]}
                    if ev & {'sleep', 'dial'} or {'now', 'deadline'} <= ev:
                        waits.append(b)
                    heads.append(a)
            if grew:
                break
        if not grew:
            break
    else:
        raise Unsupported('loop: no invariant found')
    if edges:
        b, left = edges[0][0], unranked(edges)
        b.vcs += (I.variants,)
        if left:
            b = left[0]
            b.fail(I.variants, 'the loop at block %d of %s may go round for ever: nothing that is bounded decreases' % (blk, fr.fn['name']))
        if waits:
            # whatever the peer sends: the number of rounds is bounded by the arguments
            ms = [(e[0],) + measures(I, base, a, e[0], phis, ab, False) for e, a in zip(edges, heads)]
            if unbounded([m for m in ms if any(m[0] is w for w in waits)], ms):
                b.fail('C17.extended', 'the loop at block %d of %s waits (%s) in every round, and the peer decides on the number of rounds' % (
                    blk, fr.fn['name'], ', '.join(sorted({e[0] for w in waits for e in w.trace if e[0] in ('deadline', 'sleep', 'dial')}))))
            else:
                b.vcs += ('C17.extended',)
        b.outcome = ('cut', None)
        b.frames = []
        rest.append(b)
    cache[ck] = {loc: (typeat(base, loc), [shapekey(base, ab.shapes[loc][0][1], nid0, loc)], [(k, str(t)) for k, t in ab.ints.get(loc, [])],
                      ab.tried.get(loc, frozenset()))
                 for loc in ab.shapes}
    I.loops_proved.add('%s block %d: %d locations abstracted' % (fr.fn['name'], blk, len(ab.shapes)))
    return rest


def unranked(edges):
    """the back edges that no lexicographic combination of measures decreases"""
    left = [e for e in edges if 'in' not in e[1]]      # the input never grows
    while left:
        for m in sorted(set(k for e in left for k in e[1]), key=repr):
            if all(m in e[1] or m in e[2] for e in left):
                left = [e for e in left if m not in e[1]]
                break
        else:
            return [e[0] for e in left]
    return []


def unbounded(left, edges):
    """is the number of rounds by one of the edges in left not bounded by a measure that no edge increases?"""
    while left:
        for m in sorted(set(k for e in left for k in e[1]), key=repr):
            if all(m in e[1] or m in e[2] for e in edges):
                left = [e for e in left if m not in e[1]]
                break
        else:
            return True
    return False


def measures(I, base, a, b, phis, ab, useinput=True):
    """(decreasing, not growing): measures with a lower bound that decrease from the
    abstract state a at the loop head to the state b that is back at the head"""
    fa, fb, f0 = a.frames[-1], b.frames[-1], base.frames[-1]
    c = b.ghost.get('conn')
    if useinput and c is not None and ('c.in', c) in b.ghost:
        x, y = rlen(a.norm(a.ghost[('c.in', c)])), rlen(b.norm(b.ghost[('c.in', c)]))
        if b.must(lt(y, x)):
            return {'in'}, set()
    ms = {}
    A, B = {}, {}
    for k, v in locations(a, fa, phis).items():
        A.update(flatten(k, v))
    for k, v in locations(b, fb, phis).items():
        B.update(flatten(k, v))

    def isint(v):
        return (isc(v) and not isinstance(v, bool)) or z3.is_expr(v) and z3.is_int(v)
    for loc, x in A.items():
        y = B.get(loc, MISSING)
        if x is y or type(x) is not type(y) and not (isint(x) and isint(y)):
            continue
        if loc in ab.ints and isint(x):
            kinds = {k for k, t in ab.ints[loc]}
            if kinds & {'le', 'lt', 'LE'}:
                ms[('up',) + loc] = (neg(x), neg(y))
            if kinds & {'ge', 'gt', 'GE'}:
                ms[('down',) + loc] = (x, y)
        elif isinstance(x, Rope) and loc[0] == 'reg':
            ms[('len',) + loc] = (rlen(a.norm(x)), rlen(b.norm(y)))
        elif isinstance(x, SliceV):
            ms[('len',) + loc] = (x.ln, y.ln)
        elif isinstance(x, tuple) and len(x) == 3 and x[0] == 'str' and isinstance(x[1], Rope):
            ms[('up',) + loc] = (neg(x[2]), neg(y[2]))
        elif isinstance(x, LArr) or isinstance(x, BArr):
            pass
    for x, y, d in ab.rel:
        ms[('gap', x, y)] = tuple(sub(indexof(f.regs[y[1]]), indexof(f.regs[x[1]])) for f in (fa, fb))
    dec = {k for k, (x, y) in ms.items() if b.must(lt(y, x))}
    return dec, {k for k, (x, y) in ms.items() if k not in dec and b.must(le(y, x))}


def neg(x):
    return sub(0, x)


def typeat(st, loc):
    v = st.heap.get(loc[1]) if loc[0] == 'heap' else None
    return v.t if isinstance(v, (StructV, LArr)) else type(v).__name__


def preset(I, base, phis, ab, known):
    """start with the locations that changed when this loop was met before"""
    Z = {}
    for k, v in locations(base, base.frames[-1], phis).items():
        Z.update(flatten(k, v))
    for loc, (t, ks, ints, tried) in known.items():
        if loc not in Z or typeat(base, loc) != t or isinstance(Z[loc], (LArr, BArr)):
            continue
        z = Z[loc]
        k = shapekey(base, z, base.nid, loc)
        if k not in ks or k[0] in ('const', 'larr', 'barr', 'slice'):
            continue
        ab.shapes[loc] = [(base, z)]
        if k == ('int',):
            cs = candidates(I, base, base.frames[-1], loc, z)
            ab.tried[loc] = tried | {(c[0], str(c[1])) for c in cs if isc(c[1])}
            ab.ints[loc] = [c for c in cs if not isc(c[1]) or (c[0], str(c[1])) in ints or (c[0], str(c[1])) not in tried]


def build(I, base, phis, ab):
    """abstract states (one for each combination of shapes)"""
    from verify import explore
    nid = base.nid
    ab.assumed = set(ab.lens)
    res = []
    for combo in ab.combos:
        def go(s):
            fr = s.frames[-1]
            ab.cut = {}
            for loc in sorted(ab.shapes, key=lambda l: (not isinstance(ab.shapes[l][0][1], (BArr, LArr)), repr(l))):
                samples = ab.shapes[loc]
                src, v = samples[combo.get(loc, 0)]
                hint = 'loop_%s' % '_'.join(str(x) for x in loc[:3] if not isinstance(x, tuple))
                if loc[0] == 'heap' and len(loc) == 2 and isinstance(v, LArr):
                    n, c = llen(v), s.fint(hint + '.live', 0, 1 << 47)
                    s.assume(le(c, n))
                    ab.cut[loc[1]] = c
                    setloc(s, fr, loc, lmk([LSeg(ab.gen(s, v.t, nid), 0, c), LSeg(ab.gen(s, v.t, nid, 'rest'), c, n)], v.t))
                    continue
                k = shapekey(src, v, nid, loc)
                g = v if fixed(loc) or (k[0] == 'const' and loc not in ab.merged) or (loc[0] == 'ghost' and isinstance(v, bool)) else generalise(ab, s, src, v, hint, nid)
                if loc in ab.ints and z3.is_expr(indexof(g)):
                    r = typed_range(I, fr, loc, s)
                    if r and g is indexof(g):
                        s.pc += [g >= r[0], g <= r[1]]
                    for kind, t in ab.ints[loc]:
                        c = cand(kind, indexof(g), t)
                        s.assume(c)
                        if own(kind, t) and z3.is_expr(c):
                            ab.own[c.ast.value] = c
                if loc in ab.lenkeep and isinstance(g, BArr):
                    s.assume(eq(rlen(g.r), ab.lenkeep[loc]))
                if I.variants and loc[0] == 'ghost' and isinstance(loc[1], tuple) and loc[1][0] == 'c.in' and isinstance(g, Rope):
                    # what is left of the input is a part of it
                    s.assume(le(rlen(g), rlen(base.norm(base.ghost[loc[1]]))))
                setloc(s, fr, loc, g)
            if I.variants and s.ghost.get('conn') is not None and 'mark.in' not in s.ghost:
                s.ghost['mark.in'] = rlen(s.norm(s.ghost[('c.in', s.ghost['conn'])]))
            for x, y, c in ab.rel:
                gx, gy = indexof(fr.regs[x[1]]), indexof(fr.regs[y[1]])
                s.assume(le(gx, add(gy, c)))
            for x, y, c in ab.lens:
                if isinstance(fr.regs[y[1]], SliceV):
                    s.assume(le(indexof(fr.regs[x[1]]), add(fr.regs[y[1]].ln, c)))
            for (x, y), cs in ab.sums.items():
                for kind, t in cs:
                    s.assume(cand(kind, add(indexof(fr.regs[x[1]]), indexof(fr.regs[y[1]])), t))
            for k in [k for k in s.ghost if isinstance(k, tuple) and k[0] == 'r.views']:
                s.ghost[k] = ()
            if not s.sat():
                raise Dead()
            return True
        for s, v in explore(I, base, go):
            if v is not True:
                raise Unsupported('loop: %s' % (v,))
            res.append(s)
    return res


def cand(kind, g, t):
    if kind == 'tmpl':
        return t(g)
    return {'ge': ge, 'le': le, 'LE': le, 'GE': ge, 'lt': lt, 'gt': gt}[kind](g, t)


def candidates(I, base, fr, loc, v0):
    out = [('ge', v0), ('le', v0)]
    seen = set()
    terms = [0]
    for r, v in fr.regs.items():
        if (isc(v) and not isinstance(v, bool)) or (z3.is_expr(v) and z3.is_int(v)):
            if loc and ('reg', r) == loc[:2]:
                continue
            terms.append(v)
        elif isinstance(v, SliceV):
            terms += [v.ln]
        elif isinstance(v, Rope):
            terms.append(rlen(base.norm(v)))
    cs = []
    for t in terms:
        k = tkey(t)
        if k in seen:
            continue
        seen.add(k)
        for kind in ('lt', 'le', 'gt', 'ge'):
            cs.append((kind, t, cand(kind, v0, t)))
    for t in I.loop_templates:
        cs.append(('tmpl', t, t(v0)))
    if I.coarse and loc and loc[0] == 'heap' and len(loc) > 2:
        for t in ((1 << 31) - 1, (1 << 32) - 1, 0xffff, 0xff):
            cs.append(('LE', t, le(v0, t)))
        cs.append(('GE', -(1 << 31), ge(v0, -(1 << 31))))
    return out + holding(base, cs)


def own(kind, t):
    """bounds by constants: an iteration must establish them without assuming them
    (a counter would disprove them one by one)"""
    return kind in ('LE', 'GE') or kind in ('lt',) and isc(t)


def holding(st, cs, drop=None, pc=None):
    """the candidates (kind, term, condition) that hold in st"""
    if drop:
        mine = [c for c in cs if own(c[0], c[1])]
        if mine:
            keep = holding(st, mine, None, [c for c in st.pc if c.ast.value not in drop])
            ok = holding(st, [c for c in cs if not own(c[0], c[1])])
            return [(k, t) for k, t, _ in cs if any(k == a and t is b for a, b in keep + ok)]
    out = [c for c in cs if isc(c[2]) and c[2]]
    open_ = [c for c in cs if not isc(c[2])]
    pc = st.pc if pc is None else pc
    ids = [c.ast.value for c in pc] if open_ else ()

    def must(c):
        return st.query(ids, [z3.Not(c)], None, pc) == z3.unsat
    while open_:
        m = []
        r = st.query(ids, [z3.Not(z3.And(*[c[2] for c in open_]))], m, pc)
        if r == z3.unsat:
            out += open_
            break
        if not m:
            return [(k, t) for k, t, c in out] + [(k, t) for k, t, c in open_ if must(c)]
        n = [c for c in open_ if z3.is_true(m[0].eval(c[2], model_completion=True))]
        if len(n) == len(open_):
            n = [c for c in open_ if must(c[2])]
            out += n
            break
        open_ = n
    return [(k, t) for k, t, c in out]


def liveend(st, locs, oid, arr):
    """an index of the array that no slice held in a location reaches beyond"""
    ends = {}
    for loc, v in locs.items():
        for _, x in flatten(loc, v):
            if isinstance(x, SliceV) and x.base is not None and x.base.oid == oid and not x.base.path:
                e = add(x.off, x.ln)
                ends[tkey(e)] = e
    for e in ends.values():
        if all(st.must(le(o, e)) for o in ends.values()):
            return e
    return llen(arr)


def uncovered(I, base, a, b, phis, ab):
    """extend ab by what b has beyond the abstract state a; True when it grew"""
    fb, fa, f0 = b.frames[-1], a.frames[-1], base.frames[-1]
    if fb.defers != fa.defers:
        raise Unsupported('defer in a loop')
    for x, y in zip(b.frames[:-1], a.frames[:-1]):
        if x.blk != y.blk or x.ip != y.ip:
            raise Unsupported('loop: frames')
    A, B = locations(a, fa, phis), locations(b, fb, phis)
    Z = locations(base, f0, phis)
    grew = False
    nid = base.nid
    for k in list(A) + [k for k in B if k not in A]:
        if k[0] == 'heap' and (k not in A or k[1] > nid):
            continue                       # object made by this iteration
        if k[0] == 'ghost' and isinstance(k[1], tuple) and len(k[1]) == 2 and isinstance(k[1][1], int) and k[1][1] > nid:
            continue
        va, vb = A.get(k, MISSING), B.get(k, MISSING)
        if va is vb:
            continue
        la, lb = dict(flatten(k, va)), dict(flatten(k, vb))
        lz = dict(flatten(k, Z.get(k, MISSING)))
        if k[0] == 'heap' and isinstance(vb, LArr):
            for s0, w, l in ((base, Z.get(k), Z), (b, vb, B)):
                if isinstance(w, LArr):
                    work = []
                    x, y = s0.lsplit(w, liveend(s0, l, k[1], w))
                    grew |= ab.addlist(s0, x, w.t, nid, 'live', work)
                    grew |= ab.addlist(s0, y, w.t, nid, 'rest', work)
                    for w in work:
                        grew |= ab.addelems(s0, w, nid)
        else:
            if k in ab.seeded or not k in Z:
                pass
            else:
                ab.seeded.add(k)
                grew |= ab.addelems(base, Z[k], nid)
            grew |= ab.addelems(b, vb, nid)
        if set(la) != set(lb):
            raise Unsupported('loop: structure of %s' % (k,))
        for loc in la:
            x, y = la[loc], lb[loc]
            if loc in ab.shapes:
                ks = [shapekey(s, v, nid, loc) for s, v in ab.shapes[loc]]
                yk = shapekey(b, y, nid, loc)
                if loc == ('ghost', 'iolocks') and loc in ab.merged:
                    v = ab.shapes[loc][0][1]
                    if y is MISSING or y <= v:
                        continue
                    if not v <= y:
                        raise Unsupported('loop: locks of the connection')
                    ab.shapes[loc] = [(b, y)]
                    grew = True
                    continue
                if yk not in ks and not (yk[0] == 'const' and (('rope',) in ks or ('int',) in ks)):
                    ab.shapes[loc].append((b, y))
                    if yk[0] in ('const', 'rope', 'int') and (yk[0] != 'const' or len(ab.shapes[loc]) > 4):
                        ab.merge(b, loc, y)
                    grew = True
                    continue
                if loc in ab.lenkeep and isinstance(y, BArr):
                    if not b.must(eq(rlen(b.norm(y.r)), ab.lenkeep[loc])):
                        del ab.lenkeep[loc]
                        grew = True
                if loc in ab.ints and shapekey(b, y, nid)[0] in ('int', 'nodeserver'):
                    x, y = indexof(x), indexof(y)
                    if x is y or z3.is_expr(x) and z3.is_expr(y) and x.eq(y):
                        continue
                    keep = holding(b, [(kd, t, cand(kd, y, t)) for kd, t in ab.ints[loc]], ab.own)
                    if len(keep) != len(ab.ints[loc]):
                        ab.ints[loc] = keep
                        grew = True
                continue
            if same(b, x, y):
                continue
            z = lz.get(loc, MISSING)
            if loc == ('ghost', 'iolocks') and isinstance(y, frozenset) and (z is MISSING or z <= y):
                # the locks under which the connection was used: an iteration adds to them,
                # so the state before the first iteration is taken for one after it
                ab.shapes[loc] = [(b, y)]
                ab.merged.add(loc)
                grew = True
                continue
            ab.shapes[loc] = [(base, z)]
            kz, kb = shapekey(base, z, nid, loc), shapekey(b, y, nid, loc)
            if kz[0] in ('tuple', 'other') and kz != kb and k[0] == 'ghost' and k[1] in ('held', 'iolocks', 'stale', 'conns'):
                pass
            if kb != kz:
                ab.shapes[loc].append((b, y))
                if kb[0] in ('rope', 'int'):
                    ab.merge(b, loc, y)
            if kz == ('int',) or kz[0] == 'nodeserver':
                ab.ints[loc] = candidates(I, base, f0, loc, indexof(z))
                ab.tried[loc] = {(c[0], str(c[1])) for c in ab.ints[loc] if isc(c[1])}
            if isinstance(z, BArr):
                ab.lenkeep[loc] = rlen(base.norm(z.r))
            grew = True
    # relations between pairs of integers
    regs = [loc for loc in ab.ints if loc[0] == 'reg' and len(loc) == 2 and len(ab.shapes[loc]) == 1] if I.loop_templates else []
    for x in regs:
        for y in regs:
            if x != y and (x, y) not in ab.reldone:
                ab.reldone.add((x, y))
                for c in (-1, 0, 1):
                    if base.must(le(indexof(f0.regs[x[1]]), add(indexof(f0.regs[y[1]]), c))):
                        ab.rel.add((x, y, c))
                        grew = True
    for r in list(ab.rel):
        x, y, c = r
        if not b.must(le(indexof(fb.regs[x[1]]), add(indexof(fb.regs[y[1]]), c))):
            ab.rel.discard(r)
            grew = True
    for i, x in enumerate(regs):
        for y in regs[:i]:
            if (x, y) not in ab.sums:
                cs = candidates(I, base, f0, None, add(indexof(f0.regs[x[1]]), indexof(f0.regs[y[1]])))
                ab.sums[x, y] = [(k, t) for k, t in cs if k not in ('ge', 'gt')]
                grew |= bool(ab.sums[x, y])
    for (x, y), cs in ab.sums.items():
        v = add(indexof(fb.regs[x[1]]), indexof(fb.regs[y[1]]))
        keep = holding(b, [(k, t, cand(k, v, t)) for k, t in cs])
        if len(keep) != len(cs):
            ab.sums[x, y] = keep
            grew = True
    # integers against the lengths of slices (a loop that appends in every iteration)
    ints = [loc for loc in ab.ints if loc[0] == 'reg' and len(loc) == 2 and len(ab.shapes[loc]) == 1]
    for y in [loc for loc in ab.shapes if loc[0] == 'reg' and len(loc) == 2 and isinstance(f0.regs[loc[1]], SliceV)]:
        for x in ints:
            if (x, y) not in ab.lensdone:
                ab.lensdone.add((x, y))
                for c in (-1, 0, 1):
                    if base.must(le(indexof(f0.regs[x[1]]), add(f0.regs[y[1]].ln, c))):
                        ab.lens.add((x, y, c))
                        grew = True
                        break
    for r in list(ab.lens):
        x, y, c = r
        if r not in ab.assumed:
            continue
        if not isinstance(fb.regs[y[1]], SliceV) or not b.must(le(indexof(fb.regs[x[1]]), add(fb.regs[y[1]].ln, c))):
            ab.lens.discard(r)
            grew = True
    # the combination of shapes
    combo = {}
    for loc in ab.shapes:
        vb = B.get(loc[:2], MISSING)
        lb = dict(flatten(loc[:2], vb))
        if loc not in lb:
            raise Unsupported('loop: structure of %s' % (loc,))
        yk = shapekey(b, lb[loc], nid, loc)
        for i, (s, v) in enumerate(ab.shapes[loc]):
            if shapekey(s, v, nid, loc) == yk or loc in ab.merged:
                combo[loc] = i
                break
        else:
            ab.shapes[loc].append((b, lb[loc]))
            combo[loc] = len(ab.shapes[loc]) - 1
            grew = True
    c = {k: i for k, i in combo.items() if i}
    if c not in ab.combos:
        ab.combos.append(c)
        grew = True
    return grew


def adversarial_policy(I, st, fr, blk):
    return 0, None


def unrolling_policy(I, st, fr, blk):
    return None, 300
