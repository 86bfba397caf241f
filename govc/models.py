"""Contracts of the standard library used by the module (trusted).

Every function here is an assumed contract of a dependency: its Go
documentation turned into a relation between symbolic values.  Functions that
are not listed make the path 'unsupported', never silently accepted.
"""
import zlib
import hashlib
import z3
from terms import *
from rope import *
from engine import *

USED = {}          # contract name -> number of uses (for the evidence file)

PUSHED = object()


class NeedMore(Exception):
    pass


SENTINELS = ('io.EOF', 'io.ErrUnexpectedEOF', 'bufio.ErrBufferFull', 'net.ErrClosed', 'io.ErrShortBuffer',
             'io.ErrShortWrite', 'io.ErrClosedPipe', 'context.Canceled', 'os.ErrDeadlineExceeded', 'bufio.ErrNegativeCount',
             'strconv.ErrRange', 'strconv.ErrSyntax', 'io.ErrNoProgress', 'context.DeadlineExceeded')


class Models:
    PUSHED = PUSHED

    def __init__(self):
        self.born = born
        self.ext = {}        # extra contracts installed by the verifier
        self.seen, self.seendepth = set(), None

    def reset_seen(self, depth):
        """the states at a join point are explored anew in a loop that contains it"""
        if self.seendepth is None or depth <= self.seendepth:
            self.seen = set()

    # ------------------------------------------------------------ globals
    def external_global(self, st, name, t):
        if name in SENTINELS:
            return self.stderr_(st, name)
        if name in ('encoding/binary.BigEndian', 'encoding/binary.LittleEndian'):
            return StructV(name, ())
        if name == 'io.Discard':
            return IfaceV('$discard', None)
        if name in ('os.Stderr', 'os.Stdout'):
            return Ptr(st.new(Opaque(name)))
        if name == 'hash/crc32.IEEETable':
            return Ptr(st.new(Opaque(name)))
        raise Unsupported('global ' + name)

    def stderr_(self, st, name):
        """the error value of a standard sentinel"""
        k = ('stderr', name)
        if k not in st.ghost:
            st.ghost[k] = st.err('*errors.errorString', lit(name))
        return st.ghost[k]

    def maybe(self, st, x, d):
        """is the failure of a connection, of which nothing else is known, a net.Error?"""
        return x.t == '$ioerr' and all(m['name'] in ('Error', 'Timeout', 'Temporary') for m in d['methods']) \
            and st.choose(2, 'net.Error') == 1

    def has_method(self, t, n):
        if t.startswith('$srv') or t in ('$listener', '$handler'):
            return True
        if t in ('$conn',):
            return n in ('Read', 'Write', 'Close', 'SetDeadline', 'SetReadDeadline', 'SetWriteDeadline', 'LocalAddr', 'RemoteAddr')
        if t == '*net.OpError':
            return n in ('Error', 'Timeout', 'Temporary', 'Unwrap')
        if 'err' in t.lower():
            return n == 'Error'
        tab = {'*bufio.Reader': 'Read ReadByte ReadString ReadBytes ReadSlice Peek Discard UnreadByte Buffered WriteTo',
               '*bufio.Writer': 'Write WriteByte WriteString Flush Buffered Available ReadFrom',
               '*bytes.Buffer': 'Read Write WriteString WriteByte ReadByte ReadString ReadBytes String Bytes Len',
               '*strings.Builder': 'Write WriteString WriteByte String Len'}
        if t == '*bufio.ReadWriter':
            return n in (tab['*bufio.Reader'] + ' ' + tab['*bufio.Writer']).split()
        if t in tab:
            return n in tab[t].split()
        return False

    # ------------------------------------------------------------ dispatch
    def call(self, I, st, n, args, ins, dest, cont, fn):
        f = self.ext.get(n) or CONTRACTS.get(n)
        if f is None and n.startswith('$x '):
            n2 = n[3:]
            f = self.ext.get(n2) or CONTRACTS.get(n2)
            if f is not None:
                if not n2.startswith('($') and args and isinstance(args[0], IfaceV):
                    args = [args[0].v] + args[1:]
            elif args and isinstance(args[0], IfaceV):
                t, m = args[0].t, n2.rsplit('.', 1)[1]
                if t == '*bufio.ReadWriter':
                    half = 'Reader' if self.has_method('*bufio.Reader', m) else 'Writer'
                    i = 0 if half == 'Reader' else 1
                    p = args[0].v
                    inner = st.load(Ptr(p.oid, p.path + (i,)))
                    n2 = '(*bufio.%s).%s' % (half, m)
                    f = CONTRACTS.get(n2)
                    args = [inner] + args[1:]
                elif m == 'Error' and self.has_method(t, 'Error'):
                    f = c_errstring
            n = n2
        if f is None and n.endswith('$bound') and fn.b:
            base = n[:-6]
            f = self.ext.get(base) or CONTRACTS.get(base)
            args = list(fn.b) + args
        if f is None and '[' in n:
            base = n[:n.index('[')]
            f = CONTRACTS.get(base)
        if f is None and (n.endswith('.init') or n.endswith('.init$guard')):
            return None
        if f is None:
            raise Unsupported('no contract for ' + n)
        USED[n] = USED.get(n, 0) + 1
        st.ghost['$call'] = (dest, cont, ins)
        return f(I, st, args, ins)

    # ------------------------------------------------------------ builtins
    def builtin(self, I, st, n, a, ins):
        if n == 'len':
            return self.length(st, a[0])
        if n == 'cap':
            return a[0].cap if isinstance(a[0], SliceV) else self.length(st, a[0])
        if n == 'append':
            return self.append(I, st, a[0], a[1], ins)
        if n == 'copy':
            d, s = a
            if isinstance(s, SliceV):
                if st.decide(lt(d.ln, s.ln), 'copy: short destination'):
                    s = SliceV(s.base, s.off, d.ln, s.cap)
                if s.base is None:
                    return 0
                v = st.sbase(s)
                if isinstance(v, BArr):
                    st.sput(d, 0, st.srope(s))
                else:
                    st_list_put(st, d, 0, st.slist(s))
                return s.ln
            n_ = rlen(s)
            if st.decide(lt(d.ln, n_), 'copy: short destination'):
                s, _ = st.split(s, d.ln)
                n_ = d.ln
            if d.base is not None:
                st.sput(d, 0, s)
            return n_
        if n == 'close':
            c = a[0]
            if c is None:
                raise GoPanic('close of nil channel')
            if st.ghost.get(('chan', c.oid)):
                raise GoPanic('close of closed channel')
            st.ghost[('chan', c.oid)] = True
            st.trace += (('close', c.oid),)
            return None
        if n == 'recover':
            v = st.panic
            st.panic = None
            return None if v is None else IfaceV('string', lit(str(v)))
        if n == 'ssa:wrapnilchk':
            if a[0] is None:
                raise GoPanic('nil pointer dereference')
            return a[0]
        if n in ('min', 'max'):
            r = a[0]
            for x in a[1:]:
                r = ite(lt(x, r) if n == 'min' else lt(r, x), x, r)
            return simp(r) if not isc(r) else r
        if n in ('print', 'println'):
            return None
        if n == 'delete':
            m, k = a
            if m is None:
                return None
            mv = st.load(m)
            for i, (kk, v) in enumerate(mv.e):
                if st.decide(veq(st, kk, k), 'map key'):
                    st.store(m, MapV(mv.e[:i] + mv.e[i + 1:]))
                    break
            return None
        if n == 'clear':
            if isinstance(a[0], Ptr):
                st.store(a[0], MapV())
                return None
        raise Unsupported('builtin ' + n)

    def length(self, st, x):
        if isinstance(x, Rope):
            x = st.norm(x)
            for y in x.a:
                if isinstance(y, Dec):
                    st.decfacts(y.t)
            return rlen(x)
        if isinstance(x, SliceV):
            return x.ln
        if x is None:
            return 0
        if isinstance(x, Ptr):
            v = st.load(x)
            if isinstance(v, MapV):
                if v.sym is not None:
                    return v.sym('len')
                return len(v.e)
            if isinstance(v, BArr):
                return rlen(v.r)
            if isinstance(v, LArr):
                return llen(v)
            if isinstance(v, Opaque):
                return st.fint('chanlen', 0)
        if isinstance(x, BArr):
            return rlen(x.r)
        if isinstance(x, LArr):
            return llen(x)
        raise Unsupported('len of %r' % (x,))

    def append(self, I, st, s, t, ins):
        isb = I.p.isbyte(I.p.under(ins['type'])['elem'])
        if isinstance(t, Rope):
            tr = st.norm(t)
            n = rlen(tr)
        else:
            n = t.ln
            tr = None
        if isc(n) and n == 0:
            return s
        if isb:
            if tr is None:
                tr = st.srope(t)
        else:
            tl = st.slist(t)
        tot = add(s.ln, n)
        if s.base is not None and fits(I, st, s, tot, ins):
            r = SliceV(s.base, s.off, tot, s.cap)
            if isb:
                st.sput(r, s.ln, tr)
            else:
                st_list_put(st, r, s.ln, tl)
            return r
        # a new array; its spare capacity is modelled as zero
        if isb:
            return born(st, st.mkbytes(cat(st.srope(s), tr)))
        old = st.slist(s)
        et = I.p.under(ins['type'])['elem']
        return st.mklarr(lmk(old.a + tl.a, et))

    # ------------------------------------------------------------ channels
    def recv(self, st, c, ins):
        if c is None:
            raise Stop('blocked', 'receive from nil channel')
        st.trace += (('recv', c.oid if isinstance(c, Ptr) else c),)
        if isinstance(c, Ptr) and st.ghost.get(('chan', c.oid)) is False:
            raise Stop('blocked', 'receive')
        return st.p.zero(st.p.under(ins['x']['t'])['elem'])

    def select(self, I, st, fr, ins):
        f = self.ext.get('$select')
        if f is None:
            raise Unsupported('select')
        return f(I, st, fr, ins)

    def go(self, I, st, fn, args, ins):
        pol = I.go_policy
        if pol == 'run':
            I.docall(st, fn, args, None, ins, None, True)
            return
        st.trace += (('go', fn.n, tuple(args), tuple(fn.b)),)


def live_in(fn, blk, ip):
    """registers whose value may still be read from instruction ip of block blk on"""
    uses = fn.get('$uses')
    if uses is None:
        def refs(x, acc):
            if isinstance(x, dict):
                if x.get('k') == 'reg':
                    acc.add(x['n'])
                else:
                    for v in x.values():
                        refs(v, acc)
                    if 'k' in x and x['k'] not in ('const', 'global', 'func', 'builtin', 'nil'):
                        acc.add('$' + str(x['k']))
            elif isinstance(x, list):
                for v in x:
                    refs(v, acc)
        nb = len(fn['blocks'])
        uses, atend = [], [set() for _ in range(nb)]
        for b in fn['blocks']:
            us = []
            for ins in b['instrs']:
                acc = set()
                if ins['op'] == 'Phi':
                    for p, e in zip(b['preds'], ins['edges']):
                        refs(e, atend[p])
                else:
                    refs({k: v for k, v in ins.items() if k != 'reg'}, acc)
                us.append((acc, ins.get('reg')))
            uses.append(us)
        succ = [[] for _ in range(nb)]
        for i, b in enumerate(fn['blocks']):
            for p in b['preds']:
                succ[p].append(i)
        # the recover block is entered from anywhere: what it reads is always live
        start = [set() for _ in range(nb)]
        change = True
        while change:
            change = False
            for i in reversed(range(nb)):
                live = set(atend[i])
                for j in succ[i]:
                    live |= start[j]
                for u, d in reversed(uses[i]):
                    live.discard(d)
                    live |= u
                if live != start[i]:
                    start[i] = live
                    change = True
        entry = set()
        for i, b in enumerate(fn['blocks']):
            if not b['preds']:
                entry |= start[i]
        fn['$uses'] = uses = (uses, atend, succ, start, entry)
    us, atend, succ, start, entry = uses
    live = set(atend[blk]) | entry
    for j in succ[blk]:
        live |= start[j]
    for u, d in reversed(us[blk][ip:]):
        live.discard(d)
        live |= u
    return live


def sole(I, st, oid):
    """nothing but dead registers refers to the object: it cannot be told whether an append
    to it happened in place"""
    seen = set()

    def has(v):
        if isinstance(v, Ptr):
            return v.oid == oid
        if isinstance(v, SliceV):
            return v.base is not None and has(v.base)
        if isinstance(v, StructV):
            return any(has(x) for x in v.f)
        if isinstance(v, (IfaceV, EL)):
            return has(v.v)
        if isinstance(v, FuncV):
            return any(has(x) for x in v.b)
        if isinstance(v, LArr):
            if I.p.isbyte(v.t) or I.p.under(v.t)['kind'] == 'basic':
                return False
            return any(has(x) if isinstance(x, EL) else True for x in v.a)
        if isinstance(v, dict):
            return any(has(k) or has(x) for k, x in v.items())
        if isinstance(v, (tuple, list, set, frozenset)):
            return any(has(x) for x in v)
        if isinstance(v, MapV):
            return has(v.e) if isinstance(v.e, (dict, tuple, list)) else True
        if isinstance(v, Opaque):
            return v.info is not None and has(v.info)
        if v is None or isinstance(v, (bool, int, str, bytes, float, Rope, BArr, Atom, z3.AstRef)):
            return False
        return True
    for k, v in st.heap.items():
        if k != oid and has(v):
            return False
    for k, v in st.ghost.items():
        if k == '$call' or isinstance(k, tuple) and k[0] in GHOSTPLAIN:
            continue
        if isinstance(k, tuple) and len(k) > 1 and k[1] == oid or has(v):
            return False
    for fr in st.frames:
        if fr.cont is not None or has(fr.defers):
            return False
        live = live_in(fr.fn, fr.blk, fr.ip)
        for r in live:
            if r in fr.regs and has(fr.regs[r]):
                return False
    return True


GHOSTPLAIN = ('global',)
NOMETA = {}


def fits(I, st, s, tot, ins):
    """does the result of an append stay in the array? When nothing else can see the array
    the answer makes no difference"""
    c = le(tot, s.cap)
    if not isc(c) and s.base.path == () and st.meta.get(s.base.oid, NOMETA).get('born') and sole(I, st, s.base.oid):
        return False
    return st.decide(c, 'append: fits the capacity')


def born(st, s):
    """s is a slice the code under verification has made"""
    if isinstance(s, SliceV) and s.base is not None:
        st.meta[s.base.oid] = dict(st.meta.get(s.base.oid, NOMETA), born=True)
    return s


def st_list_put(st, s, off, arr):
    n = llen(arr)
    if isc(n) and n == 0:
        return
    v = st.sbase(s)
    o = add(s.off, off)
    a, b = st.lsplit(v, o)
    _, c = st.lsplit(b, n)
    st.store(s.base, lmk(a.a + arr.a + c.a, v.t))


CONTRACTS = {}


def model(*names):
    def d(f):
        for n in names:
            CONTRACTS[n] = f
        return f
    return d


def ropeof(st, v):
    """bytes of a string or []byte"""
    if isinstance(v, Rope):
        return st.norm(v)
    if isinstance(v, SliceV):
        return st.srope(v)
    raise Unsupported('bytes of %r' % (v,))


def like(st, proto, rope):
    return rope if isinstance(proto, Rope) else st.mkbytes(rope)


# ---------------------------------------------------------------- errors
@model('errors.New')
def _(I, st, a, ins):
    return st.err('*errors.errorString', a[0])


@model('fmt.Errorf')
def _(I, st, a, ins):
    msg, wrapped = fmt_(I, st, a[0], a[1], True)
    oid = st.new(StructV('$werr', (msg,) + tuple(wrapped)))
    return IfaceV('*fmt.wrapError' if wrapped else '*fmt.fmtError', Ptr(oid))


def c_errstring(I, st, a, ins):
    v = a[0].v if isinstance(a[0], IfaceV) else a[0]
    if isinstance(v, Ptr):
        s = st.heap[v.oid]
        if isinstance(s, StructV) and s.f and isinstance(s.f[0], Rope):
            return s.f[0]
    return sym(st.fvar('errmsg', hi=4000))


def unwrap_chain(st, e):
    while isinstance(e, IfaceV):
        yield e
        if e.t == '*fmt.wrapError':
            e = st.heap[e.v.oid].f[1]
        else:
            return


@model('errors.Is')
def _(I, st, a, ins):
    if a[0] is None or a[1] is None:
        return a[0] is None and a[1] is None
    for e in unwrap_chain(st, a[0]):
        if st.decide(veq(st, e, a[1])):
            return True
        if e.t in ('$ioerr', '*net.OpError') and not program(st, a[1]):
            return st.choose(2, 'the kind of the failure') == 1
    return False


def program(st, e):
    """no failure of a connection is this error"""
    return not any(st.ghost.get(('stderr', n)) is e for n in ('os.ErrDeadlineExceeded', 'net.ErrClosed', 'context.DeadlineExceeded'))


@model('($ioerr).Timeout', '($ioerr).Temporary', '(*net.OpError).Timeout', '(*net.OpError).Temporary', 'os.IsTimeout')
def _(I, st, a, ins):
    return st.choose(2, 'timeout') == 1


@model('errors.Unwrap')
def _(I, st, a, ins):
    if isinstance(a[0], IfaceV) and a[0].t == '*fmt.wrapError':
        return st.heap[a[0].v.oid].f[1]
    return None


@model('errors.As')
def _(I, st, a, ins):
    tgt = a[1]
    et = I.p.under(tgt.t)['elem']
    d = I.p.under(et)
    for e in unwrap_chain(st, a[0]):
        if d['kind'] == 'interface':
            if I.implements(e.t, d) or I.models.maybe(st, e, d):
                st.store(tgt.v, e)
                return True
        elif e.t == et:
            st.store(tgt.v, e.v)
            return True
    return False


# ---------------------------------------------------------------- fmt
def fmt_(I, st, f, args, errs=False):
    f = st.norm(f).concrete()
    if f is None:
        raise Unsupported('symbolic format string')
    vals = []
    if args.base is not None:
        for x in st.slist(args).a:
            if not isinstance(x, EL):
                raise Unsupported('format arguments')
            vals.append(x.v)
    out = []
    wrapped = []
    i = 0
    k = 0
    while i < len(f):
        c = f[i:i + 1]
        if c != b'%':
            j = f.find(b'%', i)
            if j < 0:
                j = len(f)
            out.append(f[i:j])
            i = j
            continue
        i += 1
        if f[i:i + 1] == b'%':
            out.append(b'%')
            i += 1
            continue
        flags = b''
        while f[i:i + 1] in b'+-# 0123456789.' and i < len(f):
            flags += f[i:i + 1]
            i += 1
        verb = f[i:i + 1].decode()
        i += 1
        if k >= len(vals):
            out.append(b'%!' + verb.encode() + b'(MISSING)')
            continue
        v = vals[k]
        k += 1
        if verb == 'w':
            wrapped.append(v)
        out.append(fmtval(I, st, verb, flags.decode(), v))
    if k < len(vals):
        out.append(sym(st.fvar('extra', lo=1, hi=4000)))
    return cat(*out), wrapped


def fmtval(I, st, verb, flags, v):
    if v is None:
        return lit('<nil>' if verb == 'v' else '%!' + verb + '(<nil>)')
    t, x = v.t, v.v
    d = I.p.types.get(t, {}) if t in I.p.types else {}
    if t not in I.p.types and verb in 'sv':
        return c_errstring(I, st, [v], None)
    if flags == '':
        if verb in 'sv' and isinstance(x, Rope):
            return st.norm(x)
        if verb == 's' and isinstance(x, SliceV) and I.p.isbyte(I.p.under(t)['elem']):
            return st.srope(x)
        u = I.p.uname(t)
        if verb in 'dv' and u in INTS:
            return decrope(st, x)
        if verb in 'tv' and u == 'bool':
            return lit('true' if st.decide(x) else 'false')
        if verb == 'c' and u in INTS:
            if st.decide(and_(le(0, x), lt(x, 128))):
                return be(x, 1)
        if verb == 'x' and isc(x):
            return lit('%x' % x)
    elif verb == 'd' and isc(x):
        try:
            return lit(('%' + flags + 'd') % x)
        except Exception:
            pass
    return sym(st.fvar('fmt', hi=4000))


def decrope(st, t):
    if not isc(t):
        st.decfacts(t)
        for k in range(10):
            pass
    return mk((Dec(t),))


@model('fmt.Sprintf')
def _(I, st, a, ins):
    return fmt_(I, st, a[0], a[1])[0]


def print_(I, st, args, ln):
    vals = [x.v for x in st.slist(args).a] if args.base is not None else []
    out = []
    prev_str = True
    for k, v in enumerate(vals):
        iss = v is not None and isinstance(v.v, Rope)
        if k and (ln or (not iss and not prev_str)):
            out.append(b' ')
        out.append(fmtval(I, st, 'v', '', v))
        prev_str = iss
    if ln:
        out.append(b'\n')
    return cat(*out)


@model('fmt.Sprint')
def _(I, st, a, ins):
    return print_(I, st, a[0], False)


@model('fmt.Sprintln')
def _(I, st, a, ins):
    return print_(I, st, a[0], True)


@model('fmt.Fprintf')
def _(I, st, a, ins):
    r = fmt_(I, st, a[1], a[2])[0]
    return wwrite(I, st, a[0], r)


@model('fmt.Fprint')
def _(I, st, a, ins):
    return wwrite(I, st, a[0], print_(I, st, a[1], False))


@model('fmt.Fprintln')
def _(I, st, a, ins):
    return wwrite(I, st, a[0], print_(I, st, a[1], True))


@model('fmt.Appendf')
def _(I, st, a, ins):
    r = fmt_(I, st, a[1], a[2])[0]
    return append_bytes(st, a[0], r)


@model('fmt.Append')
def _(I, st, a, ins):
    return append_bytes(st, a[0], print_(I, st, a[1], False))


def append_bytes(st, s, r):
    n = rlen(r)
    tot = add(s.ln, n)
    if s.base is not None and fits(st.I, st, s, tot, None):
        o = SliceV(s.base, s.off, tot, s.cap)
        st.sput(o, s.ln, r)
        return o
    return born(st, st.mkbytes(cat(st.srope(s), r)))


@model('fmt.Println', 'fmt.Printf', 'fmt.Print')
def _(I, st, a, ins):
    return (0, None)


@model('log.Print', 'log.Printf', 'log.Println')
def _(I, st, a, ins):
    return None


@model('log.Fatal', 'log.Fatalf', 'os.Exit')
def _(I, st, a, ins):
    raise Stop('exit')


@model('fmt.Fscanf')
def _(I, st, a, ins):
    return fscanf(I, st, a)


@model('fmt.Sscanf')
def _(I, st, a, ins):
    return fscanf(I, st, a)


def fscanf(I, st, a):
    """Scanning of text: the effect on arbitrary input bytes (unicode white
    space, invalid UTF-8) is not modelled."""
    src = a[0]
    if isinstance(src, IfaceV):
        r = st.ghost.get(('breader', src.v.oid))
        if r is None:
            raise Unsupported('Fscanf source')
    else:
        r = st.norm(src)
    f = st.norm(a[1]).concrete()
    tg = [x.v for x in st.slist(a[2]).a]
    k = 0
    i = 0

    def bad():
        return (k, st.err('$scanerr'))
    while i < len(f):
        c = f[i:i + 1]
        if c == b'%':
            verb = f[i + 1:i + 2]
            i += 2
            # token up to white space
            tok, rest = None, None
            best = None
            q = r
            fnd = None
            for d in (32,):
                fnd = st.find(q, d)
            if fnd is None:
                tok, rest = q, EMPTY
            else:
                tok, rest = fnd
            fn = st.find(tok, 13)
            if fn is not None:
                tok, rest = fn[0], cat(fn[1], rest)
            fn = st.find(tok, 10)
            if fn is not None:
                tok, rest = fn[0], cat(fn[1], rest)
            if st.decide(eq(rlen(tok), 0), 'empty token'):
                return bad()
            t = tg[k]
            et = I.p.under(t.t)['elem']
            if verb == b's':
                for x in tok.a:
                    if isinstance(x, Seg) and (x.v.cls >> 128):
                        # bytes >= 0x80: unicode spaces split, invalid UTF-8 is rewritten
                        if st.choose(2, 'non-ASCII key') == 1:
                            z = st.fvar('scanned', ALL, 0)
                            st.store(t.v, sym(z))
                            return (k, st.err('$scanerr'))
                st.store(t.v, tok)
            elif verb in (b'd', b'v'):
                v = parse_num(I, st, tok, 10, *INTS[I.p.uname(et)])
                if v is None:
                    return bad()
                st.store(t.v, v)
            else:
                raise Unsupported('scan verb')
            k += 1
            r = rest
        else:
            j = f.find(b'%', i)
            if j < 0:
                j = len(f)
            if not st.starts(r, lit(f[i:j])):
                return bad()
            _, r = st.split(r, j - i)
            i = j
    return (k, None)


# ---------------------------------------------------------------- strconv
def parse_num(I, st, r, base, bits, signed, errk=None):
    """value or None (error)"""
    r = st.norm(r)
    lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
    c = r.concrete()
    if c is not None:
        s = c
        neg = False
        if signed and s[:1] in (b'+', b'-'):
            neg = s[:1] == b'-'
            s = s[1:]
        if not s or any(b not in b'0123456789' for b in s):
            return None
        v = int(s)
        v = -v if neg else v
        return v if lo <= v <= hi else None
    if len(r.a) == 1 and isinstance(r.a[0], Dec):
        t = r.a[0].t
        if st.decide(and_(le(lo, t), le(t, hi)), 'number in range'):
            return t
        return None
    for x in r.a:
        bad = False
        if isinstance(x, Lit):
            bad = any(b not in b'0123456789+-' for b in x.b)
        elif not (x.cls() & (DIG | cls_of(b'+-'))):
            bad = st.must(lt(0, x.len))
        if bad:
            return None
    k = ('num', r.key())
    if (k + (lo, hi)) in st.facts:
        return None
    if k in st.facts:
        t = st.facts[k]
        if t is None:
            return None
        if st.decide(and_(le(lo, t), le(t, hi)), 'number in range'):
            return t
        return None
    if len(r.a) == 1 and isinstance(r.a[0], Seg):
        x = r.a[0]
        if not (x.v.cls & DIG) or st.choose(2, 'numeric text') == 1:
            st.facts[k + (lo, hi)] = None
            return None
        st.assume(lt(0, x.len))
        if not st.sat():
            raise Dead()
        t = st.fint('num', lo, hi)
        if not (x.v.cls >> 45) & 1:
            st.assume(ge(t, 0))
        st.facts[k] = t
        return t
    if st.decide(eq(rlen(r), 0), 'empty number'):
        return None
    if len(r.a) == 2 and isinstance(r.a[0], Lit) and r.a[0].b == b'-' and isinstance(r.a[1], Dec):
        t = r.a[1].t
        if st.decide(ge(t, 0)):
            v = sub(0, t)
            if signed and st.decide(and_(le(lo, v), le(v, hi))):
                return v
        return None
    st.approx += ('number parsed from %r' % (r,),)
    if st.choose(2, 'numeric text') == 1:
        st.facts[k] = None
        return None
    t = st.fint('num')
    st.facts[k] = t
    if st.decide(and_(le(lo, t), le(t, hi)), 'number in range'):
        return t
    return None


def numres(st, v, bits=64, signed=True):
    if v is None:
        # 0 for a syntax error, the nearest bound when out of range
        lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
        t = st.fint('badnum')
        st.pc.append(or_(eq(t, 0), eq(t, lo), eq(t, hi)))
        return (t, st.err('*strconv.NumError'))
    return (v, None)


def parsebase(a, bits):
    if not (isc(a[1]) and a[1] in (10,)) or not isc(a[2]):
        raise Unsupported('number base')
    return 64 if a[2] == 0 else a[2]


@model('strconv.Atoi')
def _(I, st, a, ins):
    return numres(st, parse_num(I, st, a[0], 10, 64, True))


@model('strconv.ParseInt')
def _(I, st, a, ins):
    if isc(a[2]) and not 0 <= a[2] <= 64:
        return (0, st.err('*strconv.NumError'))
    return numres(st, parse_num(I, st, a[0], 10, parsebase(a, 0), True), parsebase(a, 0), True)


@model('strconv.ParseUint')
def _(I, st, a, ins):
    if isc(a[2]) and not 0 <= a[2] <= 64:
        return (0, st.err('*strconv.NumError'))
    return numres(st, parse_num(I, st, a[0], 10, parsebase(a, 0), False), parsebase(a, 0), False)


@model('strconv.Itoa')
def _(I, st, a, ins):
    return decrope(st, a[0])


@model('strconv.FormatInt', 'strconv.FormatUint')
def _(I, st, a, ins):
    if a[1] != 10:
        raise Unsupported('number base')
    return decrope(st, a[0])


@model('strconv.AppendInt', 'strconv.AppendUint')
def _(I, st, a, ins):
    if a[2] != 10:
        raise Unsupported('number base')
    return append_bytes(st, a[0], decrope(st, a[1]))


@model('strconv.Quote')
def _(I, st, a, ins):
    return sym(st.fvar('quoted', hi=4000))


# ---------------------------------------------------------------- strings, bytes
def both(name):
    return ['strings.' + name, 'bytes.' + name]


@model('bytes.Equal')
def _(I, st, a, ins):
    return st.req(ropeof(st, a[0]), ropeof(st, a[1]))


@model(*both('HasPrefix'))
def _(I, st, a, ins):
    return st.starts(ropeof(st, a[0]), ropeof(st, a[1]))


@model(*both('HasSuffix'))
def _(I, st, a, ins):
    return st.ends(ropeof(st, a[0]), ropeof(st, a[1]))


def subslice(st, proto, lo, hi, rope):
    """sub-slice (aliasing) of a []byte, or substring"""
    if isinstance(proto, SliceV):
        if proto.base is None:
            return proto
        return SliceV(proto.base, add(proto.off, lo), sub(hi, lo), sub(proto.cap, lo))
    return rope


@model(*both('TrimPrefix'))
def _(I, st, a, ins):
    r, p = ropeof(st, a[0]), ropeof(st, a[1])
    if st.starts(r, p):
        r = st.norm(r)
        n = rlen(st.norm(p))
        return subslice(st, a[0], n, rlen(r), st.split(r, n)[1])
    return a[0]


@model(*both('TrimSuffix'))
def _(I, st, a, ins):
    r, p = ropeof(st, a[0]), ropeof(st, a[1])
    if st.ends(r, p):
        r = st.norm(r)
        n = sub(rlen(r), rlen(st.norm(p)))
        return subslice(st, a[0], 0, n, st.split(r, n)[0])
    return a[0]


@model(*both('CutPrefix'))
def _(I, st, a, ins):
    r, p = ropeof(st, a[0]), ropeof(st, a[1])
    if st.starts(r, p):
        r = st.norm(r)
        n = rlen(st.norm(p))
        return (subslice(st, a[0], n, rlen(r), st.split(r, n)[1]), True)
    return (a[0], False)


@model(*both('CutSuffix'))
def _(I, st, a, ins):
    r, p = ropeof(st, a[0]), ropeof(st, a[1])
    if st.ends(r, p):
        r = st.norm(r)
        n = sub(rlen(r), rlen(st.norm(p)))
        return (subslice(st, a[0], 0, n, st.split(r, n)[0]), True)
    return (a[0], False)


def trimright(st, r, cls):
    """strip trailing bytes in cls"""
    while True:
        r = st.norm(r)
        if not r.a:
            return r
        x = r.a[-1]
        if isinstance(x, Lit):
            b = x.b
            while b and (cls >> b[-1]) & 1:
                b = b[:-1]
            if b:
                return mk(r.a[:-1] + (Lit(b),))
            r = mk(r.a[:-1])
            continue
        if not (x.cls() & cls):
            if st.must(lt(0, x.len)):
                return r
            if st.decide(eq(x.len, 0)):
                r = mk(r.a[:-1])
                continue
            return r
        if isinstance(x, Seg):
            if st.decide(eq(x.len, 0)):
                r = mk(r.a[:-1])
                continue
            # X = Y c Z with c outside cls and Z inside cls, or entirely inside
            if st.choose(2, 'trim: all trimmed') == 1:
                z = st.fvar('trim', x.v.cls & cls)
                st.bindseg(x, sym(z))
                if not st.sat():
                    raise Dead()
                r = mk(r.a[:-1])
                continue
            y, c, z = st.fvar(x.v.name, x.v.cls), st.fvar('last', x.v.cls & ~cls, 1, 1), st.fvar('trim', x.v.cls & cls)
            if not (x.v.cls & ~cls):
                raise Dead()
            st.bindseg(x, cat(sym(y), sym(c), sym(z)))
            return cat(mk(r.a[:-1]), sym(y), sym(c))
        raise Unsupported('trim of %r' % (x,))


def trimleft(st, r, cls):
    while True:
        r = st.norm(r)
        if not r.a:
            return r
        x = r.a[0]
        if isinstance(x, Lit):
            b = x.b
            while b and (cls >> b[0]) & 1:
                b = b[1:]
            if b:
                return mk((Lit(b),) + r.a[1:])
            r = mk(r.a[1:])
            continue
        if not (x.cls() & cls):
            if st.must(lt(0, x.len)):
                return r
            if st.decide(eq(x.len, 0)):
                r = mk(r.a[1:])
                continue
            return r
        if isinstance(x, Seg):
            if st.decide(eq(x.len, 0)):
                r = mk(r.a[1:])
                continue
            if st.choose(2, 'trim: all trimmed') == 1:
                z = st.fvar('trim', x.v.cls & cls)
                st.bindseg(x, sym(z))
                if not st.sat():
                    raise Dead()
                r = mk(r.a[1:])
                continue
            if not (x.v.cls & ~cls):
                raise Dead()
            z, c, y = st.fvar('trim', x.v.cls & cls), st.fvar('first', x.v.cls & ~cls, 1, 1), st.fvar(x.v.name, x.v.cls)
            st.bindseg(x, cat(sym(z), sym(c), sym(y)))
            return cat(sym(c), sym(y), mk(r.a[1:]))
        raise Unsupported('trim of %r' % (x,))


def cutset(st, v):
    c = ropeof(st, v).concrete()
    if c is None or any(b >= 128 for b in c):
        raise Unsupported('cutset')
    return cls_of(c)


def trimmed(st, proto, full, r, left):
    full = st.norm(full)
    if isinstance(proto, Rope):
        return r
    n = rlen(r)
    lo = sub(rlen(full), n) if left else 0
    return subslice(st, proto, lo, add(lo, n), r)


@model(*both('TrimRight'))
def _(I, st, a, ins):
    r = ropeof(st, a[0])
    return trimmed(st, a[0], r, trimright(st, r, cutset(st, a[1])), False)


@model(*both('TrimLeft'))
def _(I, st, a, ins):
    r = ropeof(st, a[0])
    return trimmed(st, a[0], r, trimleft(st, r, cutset(st, a[1])), True)


SPACE = cls_of(b' \t\n\r\v\f')


@model(*both('TrimSpace'))
def _(I, st, a, ins):
    r = ropeof(st, a[0])
    for x in r.a:
        if isinstance(x, Seg) and (x.v.cls >> 128):
            st.approx += ('TrimSpace on non-ASCII text',)
    l = trimleft(st, r, SPACE)
    m = trimright(st, l, SPACE)
    if isinstance(a[0], Rope):
        return m
    lo = sub(rlen(st.norm(r)), rlen(st.norm(l)))
    return subslice(st, a[0], lo, add(lo, rlen(m)), m)


@model(*both('Trim'))
def _(I, st, a, ins):
    r = ropeof(st, a[0])
    c = cutset(st, a[1])
    l = trimleft(st, r, c)
    m = trimright(st, l, c)
    if isinstance(a[0], Rope):
        return m
    lo = sub(rlen(st.norm(r)), rlen(st.norm(l)))
    return subslice(st, a[0], lo, add(lo, rlen(m)), m)


def findsub(st, r, sep):
    """(before, from sep on) or None"""
    if len(sep) == 1:
        return st.find(r, sep[0])
    if len(sep) == 0:
        return EMPTY, r
    before = EMPTY
    while True:
        f = st.find(r, sep[0])
        if f is None:
            return None
        pre, post = f
        before = cat(before, pre)
        if st.starts(post, lit(sep)):
            return before, st.norm(post)
        post = st.norm(post)
        h, r = st.split(post, 1)
        before = cat(before, h)





def split_(st, r, sep, n=-1):
    """pieces; the list may end in a symbolic tail"""
    pieces = []
    r = st.norm(r)
    while n < 0 or len(pieces) < n - 1:
        opaque = any(isinstance(x, Seg) and (x.v.cls >> sep[0]) & 1 for x in r.a)
        if opaque and len(pieces) >= st.I.maxsplit:
            # arbitrarily many further pieces
            m = st.fint('morepieces', 1, 1 << 40)
            nm = st.fresh('piece')
            cls = 0
            for x in r.a:
                cls |= x.cls()
            cls &= ~(1 << sep[0])
            lf = z3.Function('len_' + nm, z3.IntSort(), z3.IntSort())

            def at(i, nm=nm, cls=cls, lf=lf):
                return sym(Var(nm, cls, lf(T(i)), (i,)))
            st.ghost[('idxlen', nm)] = lf
            g = Gen(nm, at, key=nm, info={'pieces': True})
            return pieces, (g, m)
        f = findsub(st, r, sep)
        if f is None:
            break
        pre, post = f
        pieces.append(pre)
        post = st.norm(post)
        _, r = st.split(post, len(sep))
    pieces.append(st.norm(r))
    return pieces, None


def mkpieces(I, st, proto, pieces, tail, t):
    vals = []
    if isinstance(proto, Rope):
        vals = [st.norm(p) for p in pieces]
    else:
        # pieces alias the argument
        off = 0
        full = st.norm(ropeof(st, proto))
        for p in pieces:
            p = st.norm(p)
            n = rlen(p)
            vals.append((p, n))
        sl = []
        for p, n in vals:
            sl.append(SliceV(proto.base, add(proto.off, off), n, n))
            off = add(add(off, n), 1)
        vals = sl
    atoms = [EL(v) for v in vals]
    if tail is not None:
        g, m = tail
        if not isinstance(proto, Rope):
            m2 = dict(st.meta.get(proto.base.oid, {}))

            def mat(s, i, g=g, m2=m2):
                # a piece of the argument; its place is left open
                k = ('piece', g.name, tkey(i))
                v = s.ghost.get(k)
                if v is None:
                    r = g.at(i)
                    s.assume(le(0, rlen(r)))
                    v = s.mkbytes(r, **dict(m2, pieceof=True))
                    s.ghost[k] = v
                return v
            g = Gen(g.name + 'b', None, info={'mat': mat})
        atoms.append(LSeg(g, 0, m))
    return st.mklarr(lmk(atoms, t))


def sepof(st, v):
    c = ropeof(st, v).concrete()
    if not c:
        raise Unsupported('separator')
    return c


@model('strings.Split')
def _(I, st, a, ins):
    p, t = split_(st, a[0], sepof(st, a[1]))
    return mkpieces(I, st, a[0], p, t, 'string')


@model('strings.SplitN')
def _(I, st, a, ins):
    p, t = split_(st, a[0], sepof(st, a[1]), a[2])
    return mkpieces(I, st, a[0], p, t, 'string')


@model('bytes.Split')
def _(I, st, a, ins):
    sep = sepof(st, a[1])
    if len(sep) != 1:
        raise Unsupported('separator')
    p, t = split_(st, ropeof(st, a[0]), sep)
    return mkpieces(I, st, a[0], p, t, '[]byte')


@model('bytes.SplitN')
def _(I, st, a, ins):
    sep = sepof(st, a[1])
    if len(sep) != 1:
        raise Unsupported('separator')
    p, t = split_(st, ropeof(st, a[0]), sep, a[2])
    return mkpieces(I, st, a[0], p, t, '[]byte')


def fields_(st, r):
    """ASCII white space separated fields"""
    out = []
    r = st.norm(r)
    for x in r.a:
        if isinstance(x, Seg) and (x.v.cls & ~KEYCLS & ((1 << 128) - 1)) and x.v.cls != KEYCLS:
            if x.v.cls & SPACE:
                raise Unsupported('Fields of arbitrary text')
        if isinstance(x, Seg) and x.v.cls >> 128:
            # unicode white space (e.g. U+0085, U+00A0, U+3000) also separates
            if st.choose(2, 'unicode white space') == 1:
                raise Unsupported('Fields: unicode white space')
    cur = []
    for x in r.a:
        if isinstance(x, Lit):
            b = b''
            for ch in x.b:
                if ch in b' \t\n\r\v\f':
                    if b:
                        cur.append(Lit(b))
                        b = b''
                    if cur:
                        out.append(mk(cur))
                        cur = []
                else:
                    b += bytes([ch])
            if b:
                cur.append(Lit(b))
        else:
            if st.decide(eq(x.len, 0)):
                continue
            cur.append(x)
    if cur:
        out.append(mk(cur))
    return out


@model('strings.Fields')
def _(I, st, a, ins):
    return st.mklist(fields_(st, a[0]), 'string')


@model('bytes.Fields')
def _(I, st, a, ins):
    return st.mklist([st.mkbytes(x) for x in fields_(st, ropeof(st, a[0]))], '[]byte')


@model('strings.Join')
def _(I, st, a, ins):
    sep = st.norm(a[1])
    l = st.slist(a[0])
    out = []
    first = True
    for x in l.a:
        if isinstance(x, EL):
            if not first:
                out.append(sep)
            out.append(st.norm(x.v))
            first = False
        elif isinstance(x, LSeg) and x.g.fn is None:
            # elements of which a loop keeps nothing but the type
            if not I.coarse:
                raise Unsupported('Join')
            out.append(sym(st.fvar('joined', ALL, 0, 1 << 44)))
            first = False
        elif isinstance(x, LSeg):
            if first:
                if st.decide(eq(x.lo, x.hi), 'no elements'):
                    continue
                out.append(x.g.at(x.lo))
                n = rlen(out[-1])
                if not isc(n):
                    st.pc += [n >= 0, n <= 1 << 44]
                x = LSeg(x.g, add(x.lo, 1), x.hi)
                first = False
            f = Fold(joingen(x.g, sep), x.lo, x.hi)
            out.append(mk((f,)))
            if not (isc(x.lo) and isc(x.hi) and x.lo == x.hi):
                st.pc += [f.len >= 0, f.len <= 1 << 44]      # it fits in memory
        else:
            raise Unsupported('Join')
    return cat(*out)


def joinfam(st, fam, sep, n):
    g = Gen(fam.name, fam.at, key=('fam', fam.name), info={'kind': 'keys'})
    if st.decide(eq(n, 0), 'no elements'):
        return EMPTY
    return cat(g.at(0), mk((Fold(joingen(g, sep), 1, n),)))


def joingen(g, sep):
    k = ('join', g.k, sep.key())
    return Gen('join_%s' % g.name, lambda i: [(True, cat(sep, g.at(i)))], key=k, info=g.info)


@model('strings.Repeat')
def _(I, st, a, ins):
    c = st.norm(a[0]).concrete()
    if c is not None and isc(a[1]):
        return lit(c * a[1])
    raise Unsupported('Repeat')


def index_(st, r, sep):
    f = findsub(st, r, sep)
    if f is None:
        return -1
    return rlen(st.norm(f[0]))


@model(*both('Index'))
def _(I, st, a, ins):
    return index_(st, ropeof(st, a[0]), ropeof(st, a[1]).concrete())


@model(*both('IndexByte'))
def _(I, st, a, ins):
    if not isc(a[1]):
        raise Unsupported('IndexByte')
    return index_(st, ropeof(st, a[0]), bytes([a[1]]))


@model('strings.IndexRune', 'bytes.IndexRune')
def _(I, st, a, ins):
    if not isc(a[1]) or a[1] >= 128:
        raise Unsupported('IndexRune')
    return index_(st, ropeof(st, a[0]), bytes([a[1]]))


@model(*both('Contains'))
def _(I, st, a, ins):
    c = ropeof(st, a[1]).concrete()
    if c is None:
        raise Unsupported('Contains')
    return findsub(st, ropeof(st, a[0]), c) is not None


@model('strings.ContainsRune', 'bytes.ContainsRune')
def _(I, st, a, ins):
    if not isc(a[1]) or a[1] >= 128:
        raise Unsupported('ContainsRune')
    return findsub(st, ropeof(st, a[0]), bytes([a[1]])) is not None


@model(*both('ContainsAny'))
def _(I, st, a, ins):
    c = ropeof(st, a[1]).concrete()
    if c is None or any(b >= 128 for b in c):
        raise Unsupported('ContainsAny')
    r = ropeof(st, a[0])
    for b in c:
        if st.find(r, b) is not None:
            return True
    return False


@model(*both('IndexAny'))
def _(I, st, a, ins):
    raise Unsupported('IndexAny')


@model(*both('Count'))
def _(I, st, a, ins):
    sep = sepof(st, a[1])
    p, t = split_(st, ropeof(st, a[0]), sep)
    if t is not None:
        return add(len(p), t[1])
    return len(p) - 1


@model(*both('Cut'))
def _(I, st, a, ins):
    c = ropeof(st, a[1]).concrete()
    r = ropeof(st, a[0])
    f = findsub(st, r, c)
    if f is None:
        return (a[0], EMPTY if isinstance(a[0], Rope) else NILSLICE, False)
    pre, post = st.norm(f[0]), st.norm(f[1])
    _, post = st.split(post, len(c))
    n = rlen(pre)
    full = st.norm(r)
    return (subslice(st, a[0], 0, n, pre), subslice(st, a[0], add(n, len(c)), rlen(full), post), True)


@model('bytes.Compare', 'strings.Compare')
def _(I, st, a, ins):
    x, y = ropeof(st, a[0]), ropeof(st, a[1])
    if st.req(x, y):
        return 0
    return -1 if I.strcmp(st, '<', x, y) is True else 1


@model('cmp.Compare')
def _(I, st, a, ins):
    if isinstance(a[0], Rope):
        if st.req(a[0], a[1]):
            return 0
        return -1 if I.strcmp(st, '<', a[0], a[1]) is True else 1
    if st.decide(eq(a[0], a[1])):
        return 0
    return -1 if st.decide(lt(a[0], a[1])) else 1


@model('bytes.Clone', 'slices.Clone')
def _(I, st, a, ins):
    if a[0].base is None:
        return a[0]
    if isinstance(st.sbase(a[0]), LArr):
        return st.mklarr(st.slist(a[0]))
    return st.mkbytes(st.srope(a[0]))


@model('strings.Clone')
def _(I, st, a, ins):
    return a[0]


@model('bytes.Join')
def _(I, st, a, ins):
    sep = ropeof(st, a[1])
    out = []
    for k, x in enumerate(st.slist(a[0]).a):
        if not isinstance(x, EL):
            raise Unsupported('Join')
        if k:
            out.append(sep)
        out.append(st.srope(x.v))
    return st.mkbytes(cat(*out))


@model(*both('ToLower'), *both('ToUpper'), *both('EqualFold'), *both('Map'))
def _(I, st, a, ins):
    r = ropeof(st, a[0])
    c = r.concrete()
    raise Unsupported('case conversion')


# ---------------------------------------------------------------- buffers
def bufkey(p):
    if p is None:
        raise GoPanic('nil pointer dereference')
    return ('buf', p.oid, pathkey(p.path))


@model('(*strings.Builder).WriteString', '(*bytes.Buffer).WriteString')
def _(I, st, a, ins):
    k = bufkey(a[0])
    st.touch(a[0].oid, 'w')
    r = st.norm(a[1])
    st.ghost[k] = cat(st.ghost.get(k, EMPTY), r)
    return (rlen(r), None)


@model('(*strings.Builder).Write', '(*bytes.Buffer).Write')
def _(I, st, a, ins):
    k = bufkey(a[0])
    st.touch(a[0].oid, 'w')
    r = st.srope(a[1])
    st.ghost[k] = cat(st.ghost.get(k, EMPTY), r)
    return (rlen(r), None)


@model('(*strings.Builder).WriteByte', '(*bytes.Buffer).WriteByte')
def _(I, st, a, ins):
    k = bufkey(a[0])
    st.touch(a[0].oid, 'w')
    st.ghost[k] = cat(st.ghost.get(k, EMPTY), be(a[1], 1))
    return None


@model('(*strings.Builder).WriteRune', '(*bytes.Buffer).WriteRune')
def _(I, st, a, ins):
    k = bufkey(a[0])
    st.touch(a[0].oid, 'w')
    if not st.decide(and_(le(0, a[1]), lt(a[1], 128))):
        raise Unsupported('WriteRune')
    st.ghost[k] = cat(st.ghost.get(k, EMPTY), be(a[1], 1))
    return (1, None)


@model('(*strings.Builder).String', '(*bytes.Buffer).String')
def _(I, st, a, ins):
    return st.norm(st.ghost.get(bufkey(a[0]), EMPTY))


@model('(*bytes.Buffer).Bytes')
def _(I, st, a, ins):
    return st.mkbytes(st.ghost.get(bufkey(a[0]), EMPTY))


@model('(*bytes.Buffer).WriteTo')
def _(I, st, a, ins):
    k = bufkey(a[0])
    st.touch(a[0].oid, 'w')
    r = st.norm(st.ghost.get(k, EMPTY))
    if st.decide(eq(rlen(r), 0), 'empty buffer'):
        return (0, None)
    res = wwrite(I, st, a[1], r)
    if res is PUSHED:
        raise Unsupported('WriteTo')
    st.ghost[k] = EMPTY if res[1] is None else sym(st.fvar('unwritten', hi=4000))
    return res


@model('(*strings.Builder).Len', '(*bytes.Buffer).Len')
def _(I, st, a, ins):
    return rlen(st.norm(st.ghost.get(bufkey(a[0]), EMPTY)))


@model('(*strings.Builder).Reset', '(*bytes.Buffer).Reset')
def _(I, st, a, ins):
    k = bufkey(a[0])
    st.touch(a[0].oid, 'w')
    st.ghost[k] = EMPTY
    return None


@model('(*strings.Builder).Grow', '(*bytes.Buffer).Grow')
def _(I, st, a, ins):
    if not st.decide(and_(le(0, a[1]), le(a[1], I.MAXALLOC))):
        raise GoPanic('Grow: negative count')
    return None


@model('bytes.NewBuffer')
def _(I, st, a, ins):
    p = Ptr(st.new(Opaque('bytes.Buffer')))
    st.ghost[bufkey(p)] = st.srope(a[0])
    return p


@model('bytes.NewBufferString')
def _(I, st, a, ins):
    p = Ptr(st.new(Opaque('bytes.Buffer')))
    st.ghost[bufkey(p)] = st.norm(a[0])
    return p


@model('bytes.NewReader', 'strings.NewReader')
def _(I, st, a, ins):
    p = Ptr(st.new(Opaque('reader')))
    st.ghost[('breader', p.oid)] = ropeof(st, a[0])
    return p


# ---------------------------------------------------------------- encoding/binary
def _get(w):
    def f(I, st, a, ins):
        s = a[-1]
        if not st.decide(le(w, s.ln), 'BigEndian: enough bytes'):
            raise GoPanic('index out of range')
        r = st.srope(SliceV(s.base, s.off, w, s.cap))
        return rope_uint(st, r)
    return f


def rope_uint(st, r):
    r = st.norm(r)
    v = 0
    for x in r.a:
        n = x.len
        if not isc(n):
            for k in range(9):
                if st.must(eq(n, k)):
                    n = k
                    break
            else:
                raise Unsupported('integer of %r' % (r,))
        if isinstance(x, Lit):
            t = int.from_bytes(x.b, 'big')
        elif isinstance(x, Enc):
            t = x.value()
        elif isinstance(x, Rep):
            t = int.from_bytes(bytes([x.c]) * n, 'big')
        elif isinstance(x, Seg):
            if n > 8:
                raise Unsupported('integer of %r' % (r,))
            t = z3.Int('be_%s_%s_%d' % ('_'.join(map(str, x.v.key)), tkey(x.lo), n))
            st.assume(and_(t >= 0, t < (1 << (8 * n))))
            # from now on the bytes are the encoding of t
            st.bindseg(x, mk((Enc(t, n),)))
            if not st.sat():
                raise Dead()
        else:
            t = 0
            for k in range(n):
                t = add(mul(t, 256), st.atom_byte(x, k))
        v = add(mul(v, 1 << (8 * n)), t)
    return v


def _put(w):
    def f(I, st, a, ins):
        s, v = a[-2], a[-1]
        if not st.decide(le(w, s.ln), 'BigEndian: enough room'):
            raise GoPanic('index out of range')
        st.sput(s, 0, be(v, w))
        return None
    return f


for _w in (16, 32, 64):
    CONTRACTS['(encoding/binary.bigEndian).Uint%d' % _w] = _get(_w // 8)
    CONTRACTS['(encoding/binary.bigEndian).PutUint%d' % _w] = _put(_w // 8)

    def _app(I, st, a, ins, w=_w // 8):
        return append_bytes(st, a[-2], be(a[-1], w))
    CONTRACTS['(encoding/binary.bigEndian).AppendUint%d' % _w] = _app


# ---------------------------------------------------------------- connections
def conn_new(I, st, inp=EMPTY, name='conn'):
    """fresh connection object; returns its interface value"""
    oid = st.new(Opaque(name))
    st.ghost[('c.in', oid)] = inp
    st.ghost[('c.out', oid)] = EMPTY
    st.ghost[('c.closed', oid)] = False
    st.ghost['conns'] = st.ghost.get('conns', ()) + (oid,)
    return IfaceV('$conn', Ptr(oid))


def iocheck(I, st, conn, kind):
    """ghost obligations of every exchange with the connection"""
    h = I.models.ext.get('$io')
    if h is not None:
        h(I, st, conn, kind)


def ioerr(st, name='$ioerr'):
    st.ghost['io_failed'] = True
    return st.err(name)


def faulty(I, st, conn, what):
    if st.ghost.get(('c.closed', conn)):
        return True
    if not st.ghost.get('faults'):
        return False
    return st.choose(2, 'i/o failure: ' + what) == 1


@model('($conn).Close')
def _(I, st, a, ins):
    o = a[0].v.oid
    if st.ghost.get(('c.closed', o)):
        st.trace += (('connclose', o, 'again'),)
        return st.err('$ioerr')
    st.ghost[('c.closed', o)] = True
    st.trace += (('connclose', o),)
    if st.ghost.get('closefaults') and st.choose(2, 'close error') == 1:
        return st.err('$ioerr')
    return None


def setdl(which):
    def f(I, st, a, ins):
        o = a[0].v.oid
        for w in which:
            st.ghost[('c.' + w + 'dl', o)] = a[1]
        st.trace += (('deadline', o, which),)
        if st.ghost.get(('c.closed', o)):
            return st.err('$ioerr')
        return None
    return f


CONTRACTS['($conn).SetReadDeadline'] = setdl('r')
CONTRACTS['($conn).SetWriteDeadline'] = setdl('w')
CONTRACTS['($conn).SetDeadline'] = setdl('rw')


@model('($conn).RemoteAddr', '($conn).LocalAddr')
def _(I, st, a, ins):
    return IfaceV('$addr', None)


@model('($addr).String')
def _(I, st, a, ins):
    return sym(st.fvar('addr', hi=100))


@model('($conn).Write')
def _(I, st, a, ins):
    r = st.srope(a[1])
    return conn_write(I, st, a[0].v.oid, r)


def conn_write(I, st, o, r):
    iocheck(I, st, o, 'w')
    if faulty(I, st, o, 'write'):
        return (0, ioerr(st))
    st.ghost[('c.out', o)] = cat(st.norm(st.ghost[('c.out', o)]), st.norm(r))
    return (rlen(r), None)


@model('($conn).Read')
def _(I, st, a, ins):
    o = a[0].v.oid
    return conn_read(I, st, o, a[1])


def conn_read(I, st, o, buf):
    preread(I, st, o)
    if faulty(I, st, o, 'read'):
        return (0, ioerr(st))
    r = st.norm(st.ghost[('c.in', o)])
    L = rlen(r)
    if st.decide(eq(buf.ln, 0)):
        return (0, None)
    if st.decide(eq(L, 0), 'no more input'):
        return (0, noinput(I, st, o, 'io.EOF'))
    n = st.fint('nread', 1)
    st.assume(and_(le(n, buf.ln), le(n, L)))
    a, b = st.split(r, n)
    st.ghost[('c.in', o)] = b
    st.sput(buf, 0, a)
    return (n, None)


def noinput(I, st, o, err):
    """the connection has no further bytes"""
    if st.ghost.get('endmode', 'eof') == 'block':
        raise Stop('blocked', 'the client waits for bytes beyond the reply')
    st.ghost['io_failed'] = True
    st.ghost[('c.eof', o)] = True
    return I.models.stderr_(st, err)


def preread(I, st, o):
    """before waiting for input everything written must have been flushed"""
    for k, w in list(st.ghost.items()):
        if isinstance(k, tuple) and k[0] == 'w.dst' and w == o:
            p = st.norm(st.ghost.get(('w.pend', k[1]), EMPTY))
            if p.a and not (isc(rlen(p)) and rlen(p) == 0):
                h = I.models.ext.get('$unflushed')
                if h is not None:
                    h(I, st, o, p)
    iocheck(I, st, o, 'r')


# bufio
@model('bufio.NewReader', 'bufio.NewReaderSize')
def _(I, st, a, ins):
    src = a[0]
    p = Ptr(st.new(Opaque('bufio.Reader')))
    if isinstance(src, IfaceV) and src.t == '*bufio.Reader':
        return src.v
    if not isinstance(src, IfaceV) or src.t != '$conn':
        raise Unsupported('bufio.NewReader of %r' % (src,))
    st.ghost[('r.src', p.oid)] = src.v.oid
    st.ghost[('r.size', p.oid)] = (4096 if len(a) == 1 else (a[1] if not isc(a[1]) else max(16, a[1])))
    if st.ghost.get(('c.reader', src.v.oid)) is not None:
        # bytes already buffered by the other reader are lost
        st.ghost[('c.in', src.v.oid)] = sym(st.fvar('lost'))
        st.approx += ('second reader on one connection',)
    st.ghost[('c.reader', src.v.oid)] = p.oid
    return p


@model('bufio.NewWriter', 'bufio.NewWriterSize')
def _(I, st, a, ins):
    dst = a[0]
    if isinstance(dst, IfaceV) and dst.t == '*bufio.Writer':
        return dst.v
    if not isinstance(dst, IfaceV) or dst.t != '$conn':
        raise Unsupported('bufio.NewWriter of %r' % (dst,))
    p = Ptr(st.new(Opaque('bufio.Writer')))
    st.ghost[('w.dst', p.oid)] = dst.v.oid
    st.ghost[('w.pend', p.oid)] = EMPTY
    return p


@model('bufio.NewReadWriter')
def _(I, st, a, ins):
    return Ptr(st.new(StructV('bufio.ReadWriter', (a[0], a[1]))))


@model('(*bufio.Reader).Reset')
def _(I, st, a, ins):
    st.ghost[('r.src', a[0].oid)] = a[1].v.oid
    if st.ghost.get(('c.reader', a[1].v.oid)) not in (None, a[0].oid):
        st.ghost[('c.in', a[1].v.oid)] = sym(st.fvar('lost'))
    st.ghost[('c.reader', a[1].v.oid)] = a[0].oid
    invalidate(st, a[0].oid)
    return None


@model('(*bufio.Writer).Reset')
def _(I, st, a, ins):
    st.ghost[('w.dst', a[0].oid)] = a[1].v.oid
    st.ghost[('w.pend', a[0].oid)] = EMPTY
    st.ghost.pop(('w.err', a[0].oid), None)
    return None


def rdr(st, p):
    if p is None:
        raise GoPanic('nil pointer dereference')
    o = st.ghost.get(('r.src', p.oid))
    if o is None:
        raise Unsupported('unknown reader')
    return o


def invalidate(st, rid):
    """a further read overwrites the buffer behind earlier views"""
    for oid in st.ghost.get(('r.views', rid), ()):
        v = st.heap.get(oid)
        if isinstance(v, BArr):
            n = rlen(v.r)
            x = st.fvar('stale')
            st.assume(eq(x.ln, n))
            st.heap[oid] = BArr(sym(x))
    st.ghost[('r.views', rid)] = ()


def view(st, rid, rope):
    oid = st.new(BArr(st.norm(rope)), owner='bufview')
    st.ghost[('r.views', rid)] = st.ghost.get(('r.views', rid), ()) + (oid,)
    n = rlen(st.norm(rope))
    return SliceV(Ptr(oid), 0, n, n)


def take(st, o, n):
    r = st.norm(st.ghost[('c.in', o)])
    a, b = st.split(r, n)
    st.ghost[('c.in', o)] = b
    st.ghost[('c.used', o)] = cat(st.ghost.get(('c.used', o), EMPTY), a)
    return a


def readuntil(I, st, p, d, limit):
    """(rope, err)"""
    o = rdr(st, p)
    preread(I, st, o)
    invalidate(st, p.oid)
    if faulty(I, st, o, 'read'):
        return EMPTY, ioerr(st)
    r = st.norm(st.ghost[('c.in', o)])
    f = st.find(r, d)
    size = st.ghost.get(('r.size', p.oid), 4096)
    if f is None:
        r = st.norm(st.ghost[('c.in', o)])
        L = rlen(r)
        if limit and st.decide(ge(L, size), 'line longer than the buffer'):
            a = take(st, o, size)
            st.ghost['io_failed'] = True
            return a, I.models.stderr_(st, 'bufio.ErrBufferFull')
        e = noinput(I, st, o, 'io.EOF')
        a = take(st, o, L)
        return a, e
    pre = st.norm(f[0])
    n = add(rlen(pre), 1)
    if limit:
        for y in pre.a:
            if isinstance(y, Dec):
                st.decfacts(y.t)
        if st.decide(lt(size, n), 'line longer than the buffer'):
            a = take(st, o, size)
            st.ghost['io_failed'] = True
            return a, I.models.stderr_(st, 'bufio.ErrBufferFull')
    return take(st, o, n), None


def delim(a):
    if not isc(a):
        raise Unsupported('delimiter')
    return a


@model('(*bufio.Reader).ReadSlice')
def _(I, st, a, ins):
    r, e = readuntil(I, st, a[0], delim(a[1]), True)
    return (view(st, a[0].oid, r), e)


@model('(*bufio.Reader).ReadBytes')
def _(I, st, a, ins):
    r, e = readuntil(I, st, a[0], delim(a[1]), False)
    return (st.mkbytes(r), e)


@model('(*bufio.Reader).ReadString')
def _(I, st, a, ins):
    r, e = readuntil(I, st, a[0], delim(a[1]), False)
    return (st.norm(r), e)


@model('(*bufio.Reader).ReadLine')
def _(I, st, a, ins):
    r, e = readuntil(I, st, a[0], 10, True)
    if e is not None:
        raise Unsupported('ReadLine at end of input')
    r = st.norm(r)
    n = rlen(r)
    k = 2 if st.ends(r, lit(b'\r\n')) else 1
    r = st.norm(r)
    b, _ = st.split(r, sub(rlen(r), k))
    return (view(st, a[0].oid, b), False, None)


@model('(*bufio.Reader).ReadByte')
def _(I, st, a, ins):
    o = rdr(st, a[0])
    preread(I, st, o)
    if faulty(I, st, o, 'read'):
        return (0, ioerr(st))
    r = st.norm(st.ghost[('c.in', o)])
    if st.decide(eq(rlen(r), 0), 'no more input'):
        return (0, noinput(I, st, o, 'io.EOF'))
    return (st.byte_at(take(st, o, 1), 0), None)


@model('(*bufio.Reader).Peek')
def _(I, st, a, ins):
    o = rdr(st, a[0])
    preread(I, st, o)
    if faulty(I, st, o, 'read'):
        return (NILSLICE, ioerr(st))
    r = st.norm(st.ghost[('c.in', o)])
    n = a[1]
    if not st.decide(le(n, rlen(r)), 'enough input'):
        return (view(st, a[0].oid, r), noinput(I, st, o, 'io.EOF'))
    x, _ = st.split(r, n)
    return (view(st, a[0].oid, x), None)


@model('(*bufio.Reader).Discard')
def _(I, st, a, ins):
    o = rdr(st, a[0])
    if not st.decide(le(0, a[1])):
        return (0, st.err('$err'))
    if st.decide(eq(a[1], 0)):
        return (0, None)
    preread(I, st, o)
    invalidate(st, a[0].oid)
    if faulty(I, st, o, 'read'):
        return (0, ioerr(st))
    r = st.norm(st.ghost[('c.in', o)])
    L = rlen(r)
    if not st.decide(le(a[1], L), 'enough input'):
        e = noinput(I, st, o, 'io.EOF')
        take(st, o, L)
        return (L, e)
    take(st, o, a[1])
    return (a[1], None)


@model('(*bufio.Reader).Buffered')
def _(I, st, a, ins):
    o = rdr(st, a[0])
    n = st.fint('buffered', 0, 4096)
    st.assume(le(n, rlen(st.norm(st.ghost[('c.in', o)]))))
    return n


@model('(*bufio.Reader).Read')
def _(I, st, a, ins):
    o = rdr(st, a[0])
    invalidate(st, a[0].oid)
    return conn_read(I, st, o, a[1])


def wtr(st, p):
    if p is None:
        raise GoPanic('nil pointer dereference')
    o = st.ghost.get(('w.dst', p.oid))
    if o is None:
        raise Unsupported('unknown writer')
    return o


def bwrite(I, st, p, r):
    o = wtr(st, p)
    iocheck(I, st, o, 'w')
    e = st.ghost.get(('w.err', p.oid))
    if e is not None:
        return (0, e)
    r = st.norm(r)
    if faulty(I, st, o, 'write'):
        e = ioerr(st)
        st.ghost[('w.err', p.oid)] = e
        return (0, e)
    st.ghost[('w.pend', p.oid)] = cat(st.norm(st.ghost[('w.pend', p.oid)]), r)
    return (rlen(r), None)


@model('(*bufio.Writer).Write')
def _(I, st, a, ins):
    return bwrite(I, st, a[0], st.srope(a[1]))


@model('(*bufio.Writer).WriteString')
def _(I, st, a, ins):
    return bwrite(I, st, a[0], a[1])


@model('(*bufio.Writer).WriteByte')
def _(I, st, a, ins):
    return bwrite(I, st, a[0], be(a[1], 1))[1]


@model('(*bufio.Writer).Flush')
def _(I, st, a, ins):
    p = a[0]
    o = wtr(st, p)
    iocheck(I, st, o, 'w')
    e = st.ghost.get(('w.err', p.oid))
    if e is not None:
        return e
    pend = st.norm(st.ghost[('w.pend', p.oid)])
    if not pend.a:
        return None
    if faulty(I, st, o, 'flush'):
        e = ioerr(st)
        st.ghost[('w.err', p.oid)] = e
        return e
    st.ghost[('c.out', o)] = cat(st.norm(st.ghost[('c.out', o)]), pend)
    st.ghost[('w.pend', p.oid)] = EMPTY
    h = I.models.ext.get('$sent')
    if h is not None:
        h(I, st, o)
    return None


@model('(*bufio.Writer).Buffered')
def _(I, st, a, ins):
    wtr(st, a[0])
    return st.fint('buffered', 0)


@model('(*bufio.Writer).Available')
def _(I, st, a, ins):
    wtr(st, a[0])
    return st.fint('available', 0)


def wwrite(I, st, w, r):
    """Write through an io.Writer"""
    if not isinstance(w, IfaceV):
        raise GoPanic('nil pointer dereference')
    if w.t == '*bufio.Writer':
        return bwrite(I, st, w.v, r)
    if w.t == '*bufio.ReadWriter':
        return bwrite(I, st, st.load(Ptr(w.v.oid, w.v.path + (1,))), r)
    if w.t == '$conn':
        return conn_write(I, st, w.v.oid, r)
    if w.t in ('*bytes.Buffer', '*strings.Builder'):
        k = bufkey(w.v)
        st.touch(w.v.oid, 'w')
        st.ghost[k] = cat(st.ghost.get(k, EMPTY), st.norm(r))
        return (rlen(r), None)
    if w.t in ('*os.File', '$discard'):
        return (rlen(r), None)
    ms = I.p.methods.get(w.t)
    if ms and 'Write' in ms:
        dest, cont, ins = st.ghost['$call']
        I.docall(st, FuncV('$m ' + ms['Write']), [w, st.mkbytes(r)], dest, ins, cont)
        return PUSHED
    raise Unsupported('write to ' + w.t)


@model('io.WriteString')
def _(I, st, a, ins):
    return wwrite(I, st, a[0], a[1])


def rsource(I, st, r):
    """(connection, reader id) behind an io.Reader"""
    if not isinstance(r, IfaceV):
        raise GoPanic('nil pointer dereference')
    if r.t == '*bufio.Reader':
        return rdr(st, r.v), r.v.oid
    if r.t == '*bufio.ReadWriter':
        p = st.load(Ptr(r.v.oid, r.v.path + (0,)))
        return rdr(st, p), p.oid
    if r.t == '$conn':
        return r.v.oid, None
    raise Unsupported('read from ' + r.t)


@model('io.ReadFull')
def _(I, st, a, ins):
    buf = a[1]
    if a[0] is not None and isinstance(a[0], IfaceV) and a[0].t == '*io.LimitedReader':
        raise Unsupported('LimitedReader')
    o, rid = rsource(I, st, a[0])
    if st.decide(eq(buf.ln, 0), 'nothing to read'):
        return (0, None)
    preread(I, st, o)
    if rid is not None:
        invalidate(st, rid)
    if faulty(I, st, o, 'read'):
        return (0, ioerr(st))
    r = st.norm(st.ghost[('c.in', o)])
    L = rlen(r)
    if not st.decide(le(buf.ln, L), 'enough input'):
        if st.decide(eq(L, 0), 'no input at all'):
            return (0, noinput(I, st, o, 'io.EOF'))
        e = noinput(I, st, o, 'io.ErrUnexpectedEOF')
        x = take(st, o, L)
        st.sput(buf, 0, x)
        return (L, e)
    x = take(st, o, buf.ln)
    st.sput(buf, 0, x)
    return (buf.ln, None)


@model('io.CopyN')
def _(I, st, a, ins):
    w, r, n = a
    o, rid = rsource(I, st, r)
    if st.decide(le(n, 0), 'nothing to copy'):
        return (0, None)
    preread(I, st, o)
    if rid is not None:
        invalidate(st, rid)
    if faulty(I, st, o, 'read'):
        return (0, ioerr(st))
    L = rlen(st.norm(st.ghost[('c.in', o)]))
    if not st.decide(le(n, L), 'enough input'):
        e = noinput(I, st, o, 'io.EOF')
        take(st, o, L)
        return (L, e)
    x = take(st, o, n)
    res = wwrite(I, st, w, x)
    if res is PUSHED:
        raise Unsupported('CopyN')
    return (n, res[1])


# ---------------------------------------------------------------- sync
def mukey(p):
    if p is None:
        raise GoPanic('nil pointer dereference')
    return (p.oid, pathkey(p.path))


@model('(*sync.Mutex).Lock', '(*sync.RWMutex).Lock')
def _(I, st, a, ins):
    k = mukey(a[0])
    held = st.ghost.get('held', ())
    if any(h[0] == k for h in held):
        st.fail('C08.double', 'the lock is acquired again while held (deadlock)')
        raise Stop('deadlock')
    ep = st.ghost.get('epoch', 0) + 1
    st.ghost['epoch'] = ep
    st.ghost['held'] = held + ((k, ep, True),)
    h = I.models.ext.get('$locked')
    if h is not None:
        h(I, st, a[0])
    return None


@model('(*sync.Mutex).TryLock', '(*sync.RWMutex).TryLock')
def _(I, st, a, ins):
    k = mukey(a[0])
    held = st.ghost.get('held', ())
    if any(h[0] == k for h in held):
        return False
    if st.choose(2, 'TryLock fails') == 1:
        return False
    ep = st.ghost.get('epoch', 0) + 1
    st.ghost['epoch'] = ep
    st.ghost['held'] = held + ((k, ep, True),)
    return True


@model('(*sync.RWMutex).RLock')
def _(I, st, a, ins):
    k = mukey(a[0])
    held = st.ghost.get('held', ())
    if any(h[0] == k and h[2] for h in held):
        st.fail('C08.double', 'the lock is acquired again while held (deadlock)')
        raise Stop('deadlock')
    ep = st.ghost.get('epoch', 0) + 1
    st.ghost['epoch'] = ep
    st.ghost['held'] = held + ((k, ep, False),)
    return None


def unlock(excl):
    def f(I, st, a, ins):
        k = mukey(a[0])
        held = st.ghost.get('held', ())
        for i, h in enumerate(held):
            if h[0] == k and h[2] == excl:
                st.ghost['held'] = held[:i] + held[i + 1:]
                return None
        st.fail('C08.unlock', 'unlock of a lock that is not held (fatal error)')
        raise Stop('fatal', 'unlock of unlocked mutex')
    return f


CONTRACTS['(*sync.Mutex).Unlock'] = unlock(True)
CONTRACTS['(*sync.RWMutex).Unlock'] = unlock(True)
CONTRACTS['(*sync.RWMutex).RUnlock'] = unlock(False)


@model('(*sync.Once).Do')
def _(I, st, a, ins):
    k = ('once',) + mukey(a[0])
    if st.ghost.get(k):
        return None
    st.ghost[k] = True
    dest, cont, ins2 = st.ghost['$call']
    st.ghost['$once'] = True

    def done(I, st, v, dest=dest, cont=cont):
        st.ghost.pop('$once', None)
        I.finish(st, v, dest, cont)
    I.docall(st, a[1], [], None, ins, done)
    return PUSHED


@model('(*sync.Pool).Get')
def _(I, st, a, ins):
    p = a[0]
    if p is None:
        raise GoPanic('nil pointer dereference')
    nf = st.load(Ptr(p.oid, p.path + (I.p.fieldidx('sync.Pool', 'New'),)))
    if nf is None:
        return None
    dest, cont, ins2 = st.ghost['$call']

    def got(I, st, v, dest=dest, cont=cont, key=mukey(p)):
        # a recycled object: made by New, then left behind with any contents
        havoc_pooled(I, st, v)
        if isinstance(v, IfaceV) and isinstance(v.v, Ptr):
            m = dict(st.meta.get(v.v.oid, {}))
            m['pool'] = key
            st.meta[v.v.oid] = m
        I.finish(st, v, dest, cont)
    I.docall(st, nf, [], None, ins, got)
    return PUSHED


def havoc_pooled(I, st, v):
    if not isinstance(v, IfaceV) or not isinstance(v.v, Ptr):
        return
    oid = v.v.oid
    cur = st.heap[oid]
    t = I.p.under(v.t)
    if t['kind'] == 'pointer':
        st.heap[oid] = havoc_like(I, st, cur, t['elem'], 'pooled', True)


def havoc_like(I, st, cur, t, hint, keeplen=False):
    """arbitrary value of type t; slices keep their length, contents arbitrary"""
    d = I.p.under(t)
    k = d['kind']
    if k == 'basic':
        n = d['name']
        if n in INTS:
            return st.fint(hint, *irange(n))
        if n == 'bool':
            return st.fbool(hint)
        if n == 'string':
            return sym(st.fvar(hint))
        return Opaque(hint)
    if k == 'struct' and isinstance(cur, StructV):
        return StructV(cur.t, [havoc_like(I, st, c, f['type'], hint + '.' + f['name'], keeplen) for c, f in zip(cur.f, d['fields'])])
    if k == 'slice' and isinstance(cur, SliceV):
        if cur.base is None:
            return cur
        v = st.heap[cur.base.oid]
        if isinstance(v, BArr) and not cur.base.path:
            x = st.fvar(hint)
            st.assume(eq(x.ln, rlen(v.r)))
            m = st.meta.get(cur.base.oid, {})
            st.meta[cur.base.oid] = dict(m, pool=True)
            st.heap[cur.base.oid] = BArr(sym(x))
        return cur
    if k == 'array' and isinstance(cur, BArr):
        x = st.fvar(hint)
        st.assume(eq(x.ln, rlen(cur.r)))
        return BArr(sym(x))
    return cur


@model('(*sync.Pool).Put')
def _(I, st, a, ins):
    v = a[1]
    if isinstance(v, IfaceV) and isinstance(v.v, Ptr):
        oid = v.v.oid
        m = dict(st.meta.get(oid, {}))
        if m.get('freed'):
            st.fail('pool.double_put', 'object returned to its sync.Pool twice')
        m['freed'] = True
        st.meta[oid] = m
        want = m.get('pool')
        if want not in (None, True) and want != mukey(a[0]):
            st.fail('pool.wrong_pool', 'object returned to another sync.Pool')
    return None


@model('(*sync.WaitGroup).Add', '(*sync.WaitGroup).Done', '(*sync.WaitGroup).Wait')
def _(I, st, a, ins):
    return None


# ---------------------------------------------------------------- net, time, context
@model('(*net.Dialer).DialContext', '(*net.Dialer).Dial', 'net.Dial', 'net.DialTimeout')
def _(I, st, a, ins):
    h = I.models.ext.get('$dial')
    if h is None:
        raise Unsupported('dial')
    if st.ghost.get('inop') and not st.ghost.get('ctx.limit'):
        # a[0]: the dialer; DialTimeout has the limit as its last argument
        d = a[-1] if len(a) == 3 and not isinstance(a[0], Ptr) else None
        if isinstance(a[0], Ptr):
            sv = st.load(a[0])
            d = sv.f[I.p.fieldidx('net.Dialer', 'Timeout')] if isinstance(sv, StructV) else None
        if d is None or not st.must(gt(d, 0)):
            st.fail('C17.deadline', 'dials within an operation without a time limit')
    return h(I, st, a, ins)


@model('context.TODO', 'context.Background')
def _(I, st, a, ins):
    return IfaceV('$ctx', None)


@model('context.WithTimeout', 'context.WithDeadline')
def _(I, st, a, ins):
    st.ghost['ctx.limit'] = True
    return (IfaceV('$ctx', None), FuncV('$cancel'))


@model('context.WithCancel')
def _(I, st, a, ins):
    return (IfaceV('$ctx', None), FuncV('$cancel'))


@model('$cancel')
def _(I, st, a, ins):
    return None


@model('time.Now')
def _(I, st, a, ins):
    st.trace += (('now',),)
    return Opaque('time', ('now', st.ghost.get('opid', 0), 0))


@model('(time.Time).Add')
def _(I, st, a, ins):
    t = a[0]
    if isinstance(t, Opaque) and isinstance(t.info, tuple):
        return Opaque('time', (t.info[0], t.info[1], add(t.info[2], a[1])))
    return Opaque('time', ('zero', 0, a[1]))


@model('(time.Time).IsZero')
def _(I, st, a, ins):
    return not isinstance(a[0], Opaque)


@model('(time.Time).Sub', 'time.Since', 'time.Until')
def _(I, st, a, ins):
    return st.fint('dur', *irange('int64'))


@model('time.Sleep')
def _(I, st, a, ins):
    st.trace += (('sleep',),)
    return None


@model('time.NewTimer', 'time.NewTicker')
def _(I, st, a, ins):
    raise Unsupported('timer')


# ---------------------------------------------------------------- hashing, sorting
@model('hash/crc32.ChecksumIEEE')
def _(I, st, a, ins):
    return crc(st, st.srope(a[0]))


def crc(st, r):
    r = st.norm(r)
    c = r.concrete()
    if c is not None:
        return zlib.crc32(c)
    k = ('crc', r.key())
    if k not in st.facts:
        st.facts[k] = st.fint('crc', 0, (1 << 32) - 1)
    return st.facts[k]


@model('hash/crc32.Checksum')
def _(I, st, a, ins):
    g = I.globalptr(st, 'hash/crc32.IEEETable')
    if a[1] is None or not isinstance(a[1], Ptr) or a[1] != st.load(g):
        raise Unsupported('crc32 table')
    return crc(st, st.srope(a[0]))


@model('crypto/sha1.Sum')
def _(I, st, a, ins):
    r = st.norm(st.srope(a[0]))
    c = r.concrete()
    if c is not None and '$sha1' not in I.models.ext:
        return BArr(lit(hashlib.sha1(c).digest()))
    f = I.models.ext.get('$sha1')
    if f is None:
        raise Unsupported('sha1 of symbolic bytes')
    return BArr(f(st, r))


def adopt(st, s):
    """continue in the state s"""
    for k in ('heap', 'meta', 'ghost', 'pc', 'bind', 'facts', 'nid', 'trace', 'approx', 'fails', 'vcs', 'path', 'neg'):
        setattr(st, k, getattr(s, k))


def subcall(I, st, fn, args):
    """result of calling a function value to its end, on one of its paths"""
    s = st.clone()
    s.frames = []
    s.outcome = s.result = None
    if isinstance(fn, str):
        f, b = I.p.funcs.get(fn), ()
    else:
        n = fn.n[3:] if fn.n.startswith('$m ') else fn.n
        f, b = I.p.funcs.get(n), fn.b
    if f is None:
        raise Unsupported('call of %r' % (fn,))
    I.push(s, f, list(args), list(b), None)
    outs = [x for x in I.run(s) if x.outcome[0] != 'cut']
    if not outs:
        raise Dead()
    o = outs[st.choose(len(outs), 'outcome of a callback')]
    adopt(st, o)
    k, info = o.outcome
    if k == 'panic':
        raise GoPanic(info)
    if k == 'unsupported':
        raise Unsupported(info)
    if k != 'return':
        raise Stop(k, info)
    return o.result


def sort_by(I, st, sl, less):
    """sorting of a slice; less(st, i, j) compares elements of the unsorted slice"""
    if sl.base is None:
        return None
    h = I.models.ext.get('$sort')
    if h is not None:
        return h(I, st, sl, less)
    l = st.slist(sl)
    if not all(isinstance(x, EL) for x in l.a) or len(l.a) > 8:
        raise Unsupported('sorting of a long list')
    order = []
    for i in range(len(l.a)):
        k = len(order)
        while k > 0 and st.decide(less(st, i, order[k - 1]), 'less'):
            k -= 1
        order.insert(k, i)
    st_list_put(st, sl, 0, LArr([l.a[i] for i in order], l.t))
    return None


@model('sort.Slice', 'sort.SliceStable')
def _(I, st, a, ins):
    if not isinstance(a[0], IfaceV) or not isinstance(a[0].v, SliceV):
        raise Unsupported('sort.Slice')
    return sort_by(I, st, a[0].v, lambda s, i, j: subcall(I, s, a[1], [i, j]))


@model('sort.Sort', 'sort.Stable')
def _(I, st, a, ins):
    if not isinstance(a[0], IfaceV) or not isinstance(a[0].v, SliceV):
        raise Unsupported('sort.Sort')
    ms = I.p.methods.get(a[0].t, {})
    if 'Less' not in ms:
        raise Unsupported('sort.Sort')
    return sort_by(I, st, a[0].v, lambda s, i, j: subcall(I, s, ms['Less'], [a[0].v, i, j]))


@model('slices.SortFunc', 'slices.SortStableFunc')
def _(I, st, a, ins):
    def less(s, i, j):
        l = s.slist(a[0])
        return lt(subcall(I, s, a[1], [s.lget(l, i), s.lget(l, j)]), 0)
    return sort_by(I, st, a[0], less)


@model('sort.Strings', 'slices.Sort')
def _(I, st, a, ins):
    def less(s, i, j):
        l = s.slist(a[0])
        x, y = s.lget(l, i), s.lget(l, j)
        return I.strcmp(s, '<', x, y) if isinstance(x, Rope) else lt(x, y)
    return sort_by(I, st, a[0], less)


@model('sort.Search')
def _(I, st, a, ins):
    n, f = a
    if not st.decide(lt(0, n), 'search in something'):
        return 0
    k = st.choose(3, 'result of the search')
    if k == 0:
        r = 0
    elif k == 1:
        r = n
    else:
        r = st.fint('found', 1)
        st.assume(lt(r, n))
        if not st.sat():
            raise Dead()
    if k != 0 and st.decide(subcall(I, st, f, [sub(r, 1)]), 'search: before'):
        raise Dead()
    if k != 1 and not st.decide(subcall(I, st, f, [r]), 'search: at'):
        raise Dead()
    return r


# ---------------------------------------------------------------- replacing single bytes
def replacebytes(st, r, table):
    """every byte of table (a dict byte -> bytes) replaced in the rope r"""
    r = st.norm(r)
    olds = cls_of(bytes(table))
    news = 0
    for v in table.values():
        news |= cls_of(v)
    one = all(len(v) == 1 for v in table.values())
    out = []
    for x in r.a:
        if isinstance(x, Lit):
            out.append(lit(b''.join(table.get(b, bytes([b])) for b in x.b)))
        elif not (x.cls() & olds):
            out.append(mk((x,)))
        else:
            k = ('replaced', repr(x.key()), tuple(sorted(table.items())))
            if k not in st.ghost:
                n = x.len
                mx = max([1] + [len(v) for v in table.values()])
                v = st.fvar('replaced', cls=(x.cls() & ~olds) | news)
                st.assume(eq(v.ln, n) if one else le(v.ln, mul(n, mx)))
                st.ghost[k] = v
            out.append(sym(st.ghost[k]))
    return cat(*out)


@model('strings.NewReplacer')
def _(I, st, a, ins):
    l = [x.v if isinstance(x, EL) else x for x in st.slist(a[0]).a] if a[0].base is not None else []
    l = [st.norm(x).concrete() if isinstance(x, Rope) else None for x in l]
    if any(x is None for x in l) or len(l) % 2 or any(len(x) != 1 for x in l[::2]):
        raise Unsupported('strings.NewReplacer')
    t = {}
    for o, n in zip(l[::2], l[1::2]):
        t.setdefault(o[0], n)
    return Ptr(st.new(Opaque('strings.Replacer', tuple(sorted(t.items())))))


@model('(*strings.Replacer).Replace')
def _(I, st, a, ins):
    return replacebytes(st, a[1], dict(st.heap[a[0].oid].info))


@model(*both('ReplaceAll'))
def _(I, st, a, ins):
    o, n = ropeof(st, a[1]).concrete(), ropeof(st, a[2]).concrete()
    if o is None or n is None or len(o) != 1:
        raise Unsupported('ReplaceAll')
    return like(st, a[0], replacebytes(st, ropeof(st, a[0]), {o[0]: n}))


# ---------------------------------------------------------------- sync/atomic
def _atomic(tn, goty):
    def cell(I, p):
        fs = I.p.under('sync/atomic.' + tn)['fields']
        i = [k for k, f in enumerate(fs) if f['name'] == 'v'][0]
        if p is None:
            raise GoPanic('nil pointer dereference')
        return Ptr(p.oid, p.path + (i,))

    def quietly(f):
        def g(I, st, a, ins):
            r, I.race = I.race, None         # recorded as an atomic access where it is called
            sh, I.shared = I.shared, {}
            try:
                return f(I, st, cell(I, a[0]), a)
            finally:
                I.race, I.shared = r, sh
        return g
    isb = tn == 'Bool'
    under = 'uint32' if isb else goty

    def out(v):
        return (v != 0 if isc(v) else T(v) != 0) if isb else v

    def inn(v):
        if not isb:
            return v
        return int(v) if isinstance(v, bool) else ite(v, 1, 0)

    def load(I, st, p, a):
        return out(st.load(p))

    def store(I, st, p, a):
        st.store(p, inn(a[1]))

    def swap(I, st, p, a):
        v = st.load(p)
        st.store(p, inn(a[1]))
        return out(v)

    def cas(I, st, p, a):
        if st.decide(eq(st.load(p), inn(a[1])), 'compare and swap'):
            st.store(p, inn(a[2]))
            return True
        return False

    def addm(I, st, p, a):
        v = I.wrap(st, add(st.load(p), a[1]), under)
        st.store(p, v)
        return v
    for n, f in (('Load', load), ('Store', store), ('Swap', swap), ('CompareAndSwap', cas)) + (() if isb else (('Add', addm),)):
        CONTRACTS['(*sync/atomic.%s).%s' % (tn, n)] = quietly(f)


for _t, _g in (('Bool', ''), ('Int32', 'int32'), ('Int64', 'int64'), ('Uint32', 'uint32'), ('Uint64', 'uint64')):
    _atomic(_t, _g)


def _atomicfn(tn, goty):
    def quietly(f):
        def g(I, st, a, ins):
            if a[0] is None:
                raise GoPanic('nil pointer dereference')
            r, I.race = I.race, None
            sh, I.shared = I.shared, {}
            try:
                return f(I, st, a[0], a)
            finally:
                I.race, I.shared = r, sh
        return g

    def cas(I, st, p, a):
        if st.decide(eq(st.load(p), a[1]), 'compare and swap'):
            st.store(p, a[2])
            return True
        return False

    def swap(I, st, p, a):
        v = st.load(p)
        st.store(p, a[1])
        return v

    def addm(I, st, p, a):
        v = I.wrap(st, add(st.load(p), a[1]), goty)
        st.store(p, v)
        return v
    for n, f in (('Load', lambda I, st, p, a: st.load(p)), ('Store', lambda I, st, p, a: st.store(p, a[1])), ('Swap', swap),
                 ('CompareAndSwap', cas), ('Add', addm)):
        CONTRACTS['sync/atomic.%s%s' % (n, tn)] = quietly(f)


for _t, _g in (('Int32', 'int32'), ('Int64', 'int64'), ('Uint32', 'uint32'), ('Uint64', 'uint64')):
    _atomicfn(_t, _g)
