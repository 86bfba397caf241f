"""Ropes: symbolic byte strings as concatenations of atoms.

Lit   concrete bytes
Seg   bytes [lo,hi) of an opaque byte-string variable (with a character class)
Enc   bytes [lo,hi) of the W-byte big-endian encoding of an integer term
Dec   canonical decimal representation of an integer term
Rep   n copies of one byte
Fold  concatenation of gen.at(j) for j in [lo,hi)   (symbolic iteration count)
"""
import z3
from terms import *

ALL = (1 << 256) - 1


def cls_of(bs):
    m = 0
    for b in bs:
        m |= 1 << b
    return m


def cls_not(bs, base=ALL):
    return base & ~cls_of(bs)


DIG = cls_of(b'0123456789')
DECCLS = DIG | cls_of(b'-')
# memcached key characters: no control characters, no space, no DEL
KEYCLS = cls_not(bytes(range(0, 33)) + b'\x7f')
LINECLS = cls_not(b'\r\n')


def cls_list(m):
    return [b for b in range(256) if (m >> b) & 1]


_ranges = {}


def cls_ranges(m):
    r = _ranges.get(m)
    if r is None:
        r = []
        for b in cls_list(m):
            if r and r[-1][1] == b - 1:
                r[-1][1] = b
            else:
                r.append([b, b])
        _ranges[m] = r
    return r


class Var:
    """opaque byte string; identity is (name, index terms)"""
    __slots__ = ('name', 'idx', 'cls', 'ln', 'key')

    def __init__(self, name, cls, ln, idx=()):
        self.name, self.cls, self.ln, self.idx = name, cls, ln, idx
        self.key = (name,) + tuple(tkey(i) for i in idx)

    def __repr__(self):
        return self.name + (str(list(self.idx)) if self.idx else '')

    def at(self, off):
        f = z3.Function('at_' + self.name, *([z3.IntSort()] * (len(self.idx) + 2)))
        return f(*[T(i) for i in self.idx], T(off))


class Atom:
    __slots__ = ()


class Lit(Atom):
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = b

    @property
    def len(self):
        return len(self.b)

    def key(self):
        return ('L', self.b)

    def cls(self):
        return cls_of(self.b)

    def __repr__(self):
        return repr(self.b)[1:]


class Seg(Atom):
    __slots__ = ('v', 'lo', 'hi')

    def __init__(self, v, lo=0, hi=None):
        self.v, self.lo, self.hi = v, lo, (v.ln if hi is None else hi)

    @property
    def len(self):
        return sub(self.hi, self.lo)

    def whole(self):
        return isc(self.lo) and self.lo == 0 and tkey(self.hi) == tkey(self.v.ln)

    def key(self):
        return ('S', self.v.key, tkey(self.lo), tkey(self.hi))

    def cls(self):
        return self.v.cls

    def __repr__(self):
        if self.whole():
            return repr(self.v)
        return '%r[%s:%s]' % (self.v, self.lo, self.hi)


class Enc(Atom):
    __slots__ = ('t', 'w', 'lo', 'hi')

    def __init__(self, t, w, lo=0, hi=None):
        self.t, self.w, self.lo, self.hi = t, w, lo, (w if hi is None else hi)

    @property
    def len(self):
        return self.hi - self.lo

    def key(self):
        return ('E', tkey(self.t), self.w, self.lo, self.hi)

    def cls(self):
        return ALL

    def value(self):
        """integer value of the covered bytes"""
        t = self.t
        if isc(t):
            return (t >> (8 * (self.w - self.hi))) % (1 << (8 * (self.hi - self.lo)))
        if self.hi < self.w:
            t = t / (1 << (8 * (self.w - self.hi)))
        if self.lo > 0:
            t = t % (1 << (8 * (self.hi - self.lo)))
        return simp(t)

    def __repr__(self):
        s = 'be%d(%s)' % (self.w * 8, self.t)
        if (self.lo, self.hi) != (0, self.w):
            s += '[%d:%d]' % (self.lo, self.hi)
        return s


DECLEN = z3.Function('declen', z3.IntSort(), z3.IntSort())
DECAT = z3.Function('decat', z3.IntSort(), z3.IntSort(), z3.IntSort())


class Dec(Atom):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    @property
    def len(self):
        return len(str(self.t)) if isc(self.t) else DECLEN(self.t)

    def key(self):
        return ('D', tkey(self.t))

    def cls(self):
        return DECCLS

    def __repr__(self):
        return 'dec(%s)' % (self.t,)


class Rep(Atom):
    __slots__ = ('c', 'n')

    def __init__(self, c, n):
        self.c, self.n = c, n

    @property
    def len(self):
        return self.n

    def key(self):
        return ('R', self.c, tkey(self.n))

    def cls(self):
        return 1 << self.c

    def __repr__(self):
        return 'rep(%d,%s)' % (self.c, self.n)


class Gen:
    """symbolic family of values indexed by an integer (an iteration or element
    number); fn(index) -> value.  Identity by key."""
    __slots__ = ('name', 'fn', 'k', 'info')

    def __init__(self, name, fn, key=None, info=None):
        self.name, self.fn, self.k, self.info = name, fn, key or name, info

    def at(self, i):
        return self.fn(i)

    def __repr__(self):
        return self.name


class Fold(Atom):
    """concatenation over j in [lo,hi) of gen.at(j) -> list of (cond, Rope)"""
    __slots__ = ('g', 'lo', 'hi')

    def __init__(self, g, lo, hi):
        self.g, self.lo, self.hi = g, lo, hi

    @property
    def len(self):
        f = z3.Function('foldlen_' + self.g.name, z3.IntSort(), z3.IntSort(), z3.IntSort())
        return f(T(self.lo), T(self.hi))

    def key(self):
        return ('F', self.g.k, tkey(self.lo), tkey(self.hi))

    def cls(self):
        return (self.g.info or {}).get('cls', ALL)

    def __repr__(self):
        return 'fold(%s,%s,%s)' % (self.g, self.lo, self.hi)


class Rope:
    __slots__ = ('a', '_k')

    def __init__(self, atoms=()):
        self.a = tuple(atoms)
        self._k = None

    def key(self):
        if self._k is None:
            self._k = tuple(x.key() for x in self.a)
        return self._k

    def concrete(self):
        """bytes or None"""
        if not self.a:
            return b''
        if len(self.a) == 1 and isinstance(self.a[0], Lit):
            return self.a[0].b
        return None

    def __repr__(self):
        return '<' + ' '.join(map(repr, self.a)) + '>'


EMPTY = Rope()


def lit(b):
    if isinstance(b, str):
        b = b.encode()
    return Rope((Lit(b),)) if b else EMPTY


def sym(v):
    return Rope((Seg(v),))


def mk(atoms):
    """normalising constructor (no bindings)"""
    out = []
    for x in atoms:
        if isinstance(x, Enc):
            if x.lo >= x.hi:
                continue
            if isc(x.t):
                x = Lit(x.t.to_bytes(x.w, 'big')[x.lo:x.hi])
        elif isinstance(x, Dec):
            if isc(x.t):
                x = Lit(str(int(x.t)).encode())
        elif isinstance(x, Rep):
            if isc(x.n):
                if x.n <= 0:
                    continue
                if x.n <= 4096:
                    x = Lit(bytes([x.c]) * x.n)
        elif isinstance(x, Seg):
            if tkey(x.lo) == tkey(x.hi):
                continue
        elif isinstance(x, Fold):
            if tkey(x.lo) == tkey(x.hi):
                continue
        elif isinstance(x, Lit) and not x.b:
            continue
        if out:
            p = out[-1]
            if isinstance(x, Lit) and isinstance(p, Lit):
                out[-1] = Lit(p.b + x.b)
                continue
            if isinstance(x, Seg) and isinstance(p, Seg) and x.v.key == p.v.key and tkey(p.hi) == tkey(x.lo):
                out[-1] = Seg(x.v, p.lo, x.hi)
                continue
            if isinstance(x, Enc) and isinstance(p, Enc) and x.w == p.w and p.hi == x.lo and tkey(p.t) == tkey(x.t):
                out[-1] = Enc(x.t, x.w, p.lo, x.hi)
                continue
            if isinstance(x, Rep) and isinstance(p, Rep) and x.c == p.c:
                out[-1] = Rep(x.c, add(p.n, x.n))
                continue
            if isinstance(x, Fold) and isinstance(p, Fold) and x.g.k == p.g.k and tkey(p.hi) == tkey(x.lo):
                out[-1] = Fold(x.g, p.lo, x.hi)
                continue
        out.append(x)
    return Rope(out)


def cat(*ropes):
    at = []
    for r in ropes:
        if isinstance(r, (bytes, str)):
            r = lit(r)
        at.extend(r.a)
    return mk(at)


def rlen(r):
    n = 0
    for x in r.a:
        n = add(n, x.len)
    return n


def dec(t):
    return mk((Dec(t),))


def be(t, w):
    return mk((Enc(t, w),))


def rep(c, n):
    return mk((Rep(c, n),))
