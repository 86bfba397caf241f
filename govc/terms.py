"""Integers and booleans: Python values when concrete, z3 terms otherwise.

Machine integers are represented by mathematical integers that are kept inside
the range of their Go type: every operation that may leave the range is wrapped
explicitly (engine.wrap), so two's-complement overflow is modelled exactly.
"""
import z3

z3.set_param('smt.random_seed', 1)
z3.set_param('sat.random_seed', 1)


def isc(x):
    return isinstance(x, (int, bool))


def T(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    return x


def simp(x):
    if isc(x):
        return x
    x = z3.simplify(x)
    if z3.is_true(x):
        return True
    if z3.is_false(x):
        return False
    if z3.is_int_value(x):
        return x.as_long()
    return x


def add(a, b):
    if isc(a) and isc(b):
        return a + b
    if isc(b) and b == 0:
        return a
    if isc(a) and a == 0:
        return b
    return simp(T(a) + T(b))


def sub(a, b):
    if isc(a) and isc(b):
        return a - b
    if isc(b) and b == 0:
        return a
    return simp(T(a) - T(b))


def mul(a, b):
    if isc(a) and isc(b):
        return a * b
    return simp(T(a) * T(b))


def eq(a, b):
    if isc(a) and isc(b):
        return a == b
    return simp(T(a) == T(b))


def ne(a, b):
    return not_(eq(a, b))


def lt(a, b):
    if isc(a) and isc(b):
        return a < b
    return simp(T(a) < T(b))


def le(a, b):
    if isc(a) and isc(b):
        return a <= b
    return simp(T(a) <= T(b))


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def not_(a):
    if isc(a):
        return not a
    return simp(z3.Not(a))


def and_(*xs):
    r = []
    for x in xs:
        if isc(x):
            if not x:
                return False
        else:
            r.append(x)
    if not r:
        return True
    return r[0] if len(r) == 1 else z3.And(*r)


def or_(*xs):
    r = []
    for x in xs:
        if isc(x):
            if x:
                return True
        else:
            r.append(x)
    if not r:
        return False
    return r[0] if len(r) == 1 else z3.Or(*r)


def implies(a, b):
    return or_(not_(a), b)


def ite(c, a, b):
    if isc(c):
        return a if c else b
    return z3.If(c, T(a), T(b))


def tkey(x):
    if isc(x):
        return str(x)
    return x.sexpr()


def subst(x, pairs):
    if isc(x):
        return x
    return simp(z3.substitute(x, *[(a, T(b)) for a, b in pairs]))


INTS = {}
for _w in (8, 16, 32, 64):
    INTS['int%d' % _w] = (_w, True)
    INTS['uint%d' % _w] = (_w, False)
INTS['int'] = (64, True)
INTS['uint'] = (64, False)
INTS['uintptr'] = (64, False)
INTS['byte'] = (8, False)
INTS['rune'] = (32, True)
INTS['untyped int'] = (64, True)
INTS['untyped rune'] = (32, True)


def irange(name):
    w, s = INTS[name]
    if s:
        return -(1 << (w - 1)), (1 << (w - 1)) - 1
    return 0, (1 << w) - 1
