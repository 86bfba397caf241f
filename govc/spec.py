"""Contract files: parsing and evaluation.

Contracts are //@ lines in /verif/contracts/*.contract, keyed by the exported
function they specify.  Expressions use Python syntax and are evaluated over
the values of the verifier (symbolic) or of an execution (concrete).
"""
import ast
import glob
import os
import re
import z3
from terms import *
from rope import *
from engine import *


class Clause:
    def __init__(self, kind, tags, text, src):
        self.kind, self.tags, self.text, self.src = kind, tags, text, src
        self.expr = ast.parse(text.strip(), mode='eval').body


class Behavior:
    def __init__(self, name):
        self.name = name
        self.vars, self.when, self.reply, self.ensures = [], [], None, []
        self.adversarial = False
        self.sends = None
        self.answer = None
        self.extra = {}


class Contract:
    def __init__(self, target, params, results, src):
        self.target, self.params, self.results, self.src = target, params, results, src
        self.requires, self.sends, self.behaviors, self.ensures = [], None, [], []
        self.request = None
        self.extra = {}


def repeat(items):
    """'for A B = x y | u v' ... 'end' repeats its lines with $A, $B replaced"""
    out, i = [], 0
    while i < len(items):
        n, l = items[i]
        m = re.match(r'for\s+([\w ]+?)\s*=\s*(.*)$', l)
        if not m:
            out.append(items[i])
            i += 1
            continue
        names, rows = m.group(1).split(), [r.split() for r in m.group(2).split('|')]
        j = i + 1
        while items[j][1].strip() != 'end':
            j += 1
        for r in rows:
            for n2, l2 in items[i + 1:j]:
                for a, b in zip(names, r):
                    l2 = l2.replace('$' + a, b)
                out.append([n2, l2])
        i = j + 1
    return out


class Spec:
    def __init__(self):
        self.defs, self.contracts = {}, {}
        self.lemmas = []

    def load(self, path):
        lines = []
        with open(path) as f:
            for n, l in enumerate(f, 1):
                l = l.rstrip('\n')
                if not l.startswith('//@'):
                    continue
                l = l[3:]
                if not l.strip():
                    continue
                lines.append((n, l))
        # join continuation lines (a line whose first word is no keyword)
        KW = {'define', 'contract', 'requires', 'sends', 'behavior', 'with', 'when', 'reply', 'ensures',
              'adversarial', 'option', 'request', 'answer', 'for', 'end'}
        items = []
        for n, l in lines:
            w = re.match(r'\s*([a-z_]+)', l)
            if w and w.group(1) in KW:
                items.append([n, l.strip()])
            else:
                items[-1][1] += ' ' + l.strip()
        items = repeat(items)
        cur = beh = None
        base = os.path.basename(path)
        for n, l in items:
            src = '%s:%d' % (base, n)
            try:
                m = re.match(r'([a-z_]+)(?:\[([^\]]*)\])?\s*(.*)$', l, re.S)
                kw, tags, rest = m.group(1), m.group(2), m.group(3)
                tags = [t.strip() for t in tags.split(',')] if tags else []
                if kw == 'define':
                    d = re.match(r'(\w+)\s*\(([^)]*)\)\s*=\s*(.*)$', rest, re.S)
                    self.defs[d.group(1)] = ([a.strip() for a in d.group(2).split(',') if a.strip()], ast.parse(d.group(3).strip(), mode='eval').body)
                elif kw == 'contract':
                    d = re.match(r'([\w./]+)\s*\(([^)]*)\)\s*(?:\(([^)]*)\))?$', rest)
                    ps = []
                    for a in d.group(2).split(','):
                        if a.strip():
                            nm, _, ty = a.partition(':')
                            ps.append((nm.strip(), ty.strip()))
                    rs = [x.strip() for x in (d.group(3) or '').split(',') if x.strip()]
                    cur = Contract(d.group(1), ps, rs, src)
                    beh = None
                    self.contracts[cur.target] = cur
                elif kw == 'behavior':
                    beh = Behavior(rest.strip())
                    cur.behaviors.append(beh)
                elif kw == 'adversarial':
                    beh = Behavior('any' + (('_' + rest.strip()) if rest.strip() else ''))
                    beh.adversarial = True
                    cur.behaviors.append(beh)
                elif kw == 'with':
                    for a in rest.split(','):
                        nm, _, ty = a.partition(':')
                        beh.vars.append((nm.strip(), ty.strip()))
                elif kw == 'when':
                    beh.when.append(Clause(kw, tags, rest, src))
                elif kw == 'reply':
                    beh.reply = Clause(kw, tags, rest, src)
                elif kw == 'sends':
                    (beh or cur).sends = Clause(kw, tags, rest, src)
                elif kw == 'request':
                    cur.request = Clause(kw, tags, rest, src)
                elif kw == 'answer':
                    beh.answer = Clause(kw, tags, rest, src)
                elif kw == 'requires':
                    cur.requires.append(Clause(kw, tags, rest, src))
                elif kw == 'ensures':
                    (beh or cur).ensures.append(Clause(kw, tags, rest, src))
                elif kw == 'option':
                    k, _, v = rest.partition(' ')
                    (beh or cur).extra[k] = v.strip()
            except Exception as e:
                raise SystemExit('%s: %s\n  %s' % (src, e, l))

    @staticmethod
    def all(d):
        s = Spec()
        for p in sorted(glob.glob(os.path.join(d, '*.contract'))):
            s.load(p)
        return s


class Fam:
    """indexed family of specification variables"""

    def __init__(self, at, concrete=None):
        self.at = at
        self.vals = concrete


class Range:
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi


class SpecError(Exception):
    pass


CURRENT = {'st': None}


class Ev:
    """expression evaluation in a state"""

    def __init__(self, spec, st, env, I):
        self.spec, self.st, self.env, self.I = spec, st, env, I

    def truth(self, v):
        if isinstance(v, bool):
            return v
        if z3.is_expr(v) and z3.is_bool(v):
            return self.st.decide(v)
        raise SpecError('not a truth value: %r' % (v,))

    def ev(self, e, env=None):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise SpecError('expression ' + type(e).__name__)
        return m(e, self.env if env is None else env)

    def e_Constant(self, e, env):
        v = e.value
        if isinstance(v, str):
            return lit(v.encode('latin-1'))
        if isinstance(v, bytes):
            return lit(v)
        return v

    def e_Name(self, e, env):
        if e.id in env:
            return env[e.id]
        if e.id in ('nil', 'None'):
            return None
        if e.id == 'CRLF':
            return lit(b'\r\n')
        if e.id in ('ItemNotFound', 'ItemExists'):
            return self.sentinel(e.id)
        raise SpecError('name ' + e.id)

    def sentinel(self, n):
        p = self.I.globalptr(self.st, self.I.p.module + '/errors.' + n)
        v = self.st.load(p)
        return IfaceV('*' + self.I.p.module + '/errors.MemcachedError', v)

    def e_BoolOp(self, e, env):
        if isinstance(e.op, ast.And):
            for x in e.values:
                if not self.truth(self.ev(x, env)):
                    return False
            return True
        for x in e.values:
            if self.truth(self.ev(x, env)):
                return True
        return False

    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            return not self.truth(v)
        if isinstance(e.op, ast.USub):
            return sub(0, v)
        raise SpecError('unary')

    def e_BinOp(self, e, env):
        a, b = self.ev(e.left, env), self.ev(e.right, env)
        if isinstance(e.op, ast.Add):
            if isinstance(a, (Rope, SliceV)) or isinstance(b, (Rope, SliceV)):
                return cat(self.rope(a), self.rope(b))
            if isinstance(a, list):
                return a + b
            return add(a, b)
        if isinstance(e.op, ast.Sub):
            return sub(a, b)
        if isinstance(e.op, ast.Mult):
            return mul(a, b)
        if isinstance(e.op, ast.Pow):
            return a ** b
        if isinstance(e.op, ast.Mod):
            if isc(a) and isc(b):
                return a % b
            return simp(T(a) % T(b))
        if isinstance(e.op, ast.FloorDiv):
            if isc(a) and isc(b):
                return a // b
            return simp(T(a) / T(b))
        raise SpecError('operator')

    def rope(self, v):
        if isinstance(v, Rope):
            return self.st.norm(v)
        if isinstance(v, SliceV):
            return self.st.srope(v)
        raise SpecError('not bytes: %r' % (v,))

    def e_Compare(self, e, env):
        l = self.ev(e.left, env)
        for op, r in zip(e.ops, e.comparators):
            r = self.ev(r, env)
            if not self.truth(self.cmp(op, l, r)):
                return False
            l = r
        return True

    def cmp(self, op, a, b):
        if isinstance(op, ast.Eq):
            return self.equal(a, b)
        if isinstance(op, ast.NotEq):
            return not self.truth(self.equal(a, b))
        if isinstance(op, ast.Lt):
            return lt(a, b)
        if isinstance(op, ast.LtE):
            return le(a, b)
        if isinstance(op, ast.Gt):
            return lt(b, a)
        if isinstance(op, ast.GtE):
            return le(b, a)
        if isinstance(op, ast.In):
            for x in b:
                if self.truth(self.equal(a, x)):
                    return True
            return False
        if isinstance(op, ast.NotIn):
            for x in b:
                if self.truth(self.equal(a, x)):
                    return False
            return True
        raise SpecError('comparison')

    def equal(self, a, b):
        if isinstance(a, (Rope, SliceV)) and isinstance(b, (Rope, SliceV)):
            return self.st.req(self.rope(a), self.rope(b))
        if b is None and isinstance(a, SliceV):
            return a.base is None
        if a is None or b is None:
            return a is None and b is None
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if len(a) != len(b):
                return False
            for x, y in zip(a, b):
                if not self.truth(self.equal(x, y)):
                    return False
            return True
        if isinstance(a, Rope) or isinstance(b, Rope):
            return False
        return veq(self.st, a, b)

    def e_IfExp(self, e, env):
        return self.ev(e.body if self.truth(self.ev(e.test, env)) else e.orelse, env)

    def e_Tuple(self, e, env):
        return [self.ev(x, env) for x in e.elts]

    e_List = e_Tuple

    def e_Attribute(self, e, env):
        v = self.ev(e.value, env)
        return self.attr(v, e.attr)

    def attr(self, v, name):
        if isinstance(v, dict):
            return v[name]
        if isinstance(v, IfaceV):
            v = v.v
        if isinstance(v, Ptr):
            v = self.st.load(v)
        if isinstance(v, StructV):
            return v.f[self.I.p.fieldidx(v.t, name)]
        if v is None:
            raise SpecError('field %s of nil' % name)
        raise SpecError('field %s of %r' % (name, v))

    def e_Subscript(self, e, env):
        v = self.ev(e.value, env)
        if isinstance(e.slice, ast.Slice):
            lo = self.ev(e.slice.lower, env) if e.slice.lower else 0
            if isinstance(v, list):
                hi = self.ev(e.slice.upper, env) if e.slice.upper else len(v)
                return v[lo:hi]
            r = self.rope(v)
            hi = self.ev(e.slice.upper, env) if e.slice.upper else rlen(r)
            return self.st.sub_rope(r, lo, hi)
        i = self.ev(e.slice, env)
        if isinstance(v, Fam):
            return v.at(i)
        if isinstance(v, list):
            return v[i]
        if isinstance(v, SliceV):
            b = self.st.sbase(v)
            if isinstance(b, BArr):
                return self.st.byte_at(self.st.srope(v), i)
            return self.st.lget(self.st.slist(v), i)
        if isinstance(v, Rope):
            return self.st.byte_at(v, i)
        raise SpecError('index of %r' % (v,))

    def aslist(self, v):
        """concrete Python list of the elements"""
        if isinstance(v, list):
            return v
        if isinstance(v, SliceV):
            if v.base is None:
                return []
            l = self.st.slist(v)
            out = []
            for x in l.a:
                if isinstance(x, EL):
                    out.append(x.v)
                    continue
                if isinstance(x, LSeg):
                    lo = x.lo
                    while self.st.decide(lt(lo, x.hi)):
                        out.append(x.g.at(lo))
                        lo = add(lo, 1)
                        if len(out) > 64:
                            raise Unsupported('symbolic list in a specification')
                    continue
                raise Unsupported('symbolic list in a specification')
            return out
        if isinstance(v, Range):
            if isc(v.lo) and isc(v.hi):
                return list(range(v.lo, v.hi))
        raise SpecError('not a list: %r' % (v,))

    def comp(self, e, env):
        g = e.generators[0]
        it = self.ev(g.iter, env)
        if isinstance(it, Range) and not (isc(it.lo) and isc(it.hi)):
            return it, g
        return self.aslist(it), g

    def e_GeneratorExp(self, e, env):
        it, g = self.comp(e, env)
        if isinstance(it, Range):
            return SymComp(self, e, env, it, g)
        out = []
        for x in it:
            env2 = dict(env)
            env2[g.target.id] = x
            if all(self.truth(self.ev(c, env2)) for c in g.ifs):
                out.append(self.ev(e.elt, env2))
        return out

    e_ListComp = e_GeneratorExp

    def e_Call(self, e, env):
        n = e.func.id if isinstance(e.func, ast.Name) else None
        if n is None:
            raise SpecError('call')
        if n == 'implies':
            if not self.truth(self.ev(e.args[0], env)):
                return True
            return self.ev(e.args[1], env)
        if n in self.spec.defs:
            ps, body = self.spec.defs[n]
            if len(ps) != len(e.args):
                raise SpecError('arity of ' + n)
            env2 = {k: v for k, v in self.env.items()}
            for p, a in zip(ps, e.args):
                env2[p] = self.ev(a, env)
            return self.ev(body, env2)
        f = getattr(self, 'f_' + n, None)
        if f is None:
            if n in env and callable(env[n]):
                return env[n](*[self.ev(a, env) for a in e.args])
            raise SpecError('function ' + n)
        return f(*[self.ev(a, env) for a in e.args])

    # ---- functions
    def f_len(self, v):
        if isinstance(v, Rope):
            return self.I.models.length(self.st, v)
        if isinstance(v, SliceV):
            return v.ln
        if isinstance(v, (list, dict)):
            return len(v)
        if v is None:
            return 0
        if isinstance(v, Ptr) and isinstance(self.st.load(v), MapV):
            return len(self.st.load(v).e)
        raise SpecError('len of %r' % (v,))

    def f_dec(self, n):
        if not isc(n):
            self.st.decfacts(n)
        return mk((Dec(n),))

    def f_be8(self, n):
        return be(n, 1)

    def f_be16(self, n):
        return be(n, 2)

    def f_be32(self, n):
        return be(n, 4)

    def f_be64(self, n):
        return be(n, 8)

    def f_zeros(self, n):
        return rep(0, n)

    def f_u32of(self, v):
        from models import rope_uint
        return rope_uint(self.st, self.rope(v))

    def f_range(self, a, b=None):
        return Range(0, a) if b is None else Range(a, b)

    def f_concat(self, l):
        if isinstance(l, SymComp):
            return mk((Fold(l.ropegen(), l.r.lo, l.r.hi),))
        out = [self.rope(x) for x in l]
        return cat(*out)

    def f_join(self, sep, l):
        if isinstance(l, Fam) and l.vals is not None:
            l = l.vals
        elif isinstance(l, Fam):
            n = self.env['n']
            if isc(n):
                l = [l.at(i) for i in range(n)]
            else:
                import models
                return models.joinfam(self.st, l, sep, n)
        if isinstance(l, SliceV):
            arr = self.st.slist(l) if l.base is not None else LArr((), None)
            if any(isinstance(x, LSeg) for x in arr.a):
                import models
                return models.CONTRACTS['strings.Join'](self.I, self.st, [l, sep], None)
        l = self.aslist(l)
        out = []
        for k, x in enumerate(l):
            if k:
                out.append(sep)
            out.append(self.rope(x))
        return cat(*out)

    def f_startswith(self, a, b):
        return self.st.starts(self.rope(a), self.rope(b))

    def f_endswith(self, a, b):
        return self.st.ends(self.rope(a), self.rope(b))

    def f_all(self, l):
        for x in l:
            if not self.truth(x):
                return False
        return True

    def f_any(self, l):
        for x in l:
            if self.truth(x):
                return True
        return False

    def f_str(self, v):
        return self.rope(v)

    def f_isnil(self, v):
        return v is None or (isinstance(v, SliceV) and v.base is None)

    def f_memcached_error(self, e):
        """one of the module's own error values"""
        return isinstance(e, IfaceV) and e.t == '*' + self.I.p.module + '/errors.MemcachedError'

    def f_contains(self, v, c):
        """v contains the one-byte string c"""
        return self.st.find(self.rope(v), self.rope(c).concrete()[0]) is not None


class SymComp:
    """comprehension over a symbolic range"""
    count = 0

    def __init__(self, ev, e, env, r, g):
        self.ev, self.e, self.env, self.r, self.g = ev, e, env, r, g

    def key(self):
        return ('comp', ast.dump(self.e), id(self.env))

    def ropegen(self):
        ev, e, g, env = self.ev, self.e, self.g, self.env

        def one(x, env2):
            if isinstance(x, ast.IfExp):
                c = ev.ev(x.test, env2)
                return [(c, r) if k == 0 and c2 is True else (and_(c, c2), r)
                        for k, (c2, r) in enumerate(one(x.body, env2))] + one(x.orelse, env2)
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ev.spec.defs \
                    and isinstance(ev.spec.defs[x.func.id][1], ast.IfExp):
                ps, body = ev.spec.defs[x.func.id]
                env3 = dict(ev.env)
                for p, a in zip(ps, x.args):
                    env3[p] = ev.ev(a, env2)
                return one(body, env3)
            return [(True, ev.rope(ev.ev(x, env2)))]

        def at(i):
            env2 = dict(env)
            env2[g.target.id] = i
            old = ev.st
            ev.st = CURRENT['st'] or old
            try:
                r = one(e.elt, env2)
                if g.ifs:
                    c = ev.ev(g.ifs[0], env2)
                    r = [(and_(c, c2), x) for c2, x in r] + [(True, EMPTY)]
                return r
            finally:
                ev.st = old
        k = self.key()
        return Gen('g%d' % (abs(hash(k)) % 10**8), at, key=k)
