"""Concrete side: cases derived from the contracts, run on the real code, and
judged by the same clauses the verifier discharges."""
import base64
import itertools
import json
import os
import random
import re
import subprocess
import z3
import spec
import verify
from terms import *
from rope import *
from engine import *
from spec import Ev, Fam, SpecError
from verify import MOD, RANGES


def b64(b):
    return base64.b64encode(b).decode()


def unb(s):
    return base64.b64decode(s)


KEYS = [b'k', b'foo', b'K' * 250, b'a-b:1', b'END', b'VALUE', b'0', b'\xc3\xa9\xff', b'HD', b'%d', b'k' * 32]
VALUES = [b'', b'x', b'bar', b'\r\n', b'END\r\n', b'VALUE a 0 1 2\r\nx\r\nEND\r\n', b'\x00' * 9, b'\x81' + b'\x00' * 23,
          b'v' * 4095, b'v' * 4096, b'v' * 4098, bytes(range(256)) * 48, b'-1', b'123', b'MN\r\n', b'\n', b'\r',
          b'w' * 65537]
LINES = [b'', b'x', b'out of memory storing object', b' ', b'  a  ', b'OK2', b'END', b'1.6.24', b'0', b'-1', b'HD', b'k', b'l' * 300,
         b'STORED', b'VERSION', b'NOT_FOUND', b'EXISTS', b'bad data chunk', b'\x80\xff', b'EN', b'NF', b'ST', b'VA']
INTS_ = [0, 1, 2, 7, 10, 255, 256, 65535, 65536, 86400, 2**31 - 1, 2**31, 0x01020304, 2**32 - 1, 2**32, 0x0102030405060708,
         2**62, 2**63 - 1, 2**63, 2**64 - 1, -1, -2**31, -86400, 3, 4, 5, 6, 8, 9]


def domain(ty):
    m = re.match(r'^(.*)\[(.*)\]$', ty)
    if m:
        ty = m.group(1)
    if ty in ('key', 'token'):
        return KEYS
    if ty == 'bytes':
        return VALUES
    if ty == 'line':
        return LINES
    if ty == 'linecr':
        return LINES + [b'\r', b'a\rb']
    if ty == 'text':
        return [x for x in LINES if x and b' ' not in x]
    if ty == 'digits':
        return [b'0', b'7', b'007', b'12345', b'9' * 20]
    if ty == 'bool':
        return [True, False]
    if ty == 'unused':
        return [0]
    lo, hi = RANGES[ty]
    return [x for x in INTS_ if lo <= x <= hi]


def sval(v):
    return lit(v) if isinstance(v, bytes) else v


class Pick:
    """one choice of values per variable"""

    def __init__(self, vals):
        self.v = vals


def family(name, vals):
    f = Fam(lambda i: sval(vals[i]), concrete=[sval(x) for x in vals])
    f.name = name
    return f


class CaseGen:
    """concrete cases of one unit"""

    def __init__(self, W, S, unit, rnd, count):
        self.W, self.S, self.u, self.rnd, self.count = W, S, unit, rnd, count
        self.c, self.beh = unit.c, unit.beh

    def choices(self, beh=None):
        """variable name -> type of everything to be chosen"""
        out = []
        for nm, ty in self.c.params:
            if ty == 'item':
                out += [(nm + '.Key', 'key'), (nm + '.Value', 'bytes'), (nm + '.Expiration', 'exp'), (nm + '.Cas', 'u64')]
                if (self.u.flagcase or 'four') == 'four':
                    out.append((nm + '.flags', 'u32'))
            elif ty == 'keys':
                out.append((nm, 'key[n]'))
            else:
                out.append((nm, ty))
        for nm, ty in (beh or self.beh).vars:
            out.append((nm, ty))
        return out

    def one(self, ty, k, n):
        d = domain(ty)
        if ty.endswith(']'):
            if ty.startswith('key'):
                ks = self.rnd.sample(d, min(n, len(d)))
                return ks + [b'kk%d' % i for i in range(n - len(ks))]
            if ty.startswith('bool'):
                return [bool((k >> i) & 1) for i in range(n)]
            return [d[(k + i) % len(d)] for i in range(n)]
        return d[k % len(d)]

    def assignments(self, beh=None, count=None):
        ch = self.choices(beh)
        n = self.u.n if self.u.n is not None else 2
        seen = 0
        cnt = count or self.count
        # every value of every variable once, then random combinations
        base = {nm: self.one(ty, 2, n) for nm, ty in ch}
        yield n, dict(base)
        todo = [(nm, ty, k) for nm, ty in ch for k in range(len(domain(ty)) if not ty.startswith('bool[') else 1 << n)]
        self.rnd.shuffle(todo)
        for nm, ty, k in todo[:cnt]:
            a = dict(base)
            a[nm] = self.one(ty, k, n)
            yield n, a
        for _ in range(cnt):
            a = {nm: self.one(ty, self.rnd.randrange(1 << 16), n) for nm, ty in ch}
            yield n, a

    def vary(self, a, n):
        """an earlier operation on the same keys: some of the rest is different"""
        b = dict(a)
        for nm, ty in self.choices():
            if not ty.startswith('key') and self.rnd.random() < .6:
                b[nm] = self.one(ty, self.rnd.randrange(1 << 16), n)
        return b

    def many(self):
        """long lists of keys: beyond the lengths the verifier unrolls"""
        ch = self.choices()
        for n in list(range(4, 18)) + [31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300]:
            for k in range(3):
                a = {}
                for nm, ty in ch:
                    if ty.startswith('bool['):
                        a[nm] = [[True] * n, [bool(self.rnd.getrandbits(1)) for _ in range(n)], [i == n - 1 for i in range(n)]][k]
                    elif ty.startswith('bytes['):
                        a[nm] = [self.rnd.choice(VALUES[:7]) for _ in range(n)]
                    else:
                        a[nm] = self.one(ty, self.rnd.randrange(1 << 16), n)
                yield n, a

    def env(self, a, n):
        """specification environment and driver arguments of an assignment"""
        env, args = {'n': n}, {}
        flagcase = self.u.flagcase or 'four'
        for nm, ty in self.c.params:
            if ty == 'item':
                fl = {'nil': None, 'empty': b''}.get(flagcase)
                flags = 0
                if flagcase == 'four':
                    flags = a[nm + '.flags']
                    fl = flags.to_bytes(4, 'big')
                env[nm] = {'Key': lit(a[nm + '.Key']), 'Value': lit(a[nm + '.Value']), 'Flags': lit(fl or b''), 'flags': flags,
                           'Expiration': a[nm + '.Expiration'], 'Cas': a[nm + '.Cas'], 'Server': lit(b''),
                           'hasflags': flagcase == 'four'}
                args['item'] = {'Key': b64(a[nm + '.Key']), 'Value': b64(a[nm + '.Value']), 'Server': '',
                                'Flags': None if fl is None else b64(fl), 'Expiration': a[nm + '.Expiration'],
                                'Cas': str(a[nm + '.Cas'])}
            elif ty == 'keys':
                env[nm] = family(nm, a[nm])
                args['keys'] = [b64(k) for k in a[nm]]
            else:
                v = a[nm]
                env[nm] = sval(v)
                args[nm] = b64(v) if isinstance(v, bytes) else str(v)
        return env, args

    def behenv(self, env, a, beh):
        e = dict(env)
        for nm, ty in beh.vars:
            v = a[nm]
            e[nm] = family(nm, v) if ty.endswith(']') else sval(v)
        return e


class Concrete:
    """judges results of the driver"""

    def __init__(self, W, S):
        self.W, self.S = W, S
        self.I = W.interp()

    def state(self):
        return self.W.start(self.I)

    def ev(self, st, env):
        spec.CURRENT['st'] = st
        return Ev(self.S, st, env, self.I)

    def conv(self, st, t, j):
        """value of a dump"""
        p = self.W.p
        d = p.under(t)
        k = d['kind']
        if k == 'basic':
            if j is None:
                return p.zero(t)
            if 's' in j:
                return lit(unb(j['s']))
            if 'i' in j:
                return int(j['i'])
            return j['t']
        if k == 'slice':
            if j is None:
                return NILSLICE
            if 'b' in j:
                b = unb(j['b'])
                return SliceV(Ptr(st.new(BArr(lit(b)))), 0, len(b), len(b))
            l = [EL(self.conv(st, d['elem'], x)) for x in j['l']]
            return SliceV(Ptr(st.new(LArr(l, d['elem']))), 0, len(l), len(l))
        if k == 'map':
            if j is None:
                return None
            return {self.conv(st, d['key'], a).concrete(): self.conv(st, d['elem'], b) for a, b in j['m']}
        if k == 'pointer':
            if j is None:
                return None
            return Ptr(st.new(self.conv(st, d['elem'], j)))
        if k == 'struct':
            return StructV(t, [self.conv(st, f['type'], j['f'].get(f['name'])) for f in d['fields']])
        if k == 'interface':
            if j is None:
                return None
            if 'e' in j:
                if j['e'] in ('ItemNotFound', 'ItemExists'):
                    return self.ev(st, {}).sentinel(j['e'])
                if j['e'] == 'memcached':
                    return IfaceV('*' + MOD + '/errors.MemcachedError', Ptr(st.new(Opaque('other'))))
                return IfaceV('error', Opaque(j['msg']))
        if k == 'array' and j is not None and 'b' in j:
            return BArr(lit(unb(j['b'])))
        raise SpecError('cannot convert %s' % t)


def show_reply(b):
    return repr(b if len(b) <= 300 else b[:200] + b'...(%d bytes)' % len(b))


class ClientCases(CaseGen):
    """cases of one client unit"""

    def build(self, K):
        u, beh, c = self.u, self.beh, self.c
        st = K.state()
        out = []
        op = u.op
        if beh.adversarial:
            bases = []
            for b in c.behaviors:
                if b.adversarial:
                    continue
                for i, (n, a) in enumerate(self.assignments(b, 3)):
                    if i >= 3 and i != 5:
                        continue
                    x = self.reply(K, st, b, n, a)
                    if x is not None:
                        bases.append((x, n, a))
            small = [x for x in bases if len(x[0][2]) < 400]
            for k in range(self.count * 3):
                (env, args, rp, sends), n, a = self.rnd.choice(small if self.rnd.random() < .8 and small else bases)
                m = mutate(rp, self.rnd, k)
                if u.tname == 'ServerWithBinaryProtocol':
                    m = tame(m)
                out.append(self.case(env, args, m, sends, True, a))
            for (env, args, rp, sends), n, a in small:
                for cut in range(0, len(rp), max(1, len(rp) // 40)):
                    out.append(self.case(env, args, rp[:cut], sends, True, a))
            return out
        seen = set()
        for n, a in self.assignments():
            x = self.reply(K, st, beh, n, a)
            if x is None:
                continue
            env, args, rp, sends = x
            k = (json.dumps(args, sort_keys=True), rp)
            if k in seen:
                continue
            seen.add(k)
            out.append(self.case(env, args, rp, sends, False, a))
            if len(out) >= self.count:
                break
            if 'malformed' in beh.extra or len(rp) > 5000 or self.rnd.random() < .5:
                continue
            y = self.reply(K, st, beh, n, self.vary(a, n))
            if y is not None and len(y[2]) < 5000:
                c0, c1 = self.case(*y, False, a), self.case(env, args, rp, sends, False, a)
                c1['data']['steps'] = c0['data']['steps'] + c1['data']['steps']
                c1['data']['hist'] = True
                out.append(c1)
        if u.n == 3:
            for n, a in self.many():
                x = self.reply(K, st, beh, n, a)
                if x is not None:
                    env, args, rp, sends = x
                    out.append(self.case(env, args, rp, sends, False, a))
        return out

    def reply(self, K, st, beh, n, a):
        env, args = self.env(a, n)
        e = self.behenv(env, a, beh)
        e['s'] = {'name': lit(b'srv')}
        ev = K.ev(st, e)
        try:
            for q in self.c.requires + beh.when:
                if not ev.truth(ev.ev(q.expr)):
                    return None
            rp = ev.rope(ev.ev(beh.reply.expr)).concrete()
            s = beh.sends or self.c.sends
            sends = ev.rope(ev.ev(s.expr)).concrete() if s is not None else None
        except OverflowError:
            return None
        return e, args, rp, sends

    def case(self, env, args, rp, sends, close, a):
        chunk = self.rnd.choice([0, 0, 0, 1, 7]) if len(rp) < 2000 else 0
        step = {'op': self.u.op, 'reply': b64(rp), 'expect': len(sends or b''), 'close': close, 'chunk': chunk,
                'key': args.get('key', ''), 'keys': args.get('keys', []), 'item': args.get('item'),
                'delta': args.get('delta', '0'), 'exp': args.get('exp', '0')}
        d = {'proto': PROTO[self.u.tname], 'name': b64(b'srv'), 'timeout': 0, 'steps': [step],
             'noise': not close and self.rnd.random() < .2}
        return {'unit': self.u, 'env': env, 'rp': rp, 'sends': sends, 'data': d, 'kind': 'client', 'close': close}


PROTO = {'ServerWithTextProtocol': 'Text', 'ServerWithMetaProtocol': 'Meta', 'ServerWithBinaryProtocol': 'Binary'}


def mutate(b, rnd, k):
    """a malformed or unusual variant of a reply"""
    b = bytearray(b)
    for _ in range(rnd.choice([1, 1, 2])):
        m = rnd.randrange(10)
        binary = len(b) >= 24 and b[0] == 0x81
        if binary and m < 7:
            hs = [0]
            i = 0
            # positions of headers
            while i + 24 <= len(b) and b[i] == 0x81:
                hs.append(i)
                i += 24 + int.from_bytes(b[i + 8:i + 12], 'big')
            h = rnd.choice(hs)
            off = rnd.choice([0, 1, 2, 3, 3, 4, 4, 4, 5, 6, 7, 8, 9, 10, 11, 11, 11, 15])
            if h + off < len(b):
                b[h + off] = rnd.choice([0, 1, 2, 3, 4, 5, 8, 0x7f, 0x80, 0x81, 0xff, b[h + off] ^ 1])
            continue
        nums = list(re.finditer(rb'-?\d+', bytes(b)))
        toks = list(re.finditer(rb'[^ \r\n]+', bytes(b)))
        if m < 3 and nums:
            x = rnd.choice(nums)
            b[x.start():x.end()] = rnd.choice([b'-1', b'0', b'1', b'', b'99999999999999999999', b'1048577', b'-99999', b'a',
                                               b'9223372036854775807', b'9223372036854775806', b'+5', b'65536', b'00003'])
        elif m < 5 and toks:
            x = rnd.choice(toks)
            b[x.start():x.end()] = rnd.choice([b'', b' ', x.group() * 2, x.group() + b' ' + x.group(), x.group()[:1], b'END', b'EN',
                                               b'VALUE', b'VA', b'MN', b'HD', b'NF', b'EX', b'\x00'])
        elif m == 5:
            b = b[:rnd.randrange(len(b) + 1)]
        elif m == 6 and b:
            b[rnd.randrange(len(b))] = rnd.choice(b'\r\n \x00-0a\xff')
        elif m == 7:
            b = b.replace(b'\r\n', rnd.choice([b'\n', b'\r', b'\r\r\n', b'\n\r\n', b'']), 1)
        elif m == 8:
            b = bytearray(rnd.choice([b'\r\n', b'\n', b' \r\n', b'VALUE\r\n', b'VALUE \r\n', b'VA\r\n', b'VA \r\n', b'VERSION\r\n', b'VERSION',
                                      b'VERSION \r\n', b'VALUE a\r\n', b'VA 1\r\nx', b'VA 0 c\r\n\r\n', b'VA 2 k f\r\n', b'E\r\n', b'V\r\n',
                                      b'END', b'EN', b'HD', b'\x81' + b'\x00' * 23, b'\x81' + b'\xff' * 23, b'\x81' + b'\x00' * 10]))
        else:
            i = rnd.randrange(len(b) + 1)
            b[i:i] = rnd.choice([b'\r\n', b' ', b'0', b'END\r\n', b'MN\r\n', b'k', b's', b't-1', b' c', b' c-1 ', b' f ', b' t', b' k'])
    return bytes(b)


def tame(b):
    """keep body lengths small enough for many cases at once (allocation, not behaviour)"""
    b = bytearray(b)
    i = 0
    while i + 24 <= len(b):
        n = int.from_bytes(b[i + 8:i + 12], 'big')
        if n > 1 << 20:
            b[i + 8:i + 10] = b'\x00\x0f'
            n = int.from_bytes(b[i + 8:i + 12], 'big')
        i += 24 + n
    return bytes(b)


def probe(K, proto):
    """a version exchange with a reply of its own"""
    tn = [t for t, p in PROTO.items() if p == proto][0]
    c = K.S.contracts[tn + '.Version']
    beh = [b for b in c.behaviors if b.name == 'ok'][0]
    st = K.state()
    env = {nm: sval(domain(ty)[1]) for nm, ty in beh.vars}
    env['v'] = lit(b'7.7.7-probe')
    ev = K.ev(st, env)
    rp = ev.rope(ev.ev(beh.reply.expr)).concrete()
    ev = K.ev(st, {})
    sends = ev.rope(ev.ev(c.sends.expr)).concrete()
    return {'op': 'Version', 'reply': b64(rp), 'expect': len(sends), 'close': False, 'chunk': 0, 'key': '', 'keys': [], 'item': None,
            'delta': '0', 'exp': '0'}, sends


def judge_client(K, case, r):
    """[(obligation, message)] violated by the result of a case"""
    u = case['unit']
    c, beh = u.c, u.beh
    out = []
    if 'setup' in r:
        return [('?setup', r['setup'])]
    what = 'reply %s' % show_reply(case['rp'])
    if case['data'].get('hist'):
        # an operation before the one that is judged
        h = r['steps'][0]
        if len(r['steps']) < 2:
            return []           # a case of its own
        what += ' after an operation with reply %s' % show_reply(unb(case['data']['steps'][0]['reply']))
        if r.get('later') and 'res' in h and r['later'][0] != h['res']:
            out.append(('C07.frame', 'a result of an earlier operation changed, %s' % what))
        r = dict(r, steps=r['steps'][1:], later=r['later'][1:] if r.get('later') else None)
    s0 = r['steps'][0]
    dead = []
    if not beh.adversarial:
        dead = [('%s.ensures %s' % (tag, cl.text.strip()), 'no result on %s' % what) for cl in beh.ensures + c.ensures for tag in cl.tags]
    if s0.get('panic'):
        return [('C06.nopanic', 'panic: %s on %s' % (s0['panic'], what))] + dead
    if s0.get('blocked'):
        if case['close']:
            return [('C06.nopanic', 'the operation does not return on %s followed by end of stream' % what)]
        if 'malformed' in beh.extra:
            return []
        return [('C05.consume', 'the operation does not return after the complete reply, %s' % what)] + dead
    sent = unb(s0['sent'])
    if case['sends'] is not None and not beh.adversarial:
        if sent != case['sends']:
            out.append(('C01.sends', 'sent %s, must send %s' % (show_reply(sent), show_reply(case['sends']))))
        elif s0['early'] < len(case['sends']):
            out.append(('C01.flush', 'only %d of %d request bytes were sent before waiting' % (s0['early'], len(case['sends']))))
    if s0.get('mutated'):
        out.append(('C07.frame', 'the operation modified memory of its caller'))
    st = K.state()
    fn = K.W.p.funcs['(*%s/client.%s).%s' % (MOD, u.tname, u.op)]
    env = dict(case['env'])
    env['reply'] = lit(case['rp'])
    for nm, t, j in zip(c.results, [x['type'] for x in fn['results']], s0['res']):
        env[nm] = K.conv(st, t, j)
    for cl in beh.ensures + c.ensures:
        ev = K.ev(st, env)
        try:
            ok = ev.truth(ev.ev(cl.expr))
        except SpecError as e:
            ok = False
        if not ok:
            for tag in cl.tags:
                out.append(('%s.ensures %s' % (tag, cl.text.strip()), 'returned %s on %s' % (json.dumps(s0['res'])[:600], what)))
    if len(r['steps']) > 1 and not beh.adversarial and 'malformed' not in beh.extra:
        s1 = r['steps'][1]
        good = not s1.get('panic') and not s1.get('blocked') and s1.get('res') and s1['res'][1] is None and \
            s1['res'][0].get('s') == b64(b'7.7.7-probe')
        if not good:
            for p in ('C05', 'C03')[:2 if u.n is not None else 1]:
                out.append((p + '.consume', 'the next operation does not read its own reply after %s: %s' % (what, json.dumps(s1)[:300])))
        elif r.get('later') and r['later'][0] != s0['res']:
            out.append(('C07.frame', 'a result changed after a later operation'))
        if unb(s1.get('sent', '')) != case['probe_sends'] and good:
            out.append(('C01.sends', 'the next request is %s' % show_reply(unb(s1['sent']))))
    return out


JUDGES = {'client': judge_client}


def cx_client(K, unit, envj):
    """case of a counterexample of the verifier"""
    env = {k: verify.unconc(v) for k, v in envj.items()}
    env['s'] = {'name': lit(b'srv')}
    args = {}
    for nm, ty in unit.c.params:
        v = env[nm]
        if ty == 'item':
            fl = {'nil': None, 'empty': b''}.get(unit.flagcase or 'four', v['Flags'].concrete())
            args['item'] = {'Key': b64(v['Key'].concrete()), 'Value': b64(v['Value'].concrete()), 'Server': '',
                            'Flags': None if fl is None else b64(fl), 'Expiration': v['Expiration'], 'Cas': str(v['Cas'])}
        elif ty == 'keys':
            args['keys'] = [b64(x.concrete()) for x in v.vals]
        else:
            args[nm] = b64(v.concrete()) if isinstance(v, Rope) else str(v)
    st = K.state()
    ev = K.ev(st, env)
    s = unit.beh.sends or unit.c.sends
    sends = ev.rope(ev.ev(s.expr)).concrete() if s is not None else None
    rp = env['reply'].concrete()
    gen = ClientCases(K.W, K.S, unit, random.Random(1), 1)
    c = gen.case(env, args, rp, sends, unit.beh.adversarial, None)
    if not c['close']:
        pr, s = probe(K, c['data']['proto'])
        c['data']['steps'].append(pr)
        c['probe_sends'] = s
    return c


CX = {'client': cx_client}


class Driver:
    def __init__(self, exe, budget=3000):
        self.exe, self.budget = exe, budget

    def once(self, cases, ids, par, timeout):
        inp = ''.join(json.dumps({'id': i, 'kind': cases[i]['kind'], 'data': cases[i]['data']}) + '\n' for i in ids)
        env = dict(os.environ, VREPLAY_BUDGET=str(self.budget), GORACE='halt_on_error=1')
        if par:
            env['VREPLAY_PAR'] = str(par)
        p = subprocess.run([self.exe], input=inp.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env)
        for l in p.stdout.decode(errors='replace').split('\n'):
            if not l:
                continue
            try:
                d = json.loads(l)
            except ValueError:
                continue               # cut off by a crash
            yield d['id'], d['r']
        self.rc, self.err = p.returncode, p.stderr.decode(errors='replace')

    def run(self, cases, timeout=600):
        """results in order; None where the driver gave none, {'crash': ..} where the process died"""
        res = [None] * len(cases)
        for i, r in self.once(cases, range(len(cases)), 0, timeout):
            res[i] = r
        rc, err = self.rc, self.err[-3000:]
        crashes = 0
        while self.rc != 0 and crashes < 6:
            left = [i for i in range(len(cases)) if res[i] is None]
            if not left:
                break
            # one at a time: the first case without a result is the one that ends the process
            for i, r in self.once(cases, left, 1, timeout):
                res[i] = r
            if self.rc != 0:
                left = [i for i in left if res[i] is None]
                if not left:
                    break
                res[left[0]] = {'crash': crash(self.err)}
                crashes += 1
        return res, rc, err


def crash(err):
    """first line of a Go crash and the place in the module"""
    ls = err.split('\n')
    for i, l in enumerate(ls):
        if l.startswith('WARNING: DATA RACE'):
            out = []
            for k in range(i, len(ls) - 2):
                m = re.match(r'(Previous )?(atomic )?(read|write) at ', ls[k], re.I)
                if m and len(out) < 2:
                    at = []
                    for q in range(k + 1, len(ls) - 1, 2):
                        if not ls[q].startswith('  '):
                            break
                        if '/client.' in ls[q]:
                            at.append('%s (%s)' % (ls[q].strip().split('/')[-1], ls[q + 1].strip().split(' ')[0].split('/')[-1]))
                            break
                    out.append('%s in %s' % (m.group(3).lower(), at[0] if at else '?'))
            return 'DATA RACE: ' + ', '.join(out)
        if l.startswith(('panic:', 'fatal error:')):
            at = [x.strip() for x in ls[i:] if x.startswith('\t/') and '/src/runtime/' not in x and '/lib/go' not in x]
            return l[:200] + (' at ' + at[0].split(' ')[0] if at else '')
    return err[-300:]


def build_client_cases(W, S, units, seed, count):
    K = Concrete(W, S)
    probes = {p: probe(K, p) for p in PROTO.values()}
    cases = []
    for u in units:
        rnd = random.Random('%s/%s' % (seed, u.name))
        for c in ClientCases(W, S, u, rnd, count).build(K):
            if not c['close']:
                pr, s = probes[c['data']['proto']]
                c['data']['steps'].append(pr)
                c['probe_sends'] = s
            cases.append(c)
    return K, cases


BUILDERS = {'client': build_client_cases}
