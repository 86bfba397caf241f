"""Concrete cases of the ring, of the pools and of the proxy: random sets of
servers and keys, an independent oracle of the assignment, and the clauses of
the contracts judged on the recorded calls."""
import bisect
import hashlib
import json
import random
import zlib
import concrete
import spec
from concrete import *
from rope import *
from engine import *
from spec import SpecError
from pool import PoolEv, SRV, EventUnit
import verify
from verify import MOD

NPOINTS = 200


class Oracle:
    """the assignment of keys to servers, from its description"""

    def __init__(self, names):
        self.names = names
        pts = []
        for i, n in enumerate(names):
            for j in range(NPOINTS):
                h = int.from_bytes(hashlib.sha1(n + b'/%d' % j).digest()[:4], 'big')
                pts.append((h, n, i))
        pts.sort()
        self.pts = pts
        self.hs = [p[0] for p in pts]

    def owner(self, key):
        k = bisect.bisect_right(self.hs, zlib.crc32(key) & 0xffffffff) - 1
        return self.pts[k if k >= 0 else 0][2]

    def edge_hash(self, rnd):
        return rnd.choice(self.hs)


def crc_key(target, rnd):
    """a 12-byte key whose crc32 is target (crc32 is affine: solve for the last four bytes)"""
    pre = bytes(rnd.choice(b'abcdefghijklmnopqrstuvwxyz') for _ in range(8))
    # run the register backwards over four bytes
    table = []
    for i in range(256):
        c = i
        for _ in range(8):
            c = (c >> 1) ^ 0xedb88320 if c & 1 else c >> 1
        table.append(c)
    rev = {t >> 24: i for i, t in enumerate(table)}
    want = target ^ 0xffffffff
    idx = []
    c = want
    for _ in range(4):
        i = rev[c >> 24]
        idx.append(i)
        c = ((c ^ table[i]) << 8) & 0xffffffff
    idx.reverse()
    cur = (zlib.crc32(pre) & 0xffffffff) ^ 0xffffffff
    out = b''
    for i in idx:
        b = (cur ^ i) & 0xff
        out += bytes([b])
        cur = (cur >> 8) ^ table[i]
    k = pre + out
    assert zlib.crc32(k) & 0xffffffff == target
    return k


NAMES = [b'a', b'b', b'c', b'localhost:11211', b'localhost:11212', b'10.0.0.1:11211', b'10.0.0.2:11211', b'srv', b'srv-1', b'srv-10',
         b'A', b'Z', b'\xc3\xa9', b'test', b'test1', b'test2', b'memcached', b'x' * 60]


def names(rnd, n):
    base = list(NAMES)
    rnd.shuffle(base)
    return (base + [b'node-%d.example.com:%d' % (i, 11211 + i) for i in range(n)])[:n]


def rkey(rnd):
    if rnd.random() < .15:
        return rnd.choice(KEYS)
    return bytes(rnd.choice(b'abcdefghijklmnopqrstuvwxyz0123456789:-_') for _ in range(rnd.randint(1, 40)))


# ---------------------------------------------------------------- ring
def build_ring_cases(W, S, units, seed, count):
    K = Concrete(W, S)
    rnd = random.Random('%s/ring' % seed)
    cases = []
    u = [x for x in units if x.name == 'Ring.Pick'] or units
    u = u[0]
    for k in range(count * 2):
        n = rnd.choice([1, 1, 2, 2, 3, 3, 4, 5, 8, 13])
        nm = names(rnd, n)
        o = Oracle(nm)
        keys = [rkey(rnd) for _ in range(100)] + [b'']
        # keys at and around the points, at the smallest and at the largest hash
        for h in [o.hs[0], o.hs[-1], o.hs[0] - 1, o.hs[-1] + 1, 0, 0xffffffff] + [o.edge_hash(rnd) + d for d in (-1, 0, 1) for _ in range(4)]:
            if 0 <= h < 1 << 32:
                keys.append(crc_key(h, rnd))
        perm = list(range(n))
        rnd.shuffle(perm)
        for order in (list(range(n)), perm):
            x = [nm[i] for i in order]
            # names nobody has: not the prefix or extension of one
            cases.append({'unit': u, 'env': {}, 'kind': 'ring', 'names': x, 'keys': keys,
                          'data': {'names': [b64(i) for i in x], 'keys': [b64(i) for i in keys], 'find': [b64(i) for i in x]}})
    return K, cases


def judge_ring(K, case, r):
    nm = case['names']
    if r.get('blocked'):
        return [('C09.variant', 'Pick, Find or NewRing does not return with servers %r' % (nm,))]
    if r.get('panic'):
        return [('C09.nopanic', 'panic: %s with servers %r' % (r['panic'], nm))]
    out = []
    o = Oracle(nm)
    for k, i in zip(case['keys'], r['picks']):
        w = o.owner(k)
        if w != i:
            out.append(('C09.pick', 'key %r (hash %08x) is assigned to %r, must be %r; servers %r' % (
                k, zlib.crc32(k), nm[i] if i >= 0 else None, nm[w], nm)))
            break
    for i, j in enumerate(r['finds']):
        if i != j:
            out.append(('C09.find', 'Find(%r) gives %r; servers %r' % (nm[i], nm[j] if j >= 0 else None, nm)))
            break
    if r.get('unstable'):
        out.append(('C09.pick', 'picking the same key twice gives different servers %r' % (nm,)))
    if r.get('mutated'):
        out.append(('C09.frame', 'NewRing modifies the list of its caller'))
    return out


# ---------------------------------------------------------------- pools
def answers(rnd, op, single):
    a = {'err': '', 'counter': str(rnd.choice([0, 1, 7, 42, 2**31, 2**62, -1])), 'version': rnd.choice(['1.6.24', '']), 'miss': rnd.choice([0, 0, 1, 2, 3]),
         'extra': False, 'nillist': rnd.random() < .2}
    if not single:
        a['counter'] = str(rnd.choice([0, 1, 7, 42, 2**31, 2**62]))
    if op in ('Get', 'GetMulti') and rnd.random() < .5:
        f = rnd.choice([0, 1, 255, 2**31, 2**32 - 1, 0x01020304]).to_bytes(4, 'big')
        a['Item'] = {'Key': '', 'Server': '', 'Value': b64(rnd.choice(VALUES[:14])), 'Flags': None if single and rnd.random() < .3 else b64(f),
                     'Expiration': rnd.choice([1, 60, 86400, 2**31 - 1]), 'Cas': str(rnd.choice([0, 1, 77, 2**63 - 1, 2**63, 2**64 - 1]))}
    return a


ERRS = {'Get': ['ItemNotFound', 'other'], 'GetMulti': ['ItemNotFound', 'other'], 'Flush': ['ItemNotFound', 'other'], 'Version': ['ItemNotFound', 'other'], 'Increment': ['ItemNotFound', 'other'], 'Decrement': ['ItemNotFound', 'other'],
        'Set': ['ItemNotFound', 'ItemExists', 'other'], 'Add': ['ItemNotFound', 'ItemExists', 'other'],
        'Replace': ['ItemNotFound', 'ItemExists', 'other'], 'Delete': ['ItemNotFound', 'other'], 'Touch': ['ItemNotFound', 'other']}
ALLOPS = ('Get', 'Set', 'Add', 'Replace', 'GetMulti', 'Delete', 'Increment', 'Decrement', 'Touch', 'Flush', 'Version', 'Close')


class PoolCases(CaseGen):
    def build(self, K):
        u, c, rnd = self.u, self.c, self.rnd
        single = u.tname == 'SinglePool'
        out = []
        for k in range(self.count):
            n1 = u.ns or rnd.choice([1, 2, 2, 3, 4, 5, 7])
            n2 = rnd.choice([1, 2, 3])
            P = names(rnd, n1)
            Sx = [x for x in names(rnd, n2)]
            nk = u.n
            if nk is not None and nk >= 3 and k % 2:
                nk = rnd.choice([5, 8, 16, 33, 64, 100])
            a, env, args = {}, {'n': nk}, {}
            step = {'op': u.op, 'key': '', 'keys': [], 'item': None, 'delta': '0', 'exp': '0', 'reply': '', 'expect': 0, 'close': False, 'chunk': 0}
            for nm, ty in c.params:
                if ty == 'item':
                    a[nm + '.Key'] = self.word()
                    a[nm + '.Value'] = rnd.choice(VALUES[:14])
                    a[nm + '.Expiration'] = rnd.choice([0, 1, 60, 86400, 2**31 - 1])
                    a[nm + '.Cas'] = rnd.choice([0, 0, 1, 77, 2**63]) if single or u.op == 'Set' else 0   # add and replace carry no cas unique
                    a[nm + '.flags'] = rnd.choice([0, 1, 255, 2**31, 2**32 - 1, 0x01020304])
                elif ty == 'keys':
                    ks = []
                    while len(ks) < nk:
                        w = self.word()
                        if w not in ks:
                            ks.append(w)
                    if single and nk >= 2 and rnd.random() < .15:
                        ks[rnd.randrange(1, nk)] = ks[0]      # one key asked for twice
                    a[nm] = ks
                elif ty == 'key':
                    a[nm] = self.word()
                else:
                    a[nm] = rnd.choice((0, 1, 2, 60, 86400, 2**31 - 1))
                    if nm == 'exp' and not single:
                        a[nm] = 0         # the incr command carries no expiration
            env, args = self.env(a, nk if nk is not None else 0)
            step.update({'key': args.get('key', ''), 'keys': args.get('keys', []), 'item': args.get('item'),
                         'delta': args.get('delta', '0'), 'exp': args.get('exp', '0')})
            ans = {}
            for ring, n in (('P', n1), ('S', n2)):
                for i in range(n):
                    for op in ALLOPS:
                        x = answers(rnd, op, single)
                        kinds = ERRS.get(op, ['other'])
                        if not single and op in ('Delete', 'Add', 'Replace', 'GetMulti', 'Flush', 'Version'):
                            kinds = ['other']     # meta Delete of a missing key returns nil: known finding of C04
                        p = .25 if n == 1 or op not in ('Flush', 'Version', 'Close', 'GetMulti') else .12
                        if rnd.random() < p:
                            x['err'] = rnd.choice(kinds)
                        ans['%s%d.%s' % (ring, i, op)] = x
            out.append({'unit': u, 'env': env, 'kind': 'pool', 'P': P, 'S': Sx, 'keys': a.get('keys'),
                        'data': {'pool': 'single' if single else 'replica', 'primary': [b64(x) for x in P], 'secondary': [b64(x) for x in Sx],
                                 'step': step, 'answers': ans}})
        return out

    def word(self):
        while True:
            w = rkey(self.rnd)
            if all(33 <= b < 127 for b in w):
                return w


def build_pool_cases(W, S, units, seed, count):
    K = Concrete(W, S)
    cases = []
    for u in units:
        if u.tname == 'ReplicaProxy':
            continue
        cases += PoolCases(W, S, u, random.Random('%s/%s' % (seed, u.name)), count).build(K)
    return K, cases


class Intern:
    """values of a result; servers and errors keep their identity"""

    def __init__(self, K, st, single):
        self.K, self.st, self.single = K, st, single
        self.items, self.errs = {}, {}

    def item(self, j):
        if j is None:
            return None
        v = j['v']['f']
        k = j['id'] if self.single else json.dumps([v[x] for x in ('Key', 'Value', 'Flags', 'Expiration', 'Cas')])
        if k not in self.items:
            self.items[k] = self.K.conv(self.st, '*' + MOD + '/client.Item', j['v'])
        return self.items[k]

    def err(self, j):
        if j is None:
            return None
        if j['e'] in ('ItemNotFound', 'ItemExists'):
            return self.K.ev(self.st, {}).sentinel(j['e'])
        k = j.get('id') if self.single else 'other'
        if k not in self.errs:
            self.errs[k] = IfaceV('error', Opaque('e%s' % k))
        return self.errs[k]

    def value(self, j):
        if j is None:
            return None
        if 'id' in j and 'v' in j:
            return self.item(j)
        if 'items' in j:
            if j['nil']:
                return NILSLICE
            l = [EL(self.item(x)) for x in j['items']]
            return SliceV(Ptr(self.st.new(LArr(l, '*' + MOD + '/client.Item'))), 0, len(l), len(l))
        if 'e' in j:
            return self.err(j)
        if 's' in j:
            return lit(unb(j['s']))
        if 'i' in j:
            return int(j['i'])
        if 'm' in j:
            return {unb(a['s']): lit(unb(b['s'])) for a, b in j['m']}
        raise SpecError('result %r' % (j,))

    def arg(self, j):
        if 'f' in j:
            f = j['f']
            by = lambda x: lit(unb(x['b'])) if x else EMPTY
            fl = by(f['Flags'])
            if not self.single and rlen(fl) == 0:
                fl = lit(b'\0\0\0\0')
            return [lit(unb(f['Key']['s'])), by(f['Value']), fl, int(f['Expiration']['i']), int(f['Cas']['i'])]
        if 'l' in j:
            return [self.arg(x) for x in j['l']]
        return self.value(j)


def judge_pool(K, case, r):
    u = case['unit']
    P = u.prop
    if 'panic' in r:
        m = 'panic: %s' % r['panic']
        return [(P + '.nopanic', m)] + [('%s.ensures %s' % (t, cl.text.strip()), m) for cl in u.clauses() for t in cl.tags]
    out = []
    if r.get('mutated'):
        out.append((P + '.frame', 'the operation modified memory of its caller or of the server'))
    st = K.state()
    single = case['data']['pool'] == 'single'
    it = Intern(K, st, single)
    env = dict(case['env'])
    for nm, ty in u.c.params:
        if ty == 'item' and not single and rlen(env[nm]['Flags']) == 0:
            env[nm] = dict(env[nm], Flags=lit(b'\0\0\0\0'))
    env['calls'] = calls = []
    for c in r['calls']:
        res = [it.value(x) for x in c['res']]
        if c['op'] == 'GetMulti' and res[0] is None:
            res[0] = NILSLICE
        calls.append({'server': IfaceV(SRV + c['ring'], c['i']), 'op': lit(c['op'].encode()), 'args': [it.arg(x) for x in c['args']],
                      'res': res, 'err': res[-1]})
    for nm, j in zip(u.c.results, r['res']):
        env[nm] = it.value(j)
    op, os_ = Oracle(case['P']), Oracle(case['S'])
    env['owner'] = lambda k: IfaceV(SRV + 'P', op.owner(k.concrete()))
    env['secondary'] = lambda k: IfaceV(SRV + 'S', os_.owner(k.concrete()))
    env['nservers'] = len(case['P'])
    env['nameof'] = lambda s: lit((case['P'] if s.t == SRV + 'P' else case['S'])[s.v])
    spec.CURRENT['st'] = st
    for cl in u.clauses():
        ev = PoolEv(K.S, st, env, K.I)
        try:
            ok = ev.truth(ev.ev(cl.expr))
        except (SpecError, IndexError, KeyError):
            ok = False
        if not ok:
            for t in cl.tags:
                out.append(('%s.ensures %s' % (t, cl.text.strip()), 'servers %r secondaries %r: calls %s, returned %s' % (
                    case['P'], case['S'], json.dumps(r['calls'])[:700], json.dumps(r['res'])[:400])))
    return out


# ---------------------------------------------------------------- proxy
def build_proxy_cases(W, S, units, seed, count):
    K = Concrete(W, S)
    cases = []
    for u in units:
        rnd = random.Random('%s/%s' % (seed, u.name))
        word = PoolCases(W, S, u, rnd, count).word
        for k in range(count):
            req = {'op': 0, 'key': '', 'keys': [], 'value': '', 'flags': None, 'meta': False, 'flag': '0', 'exp': '0', 'cas': '0', 'opcode': u.reqkind}
            r = {'Key': EMPTY, 'Keys': [], 'Value': EMPTY, 'Flags': EMPTY}
            if u.reqkind == 'GetMulti':
                ks = []
                while len(ks) < (k % 9) + 1:
                    w = word()
                    if w not in ks:
                        ks.append(w)
                req.update(opcode='Get', keys=[b64(x) for x in ks])
                r['Keys'] = [lit(x) for x in ks]
            else:
                w = word()
                req['key'] = b64(w)
                r['Key'] = lit(w)
            if u.reqkind == 'Set':
                v, f, e = rnd.choice(VALUES[:14]), rnd.choice([0, 1, 255, 2**31 - 1, 2**31, 2**32 - 1, 0x01020304]), rnd.choice([0, 1, 60, 86400, 2**31 - 1])
                c = rnd.choice([0, 0, 1, 77, 2**63, 2**64 - 1])
                meta = u.variant == 'meta'
                req.update(value=b64(v), exp=str(e), cas=str(c))
                r['Value'] = lit(v)
                sf = f - (1 << 32) if f >= 1 << 31 else f
                if meta:
                    req.update(meta=True, flag=str(sf))
                else:
                    req['flags'] = b64(f.to_bytes(4, 'big'))
                    r['Flags'] = lit(f.to_bytes(4, 'big'))
                r['SetOpt'] = {'Meta': meta, 'Flag': sf if meta else 0, 'Expiration': e, 'CasValue': c}
            if u.reqkind == 'Other':
                req['opcode'] = str(rnd.choice([2, 3, 4, 5, 6, 8, 0x0a, 0x0b, 0x1c, 0x20, 255]))
            ans = {}
            for ring in 'PS':
                for op in ALLOPS:
                    x = answers(rnd, op, False)
                    kinds = ERRS.get(op, ['other'])
                    if op in ('Delete', 'Add', 'Replace', 'GetMulti', 'Flush', 'Version'):
                        kinds = ['other']
                    if rnd.random() < (.4 if ring == 'P' else .15):
                        x['err'] = rnd.choice(kinds)
                    ans['%s0.%s' % (ring, op)] = x
            cases.append({'unit': u, 'env': {'req': r}, 'kind': 'proxy',
                          'data': {'pool': 'proxy', 'primary': [b64(b'primary')], 'secondary': [b64(b'secondary')], 'req': req, 'answers': ans,
                                   'step': {'op': '', 'key': '', 'keys': [], 'item': None, 'delta': '0', 'exp': '0', 'reply': '', 'expect': 0,
                                            'close': False, 'chunk': 0}}})
    return K, cases


def judge_proxy(K, case, r):
    u = case['unit']
    P = u.prop
    if 'panic' in r:
        m = 'panic: %s' % r['panic']
        return [(P + '.nopanic', m)] + [('%s.ensures %s' % (t, cl.text.strip()), m) for cl in u.clauses() for t in cl.tags]
    st = K.state()
    it = Intern(K, st, False)
    calls = []
    for c in r['calls']:
        res = [it.value(x) for x in c['res']]
        if c['op'] == 'GetMulti' and res[0] is None:
            res[0] = NILSLICE
        # the pool stores on the primary and then on the secondary (C11)
        if calls and c['ring'] == 'S' and c['op'] == 'Set' and calls[-1]['op'].concrete() in (b'Set', b'Add', b'Replace') and calls[-1]['err'] is None:
            calls[-1]['res'], calls[-1]['err'] = res, res[-1]
            continue
        calls.append({'server': None, 'op': lit(c['op'].encode()), 'args': [it.arg(x) for x in c['args']], 'res': res, 'err': res[-1]})
    env = dict(case['env'], calls=calls)
    env['res'] = K.conv(st, '[]*%s/server.Response' % MOD, r['res'][0])
    env['err'] = it.err(r['res'][1])
    spec.CURRENT['st'] = st
    out = []
    for cl in u.clauses():
        ev = PoolEv(K.S, st, env, K.I)
        try:
            ok = ev.truth(ev.ev(cl.expr))
        except (SpecError, IndexError, KeyError):
            ok = False
        if not ok:
            for t in cl.tags:
                out.append(('%s.ensures %s' % (t, cl.text.strip()), 'request %s: calls %s, returned %s' % (
                    json.dumps(case['data']['req'])[:400], json.dumps(r['calls'])[:700], json.dumps(r['res'])[:500])))
    return out


concrete.BUILDERS['ring'] = build_ring_cases
concrete.BUILDERS['pool'] = build_pool_cases
concrete.JUDGES['ring'] = judge_ring
concrete.JUDGES['pool'] = judge_pool
concrete.BUILDERS['proxy'] = build_proxy_cases
concrete.JUDGES['proxy'] = judge_proxy
