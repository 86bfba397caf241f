"""Concrete cases of the server: requests rendered by the contracts, answers of
a scripted handler, run through the real Server.Serve on an in-memory
connection; mutated and truncated requests for the adversarial contract."""
import json
import random
import concrete
import spec
from concrete import *
from rope import *
from engine import *
from spec import SpecError
from server import AnsEv, Refuse, SRVT, shot
import server
import verify
from verify import MOD


def answer_json(K, a):
    """answer of the handler for the driver"""
    if isinstance(a, Refuse):
        return {'refuse': b64(a.msg.concrete()), 'list': []}
    ev = K.ev(K.state(), {})
    out = []
    for x in a:
        e = x['Error']
        if e is not None:
            if not isinstance(e, tuple):
                for n in ('ItemNotFound', 'ItemExists'):
                    if ev.truth(ev.equal(e, ev.sentinel(n))):
                        e = {'kind': n, 'status': 0, 'msg': ''}
                        break
                else:
                    raise SpecError('error %r' % (e,))
            elif e[0] == 'mcerr':
                e = {'kind': 'memcached', 'status': e[1], 'msg': b64(e[2].concrete())}
            else:
                e = {'kind': 'other', 'status': 0, 'msg': b64(e[1].concrete())}
        by = lambda v: None if v is None else b64(v.concrete())
        out.append({'key': b64(x['Key'].concrete()), 'err': e, 'flags': by(x['Flags']), 'value': by(x['Value']),
                    'cas': str(x['Cas']), 'ttl': str(x['TTL'])})
    return {'refuse': None, 'list': out}


DONE = {'refuse': None, 'list': [{'key': '', 'err': None, 'flags': None, 'value': None, 'cas': '0', 'ttl': '0'}]}


def fixed_request(K, binary, key, w):
    ev = K.ev(K.state(), {'w': lit(w)})
    if binary:
        return ev.ev(spec.ast.parse('qreq(1, "%s", be32(7) + be32(0), w, 0, 0)' % key, mode='eval').body).concrete()
    return b'set %s 7 0 %d\r\n' % (key.encode(), len(w)) + w + b'\r\n'


class ServerCases(CaseGen):
    def build(self, K):
        out = []
        if self.beh.adversarial:
            return self.adversarial(K)
        seen = set()
        for n, a in self.assignments():
            x = self.render(K, self.c, self.beh, n, a)
            if x is None:
                continue
            env, rq, ans = x
            k = (rq, json.dumps(ans))
            if k in seen:
                continue
            seen.add(k)
            out.append(self.case(K, env, rq, ans))
            if len(out) >= self.count:
                break
            if self.u.malformed or self.u.closing or len(rq) > 5000 or self.rnd.random() < .5:
                continue
            y = self.render(K, self.c, self.beh, n, self.vary(a, n))
            if y is not None and len(y[1]) < 5000 and y[2]['refuse'] is None:
                out.append(self.case(K, env, rq, ans, False, y))
        if self.u.n == 3 and not self.u.malformed:
            for n, a in self.many():
                x = self.render(K, self.c, self.beh, n, a)
                if x is not None:
                    out.append(self.case(K, *x))
        return out

    def render(self, K, c, beh, n, a, letters=None):
        env, _ = self.env(a, n)
        env = self.behenv(env, a, beh)
        ls = letters if letters is not None else self.u.letters
        if ls is not None:
            env['letters'] = [lit(x.encode()) for x in ls]
        st = K.state()
        spec.CURRENT['st'] = st
        ev = AnsEv(K.S, st, env, K.I)
        try:
            for q in c.requires + beh.when:
                if not ev.truth(ev.ev(q.expr)):
                    return None
            rq = ev.rope(ev.ev(c.request.expr)).concrete()
            ans = answer_json(K, ev.ev(beh.answer.expr))
        except OverflowError:
            return None
        return env, rq, ans

    def case(self, K, env, rq, ans, one=None, hist=None):
        u = self.u
        rnd = self.rnd
        w1, w2 = rnd.choice(VALUES[:9]), rnd.choice(VALUES[:9])
        chunks = ([fixed_request(K, u.binary, 'yy', w1)] if u.first else []) + ([hist[1]] if hist else []) + [rq] + \
            ([] if u.closing else [fixed_request(K, u.binary, 'zz', w2)])
        one = rnd.random() < .4 if one is None else one
        if not one and rnd.random() < .5:
            # the first bytes of the next request arrive together with a request
            k = rnd.choice([1, 1, 2, 5])
            for i in range(len(chunks) - 1):
                if len(chunks[i + 1]) > k:
                    chunks[i], chunks[i + 1] = chunks[i] + chunks[i + 1][:k], chunks[i + 1][k:]
        d = {'chunks': [b64(b''.join(chunks))] if one else [b64(x) for x in chunks], 'answers': ([DONE] if u.first else []) + ([hist[2]] if hist else []) + [ans],
             'piece': rnd.choice([0, 0, 0, 1, 5]) if len(rq) < 3000 else 0, 'failout': -1, 'readerr': rnd.random() < .1, 'noise': rnd.random() < .4, 'hist': bool(hist)}
        return {'unit': u, 'env': env, 'kind': 'server', 'data': d, 'w1': w1, 'w2': w2, 'one': one, 'rq': rq}

    def adversarial(self, K):
        """mutated, truncated and joined requests; any answers"""
        rnd = self.rnd
        bases = []
        u0 = self.u
        for u in self.others:
            if u.beh.adversarial or u.first or u.malformed:
                continue
            self.u, self.c, self.beh = u, u.c, u.beh
            for i, (n, a) in enumerate(self.assignments(u.beh, 3)):
                if i >= 4:
                    break
                x = self.render(K, u.c, u.beh, n, a, u.letters)
                if x is not None and len(x[1]) < 2000:
                    bases.append((u.binary, x[1], x[2]))
        self.u, self.c, self.beh = u0, u0.c, u0.beh
        out = []
        answers = [b[2] for b in bases]
        for k in range(self.count * 40):
            bi, rq, ans = rnd.choice(bases)
            m = retame(remutate(rq, rnd, bi), bi)
            more = rnd.choice([x for x in bases if x[0] == bi])
            tail = rnd.choice([b'', b'', more[1], more[1][:rnd.randrange(len(more[1]) + 1)]])
            al = [ans if rnd.random() < .5 else rnd.choice(answers) for _ in range(3)]
            for a in al:
                if rnd.random() < .15 and a['refuse'] is None:
                    a = dict(a, list=[])
            if rnd.random() < .2:
                al[0] = {'refuse': None, 'list': []}
            d = {'chunks': [b64(m + tail)] if rnd.random() < .5 else [b64(m), b64(tail)], 'answers': al, 'piece': rnd.choice([0, 0, 1, 7]),
                 'failout': rnd.choice([-1, -1, -1, 0, 1, 20]), 'readerr': rnd.random() < .2}
            out.append({'unit': u0, 'env': {}, 'kind': 'server', 'data': d, 'one': True, 'rq': m + tail, 'w1': b'', 'w2': b''})
        for bi, rq, ans in rnd.sample(bases, min(len(bases), self.count)):
            for cut in range(0, len(rq), max(1, len(rq) // 25)):
                d = {'chunks': [b64(rq[:cut])], 'answers': [ans], 'piece': 0, 'failout': -1, 'readerr': False}
                out.append({'unit': u0, 'env': {}, 'kind': 'server', 'data': d, 'one': True, 'rq': rq[:cut], 'w1': b'', 'w2': b''})
        return out


def remutate(b, rnd, binary):
    b = bytearray(b)
    for _ in range(rnd.choice([0, 1, 1, 2, 3])):
        if binary and len(b) >= 24:
            off = rnd.choice([0, 1, 1, 2, 3, 3, 4, 4, 5, 6, 7, 8, 9, 10, 11, 11, 11])
            b[off] = rnd.choice([0, 1, 2, 3, 4, 5, 8, 0x0a, 0x0b, 0x0c, 0x0d, 0x1c, 0x7f, 0x80, 0x81, 0xff, b[off] ^ 1, rnd.randrange(256)])
            continue
        m = rnd.randrange(9)
        nums = list(re.finditer(rb'-?\d+', bytes(b)))
        toks = list(re.finditer(rb'[^ \r\n]+', bytes(b)))
        if m < 3 and nums:
            x = rnd.choice(nums)
            b[x.start():x.end()] = rnd.choice([b'-1', b'-2', b'-3', b'0', b'1', b'', b'99999999999999999999', b'100000', b'-99999', b'a',
                                               b'9223372036854775807', b'-9223372036854775808', b'+5', b'65536', b'00003', b'4294967295'[:6]])
        elif m < 5 and toks:
            x = rnd.choice(toks)
            b[x.start():x.end()] = rnd.choice([b'', b' ', x.group() * 2, x.group() + b' ' + x.group(), x.group()[:1], b'mg', b'ms', b'md', b'get',
                                               b'gets', b'S-1', b'S-3', b'S', b'T', b'F', b'C', b'O', b'I', b'k', b'q', b'\x00', b'\xc3\xa9', b'\xff', b'S7'])
        elif m == 5:
            b = b[:rnd.randrange(len(b) + 1)]
        elif m == 6 and b:
            b[rnd.randrange(len(b))] = rnd.choice(b'\r\n \x00-0a\xff\x80')
        elif m == 7:
            b = b.replace(b'\r\n', rnd.choice([b'\n', b'\r', b'\r\r\n', b'\n\r\n', b'', b' \r\n']), 1)
        else:
            i = rnd.randrange(len(b) + 1)
            b[i:i] = rnd.choice([b'\r\n', b' ', b'0', b'  ', b' S-5', b' T', b' C', b' q', b' \xff', b'\n', b' kk'])
    if not b.endswith(b'\n') and not binary and rnd.random() < .5:
        b += b'\r\n'
    return bytes(b)


def retame(b, binary):
    """keep announced body lengths small enough for many cases at once"""
    if binary and len(b) >= 24 and b[0] == 0x80:
        n = int.from_bytes(b[8:12], 'big')
        if n > 1 << 20:
            b = b[:8] + b'\x00\x0f' + b[10:]
    return re.sub(rb'(ms \S+ |set \S+ \S+ \S+ |S)\d{7,10}(?=[ \r\n])', rb'\g<1>999999', b)


def build_server_cases(W, S, units, seed, count):
    K = Concrete(W, S)
    cases = []
    n = max(6, count // 4)
    for u in units:
        g = ServerCases(W, S, u, random.Random('%s/%s' % (seed, u.name)), n)
        g.others = units
        if u.beh.adversarial and not any(not x.beh.adversarial for x in units):
            g.others = server.units(W, S, 'quick', lambda x: True)
        cases += g.build(K)
    return K, cases


def isnext(K, j, w2):
    """the request is the one behind the malformed request"""
    st = K.state()
    t = '*' + SRVT + 'Request'
    spec.CURRENT['st'] = st
    try:
        x = shot(K.I, st, K.conv(st, t, j), t)
        ev = AnsEv(K.S, st, {'x': x, 'w': lit(w2), 'key': lit(b'zz')}, K.I)
        return ev.truth(ev.ev(spec.ast.parse('isstore(x, 1, key, w, 7, 0)', mode='eval').body))
    except (SpecError, Unsupported, IndexError, KeyError):
        return False


def judge_server(K, case, r):
    u = case['unit']
    beh, c = u.beh, u.c
    what = 'request %s' % show_reply(case['rq'])
    dead = []
    if not beh.adversarial:
        dead = [('%s.ensures %s' % (tag, cl.text.strip()), 'no answer to %s' % what) for cl in beh.ensures + c.ensures for tag in cl.tags]
    if 'crash' in r:
        return [('C13.nopanic', '%s on %s' % (r['crash'], what))] + dead
    if 'setup' in r:
        return [('?setup', r['setup'])]
    out = []
    if r.get('notclosed'):
        # still waiting for input that has ended, or the connection was given up without closing it
        out.append(('C13.closed', 'the connection is left open after the end of %s' % what))
        if not r['ended']:
            out += dead
    if r['late']:
        out.append(('C13.reads', '%s after %s' % (r['late'], what)))
    if any('nil' in x for x in r['reqs']):
        out.append(('C13.nopanic', 'the handler is given no request for %s' % what))
        return out + dead
    if r.get('mutated'):
        out.append(('C14.frame', 'the server changes the answer of the handler'))
    if beh.adversarial or out and dead and not r['ended']:
        return out
    if u.malformed:
        n = 1 if u.first else 0
        if len(r['reqs']) == n and r['ended']:
            out.append(('C13.malformed', 'the malformed %s is not answered by closing the connection' % what))
        elif len(r['reqs']) == n + 1 and isnext(K, r['reqs'][n], case['w2']):
            out.append(('C13.malformed', 'the malformed %s is skipped' % what))
        return out
    b = (1 if u.first else 0) + (1 if case['data'].get('hist') else 0)
    expect = b + 1 + (0 if u.closing else 1)
    if len(r['reqs']) != expect:
        out.append(('C12.count', 'the handler is called %d times for %d requests; first %s' % (len(r['reqs']), expect, what)))
        if len(r['reqs']) <= b:
            return out + dead
    if r['later'] != r['reqs']:
        out.append(('C12.kept', 'a request changes after the call of the handler, %s' % what))
    st = K.state()
    t = '*' + SRVT + 'Request'
    env = dict(case['env'])
    try:
        reqs = [shot(K.I, st, K.conv(st, t, x), t) for x in r['reqs']]
    except (SpecError, Unsupported) as e:
        return out + [('?convert', str(e))]
    env['reqs'] = reqs[b:]
    raw = unb(r['out'])
    second = b'STORED\r\n'
    two = len(r['reqs']) > b + 1

    def clause(obs, text, e):
        spec.CURRENT['st'] = st
        ev = AnsEv(K.S, st, e, K.I)
        try:
            ok = ev.truth(ev.ev(spec.ast.parse(text, mode='eval').body if isinstance(text, str) else text))
        except (SpecError, IndexError, KeyError):
            ok = False
        if not ok:
            for ob in obs:
                out.append((ob, 'reply %s, requests %s, on %s' % (show_reply(e['reply'].concrete() if 'reply' in e else raw),
                                                                 json.dumps(r['reqs'])[:500], what)))
    if case['one']:
        # everything arrives at once: the replies to the fixed requests are known
        head = tail = 0
        if u.first:
            head = 24 if u.binary else len(second)
        if two:
            tail = 24 if u.binary else len(second)
        reply, rest = raw[head:len(raw) - tail], raw[len(raw) - tail:]
    else:
        m = [int(x) for x in r['marks']]
        start = m[b] if len(m) > b else 0
        end = m[b + 1] if two and len(m) > b + 1 else len(raw)
        reply, rest = raw[start:end], raw[end:]
    env['reply'] = lit(reply)
    if u.first:
        clause(['C12.next'], 'isstore(x, 1, key, w, 7, 0) and nocas(x)', {'x': reqs[0], 'w': lit(case['w1']), 'key': lit(b'yy')})
    if two and not u.closing:
        clause(['C12.next'], 'isstore(x, 1, key, w, 7, 0) and nocas(x)', {'x': reqs[b + 1], 'w': lit(case['w2']), 'key': lit(b'zz')})
        clause(['C14.next'], 'qres(x, 1, "", "", "")' if u.binary else 'x == "STORED" + CRLF', {'x': lit(rest), 'reply': lit(rest)})
    for cl in beh.ensures + c.ensures:
        clause(['%s.ensures %s' % (tag, cl.text.strip()) for tag in cl.tags], cl.expr, env)
    return out


def cx_server(K, unit, envj):
    """case of a counterexample of the verifier"""
    env = {k: verify.unconc(v) for k, v in envj.items()}
    g = ServerCases(K.W, K.S, unit, random.Random(1), 1)
    if unit.beh.adversarial:
        rq = env['input'].concrete()
        d = {'chunks': [b64(rq)], 'answers': [], 'piece': 0, 'failout': -1, 'readerr': False}
        return {'unit': unit, 'env': {}, 'kind': 'server', 'data': d, 'one': True, 'rq': rq, 'w1': b'', 'w2': b''}
    if unit.letters is not None:
        env['letters'] = [lit(c.encode()) for c in unit.letters]
    st = K.state()
    spec.CURRENT['st'] = st
    ev = AnsEv(K.S, st, env, K.I)
    rq = ev.rope(ev.ev(unit.c.request.expr)).concrete()
    ans = answer_json(K, ev.ev(unit.beh.answer.expr))
    c = g.case(K, env, rq, ans, one=False)
    c['w1'] = env['$w1'].concrete() if '$w1' in env else b''
    c['w2'] = env['$w2'].concrete() if '$w2' in env else b''
    c['data']['chunks'] = [b64(x) for x in ([fixed_request(K, unit.binary, 'yy', c['w1'])] if unit.first else []) + [rq] +
                           ([] if unit.closing else [fixed_request(K, unit.binary, 'zz', c['w2'])])]
    c['data']['piece'] = 0
    return c


concrete.BUILDERS['server'] = build_server_cases
concrete.JUDGES['server'] = judge_server
concrete.CX['server'] = cx_server
