"""Concrete cases of the lifecycle of the clients (C16)."""
import random
import concrete
from concrete import *
from life import *


def steps_of(K, u, rnd, count):
    """cases of the client unit with their probes"""
    out = []
    for c in ClientCases(K.W, K.S, u, rnd, count).build(K):
        if c['data'].get('hist'):
            continue
        pr, s = probe(K, PROTO[u.tname])
        c['probe_sends'] = s
        c['data']['steps'].append(pr)
        if len(c['data']['steps'][0]['reply']) < 100000:
            out.append(c)
    return out


def leftover(K, u):
    pr, s = probe(K, PROTO[u.tname])
    pr = dict(pr, reply=b64(unb(pr['reply']) + b'END\r\nHD\r\n\x81\x00left'))
    return {'act': 'leftover', 'step': pr}


def build_life(W, S, units, seed, count):
    K = Concrete(W, S)
    cases = []
    for u in units:
        rnd = random.Random('%s/%s' % (seed, u.name))
        cs = steps_of(K, u, rnd, 2)
        life = [leftover(K, u)] + [{'act': a} for a in u.hist.split(',')]
        for c in cs[:2 if isinstance(u, HistoryUnit) else 1]:
            st = c['data']['steps']
            if isinstance(u, ClosedUnit):
                st = [dict(st[0], reply='', expect=0)]
            d = {'proto': PROTO[u.tname], 'timeout': rnd.choice([0, 30000]), 'life': life, 'ops': [{'act': 'op', 'step': x} for x in st]}
            cases.append(dict(c, data=d, kind='life', unit=u))
    random.Random(seed).shuffle(cases)
    # every operation in every kind of history comes first, the rest is a sample
    seen, first, rest = set(), [], []
    for c in cases:
        k = (c['unit'].cname, isinstance(c['unit'], HistoryUnit))
        (rest if k in seen else first).append(c)
        seen.add(k)
    return K, (first + rest)[:240 if count <= 40 else 5000]


def judge_life(K, case, r):
    u = case['unit']
    out = []
    if 'setup' in r:
        return [('?setup', r['setup'])]
    if 'crash' in r:
        return [('C16.closed' if isinstance(u, ClosedUnit) else 'C16.after C06.nopanic', 'the process ends: %s' % r['crash'])]
    for e in r['events']:
        a = e['act']
        if a == 'leftover':
            continue
        nm = {'close': 'C16.close', 'reconnect': 'C16.reconnect', 'failed': 'C16.failed'}[a]
        if e.get('panic'):
            out.append((nm, 'panic in %s after %s: %s' % (a, u.hist, e['panic'])))
        elif e.get('blocked'):
            out.append((nm, '%s does not return, after %s' % (a, u.hist)))
        elif a == 'reconnect' and e['err']:
            out.append((nm, 'Reconnect fails although the server is reachable (%s)' % u.hist))
        elif a == 'failed' and not e['err']:
            out.append((nm, 'Reconnect returns no error although the server is not reachable (%s)' % u.hist))
        elif a == 'close' and e.get('open'):
            out.append((nm, 'the connection is open after Close (%s)' % u.hist))
    if r.get('stopped') or 'steps' not in r:
        return out
    if isinstance(u, ClosedUnit):
        s = r['steps'][0]
        if s.get('panic'):
            out.append(('C16.closed', 'after %s the operation panics: %s' % (u.hist, s['panic'])))
        elif s.get('blocked'):
            out.append(('C16.closed', 'after %s the operation does not return' % u.hist))
        elif s['res'][-1] is None and u.hist != 'failed':
            out.append(('C16.closed', 'after %s the operation returns no error' % u.hist))
        return out
    base = {o for o, _ in judge_client(K, case, {'steps': r['base'].get('steps', [{'blocked': True}])})}
    for o, m in judge_client(K, case, {'steps': r['steps']}):
        if o not in base:
            out.append(('C16.after ' + o, 'after %s: %s' % (u.hist, m)))
    if r.get('stray'):
        out.append(('C16.newconn', '%d bytes are sent on the old connection after %s' % (r['stray'], u.hist)))
    return out


def build_deadline(W, S, units, seed, count):
    K = Concrete(W, S)
    cases = []
    seen = set()
    for u in units:
        if u.cname in seen:
            continue
        rnd = random.Random('%s/%s' % (seed, u.name))
        cs = steps_of(K, u, rnd, 2)
        if not cs:
            continue
        seen.add(u.cname)
        c = cs[0]
        st = c['data']['steps'][0]
        rp = unb(st['reply'])
        for part in [b''] + ([rp[:len(rp) // 2]] if len(rp) > 3 else []):
            d = {'proto': PROTO[u.tname], 'step': st, 'part': b64(part) if part else '', 'deaf': False}
            cases.append(dict(c, data=d, kind='timeout', unit=u))
        if u.op in ('Set', 'Add', 'Replace'):
            d = {'proto': PROTO[u.tname], 'step': st, 'part': '', 'deaf': True}
            cases.append(dict(c, data=d, kind='timeout', unit=u))
        if st['expect']:
            d = {'proto': PROTO[u.tname], 'step': st, 'part': '', 'deaf': False, 'warm': True, 'ms': 1500}
            cases.append(dict(c, data=d, kind='timeout', unit=u))
            d = {'proto': PROTO[u.tname], 'step': st, 'part': '', 'deaf': False, 'queue': True, 'ms': 600}
            cases.append(dict(c, data=d, kind='timeout', unit=u))
    return K, cases


def judge_timeout(K, case, r):
    if 'setup' in r:
        return [('?setup', r['setup'])]
    if r.get('panic') or 'crash' in r:
        return [('C16.deadline', 'panic when the server does not answer: %s' % (r.get('panic') or r['crash']))]
    if r.get('blocked'):
        return [('C16.deadline', 'with a timeout of 150 ms the operation does not return while the server %s' % (
            'does not read' if case['data']['deaf'] else 'does not answer'))]
    if r['res'][-1] is None:
        return [('C16.deadline', 'the operation returns no error although the server did not answer')]
    if case['data'].get('queue'):
        s = r.get('second')
        if s == 'blocked':
            return [('C16.deadline', 'an operation that waited for another one does not return')]
        if s and 'timeout' in json.dumps(s[-1]):
            return [('C16.deadline', 'an operation that waited for another one times out although it is answered at once')]
    return []


def build_stall(W, S, units, seed, count):
    """the server stops, or sends for ever, at every kind of point of the exchange"""
    K = Concrete(W, S)
    cases = []
    seen = set()
    for u in units:
        if u.cname in seen:
            continue
        seen.add(u.cname)
        rnd = random.Random('%s/%s' % (seed, u.name))
        item = 'four' if any(t == 'item' for _, t in u.c.params) else None
        n = 2 if any(t == 'keys' for _, t in u.c.params) else None
        for b in u.c.behaviors:
            if b.adversarial:
                continue
            ex = ClientUnit(W, S, u.cname, b, item, n)
            cs = steps_of(K, ex, rnd, 8)
            cs.sort(key=lambda c: -len(c['data']['steps'][0]['reply']))
            for c in cs[:1]:
                st = c['data']['steps'][0]
                rp = unb(st['reply'])

                def add(part=b'', drip=b'', deaf=False):
                    d = {'proto': PROTO[u.tname], 'step': st, 'part': b64(part) if part else '', 'drip': b64(drip) if drip else '', 'deaf': deaf}
                    cases.append(dict(c, data=d, kind='stall', unit=u))
                add()
                for k in sorted({1, len(rp) // 2, len(rp) - 1, rp.find(b'\n') + 1, 24}):
                    if 0 < k < len(rp):
                        add(rp[:k])
                if u.op in ('Set', 'Add', 'Replace'):
                    add(deaf=True)
                if u.tname == 'ServerWithBinaryProtocol':
                    h = rp[:8] + b'\x00\x10\x00\x00' + rp[12:24]
                    add(drip=rp)
                    add(h, b'x')
                    add(drip=b'\x81' + bytes(23))
                    if len(rp) >= 48:
                        add(drip=rp[:len(rp) - 24])
                else:
                    add(drip=b'x')
                    add(drip=rp)
                    add(drip=b'\r\n')
                    if rp.endswith(b'END\r\n') and len(rp) > 5:
                        add(drip=rp[:-5])
                    k = rp.rfind(b'\r\n', 0, -2) + 2
                    if k > 2:
                        add(drip=rp[:k])
                        add(drip=rp[k:])
    return K, cases


def judge_stall(K, case, r):
    d = case['data']
    if 'setup' in r:
        return [('?setup', r['setup'])]
    if r.get('blocked'):
        what = 'does not read' if d['deaf'] else 'sends %s and then %s' % (concrete.show_reply(unb(d['part'])),
                                                                          'again and again %s' % concrete.show_reply(unb(d['drip'])) if d['drip'] else 'nothing')
        return [('C17.deadline', 'with a timeout of 150 ms the operation has not returned after 8 s while the server ' + what)]
    if r.get('again') == 'blocked':
        return [('C17.released', 'after an operation that failed the next one does not return')]
    return []


def build_locking(W, S, units, seed, count):
    """a second operation starts while the first one waits for its reply; an
    operation after one that failed"""
    K = Concrete(W, S)
    cases = []
    base = {}
    for u in units:
        if u.beh.adversarial or u.cname in base:
            continue
        cs = steps_of(K, u, random.Random('%s/%s' % (seed, u.name)), 4)
        cs = [c for c in cs if c['data']['steps'][0]['expect'] and len(c['data']['steps'][0]['reply']) < 4000]
        if cs:
            base[u.cname] = cs[0]
    for cn, c in base.items():
        rnd = random.Random('%s/%s' % (seed, cn))
        a = c['data']['steps'][0]
        pr = PROTO[c['unit'].tname]
        others = sorted(n for n in base if n.split('.')[0] == cn.split('.')[0])
        for n in sorted({cn, others[0], rnd.choice(others), rnd.choice(others)}):
            cases.append(dict(c, kind='lock', data={'proto': pr, 'A': a, 'B': base[n]['data']['steps'][0]}))
        rp = unb(a['reply'])
        parts = [b'', rp[:len(rp) // 2]] + [mutate(rp, rnd, k) for k in range(8)]
        if pr == 'Binary':
            parts = [tame(x) if len(x) >= 24 else x for x in parts]
            for st in (1, 2, 5, 0x81, 0xffff):
                h = bytearray(rp[:24])
                if len(h) == 24:
                    h[6:8] = st.to_bytes(2, 'big')
                    parts.append(bytes(h) + rp[24:])
            parts.append(b'\x80' + rp[1:])
        else:
            parts += [b'\r\n', b'ERROR\r\n', b'SERVER_ERROR x\r\n', b'NOT_FOUND\r\n', b'VALUE k 0 x\r\n', b'VALUE\r\n', b'NF\r\n', b'EX\r\n',
                      b'NS\r\n', b'EN\r\n', b'VA x\r\n', b'VA 1\r\n', b'HD\r\n']
        for x in parts:
            d = {'proto': pr, 'step': a, 'part': b64(x) if x else '', 'deaf': False}
            cases.append(dict(c, kind='free', data=d))
    return K, cases


def judge_lock(K, case, r):
    d = case['data']
    if 'setup' in r:
        return [('?setup', r['setup'])]
    if 'crash' in r:
        return []
    if r.get('inter'):
        return [('C08.locked', '%s uses the connection while %s waits for its reply: %s' % (
            d['B']['op'], d['A']['op'], concrete.show_reply(unb(r['inter']))))]
    if r.get('blocked') == 'b':
        return [('C08.released', '%s does not return after %s' % (d['B']['op'], d['A']['op']))]
    return []


def judge_free(K, case, r):
    if r.get('again') == 'blocked':
        return [('C08.released', '%s keeps the lock: the next operation does not return (reply %s)' % (
            case['unit'].cname, concrete.show_reply(unb(case['data']['part']))))]
    return []


class StallUnit(ClientUnit):
    """any bytes, delays and failures of the peer: the operation ends"""
    kind = 'stall'


def stall_units(W, S, tier, want):
    out = []
    for cn, c in S.contracts.items():
        if cn.split('.')[0] not in PROTO:
            continue
        for b in c.behaviors:
            if b.adversarial:
                for f in ('nil', 'empty', 'four') if any(t == 'item' for _, t in c.params) else (None,):
                    out.append(StallUnit(W, S, cn, b, f, None))
    return out


def build_beat(W, S, units, seed, count):
    K = Concrete(W, S)
    cases = []
    for u in units:
        pr, s = probe(K, PROTO[u.tname])
        auto = u.mode.startswith('reconnect')
        base = {'proto': PROTO[u.tname], 'auto': auto, 'request': b64(s), 'reply': pr['reply'], 'interval': 10}
        if u.mode.endswith('default'):
            cs = [dict(base, scenario='default', interval=0)]
        else:
            cs = [dict(base, scenario=x) for x in ('probe', 'fail', 'bad', 'closeduring')] + [dict(base, scenario='rare', interval=3600000)]
            if auto:
                cs.append(dict(base, scenario='outage'))
        for d in cs:
            cases.append({'unit': u, 'data': d, 'kind': 'beat', 'env': {}})
    return K, cases


def judge_beat(K, case, r):
    d = case['data']
    sc = d['scenario']
    out = []
    if 'setup' in r:
        return [('C16.started', 'the client with a heartbeat is not constructed: %s' % r['setup'])]
    if 'crash' in r:
        return [('C16.nopanic', 'the process ends: %s (scenario %s)' % (r['crash'], sc))]
    for k in ('panic', 'closepanic'):
        if r.get(k):
            out.append(('C16.nopanic', 'panic: %s (scenario %s)' % (r[k], sc)))
    if not r.get('ok'):
        ob = {'probe': 'C16.probe', 'default': 'C16.probe', 'rare': 'C16.interval', 'outage': 'C16.probing'}.get(sc, 'C16.action')
        what = {'probe': 'the heartbeat does not keep probing', 'default': 'no probe is made', 'rare': 'a probe before the interval is over',
                'outage': 'the heartbeat does not reconnect and probe when the server is back',
                'fail': 'the heartbeat does not reconnect and probe after a failure', 'bad': 'a failed probe is not followed by %s' % (
                    'a reconnect' if d['auto'] else 'Close')}[sc]
        out.append((ob, what))
    if not r.get('stopped'):
        out.append(('C16.stops', 'the heartbeat goroutine does not end after the client is closed (scenario %s)' % sc))
    if 'err' in r and not r['err']:
        if sc == 'closeduring':
            out.append(('C16.stayclosed', 'Close during a probe: the heartbeat reconnects the closed client, operations succeed'))
        else:
            out.append(('C16.action', 'the client is usable after a failed probe without reconnect'))
    if sc == 'closeduring' and r.get('conns', 1) > 1:
        out.append(('C16.stayclosed', 'Close during a probe: the heartbeat dials again'))
    if sc in ('fail', 'bad') and not d['auto'] and r.get('conns', 1) > 1:
        out.append(('C16.action', 'the heartbeat reconnects although this is not enabled'))
    return out


concrete.BUILDERS['life'] = build_life
concrete.BUILDERS['deadline'] = build_deadline
concrete.BUILDERS['beat'] = build_beat
concrete.JUDGES['life'] = judge_life
concrete.JUDGES['timeout'] = judge_timeout
concrete.JUDGES['beat'] = judge_beat
concrete.BUILDERS['stall'] = build_stall
concrete.JUDGES['stall'] = judge_stall
concrete.JUDGES['lock'] = judge_lock
concrete.JUDGES['free'] = judge_free
concrete.C08 = build_locking
