"""Which units decide which property, and the runner of one check."""
import json
import os
import re
import signal
import subprocess
import sys
import tempfile
import time
import traceback
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from verify import *
import concrete
import models
import engine
import pool
import poolcases
import ring
import server
import servercases
import life
import lifecases
import race

PROTOS = ('ServerWithTextProtocol', 'ServerWithMetaProtocol', 'ServerWithBinaryProtocol')


# ---------------------------------------------------------------- build
def goenv():
    e = dict(os.environ)
    e.update(GOFLAGS='-mod=mod', GOPROXY='off', GOSUMDB='off', GOTOOLCHAIN='local')
    e.setdefault('HOME', '/root')
    return e


class ToolError(Exception):
    pass


def build_tools():
    exe = os.path.join(ROOT, 'bin', 'ssadump')
    srcs = [os.path.join(HERE, 'ssadump', f) for f in os.listdir(os.path.join(HERE, 'ssadump'))]
    if not os.path.exists(exe) or any(os.path.getmtime(s) > os.path.getmtime(exe) for s in srcs):
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        r = subprocess.run(['go', 'build', '-o', exe + '.tmp%d' % os.getpid(), '.'], cwd=os.path.join(HERE, 'ssadump'), env=goenv(),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise ToolError('ssadump: ' + r.stdout.decode())
        os.rename(exe + '.tmp%d' % os.getpid(), exe)
    return exe


def dump(tmp):
    exe = build_tools()
    out = os.path.join(tmp, 'ssa.json')
    r = subprocess.run([exe, '-dir', REPO, '-o', out], env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise ToolError('ssadump: ' + r.stdout.decode())
    with open(out) as f:
        return json.load(f)


def build_driver(tmp, race=False):
    d = os.path.join(ROOT, 'replay')
    ov = {'Replace': {os.path.join(REPO, 'cmd', 'vreplay', f): os.path.join(d, f) for f in os.listdir(d) if f.endswith('.go')}}
    p = os.path.join(tmp, 'overlay.json')
    with open(p, 'w') as f:
        json.dump(ov, f)
    exe = os.path.join(tmp, 'vreplay')
    r = None
    if race:
        r = subprocess.run(['go', 'build', '-race', '-overlay', p, '-o', exe, './cmd/vreplay'], cwd=REPO, env=dict(goenv(), CGO_ENABLED='1'),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            print('the race detector is not available: ' + r.stdout.decode()[-300:])
    if r is None or r.returncode:
        r = subprocess.run(['go', 'build', '-overlay', p, '-o', exe, './cmd/vreplay'], cwd=REPO, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise ToolError('replay driver: ' + r.stdout.decode())
    return exe


# ---------------------------------------------------------------- units
def client_units(W, S, tier, want):
    out = []
    for cn, c in S.contracts.items():
        if cn.split('.')[0] not in PROTOS:
            continue
        for b in c.behaviors:
            fcs = ['nil', 'empty', 'four'] if any(t == 'item' for _, t in c.params) else [None]
            ns = [None]
            if any(t == 'keys' for _, t in c.params):
                ns = [None] if b.adversarial else ([1, 2, 3] if tier == 'quick' else [1, 2, 3, 4, 5])
            for f in fcs:
                for n in ns:
                    u = ClientUnit(W, S, cn, b, f, n)
                    if want(u):
                        out.append(u)
    return out


def pool_units(tname, prop):
    def go(W, S, tier, want):
        out = []
        for cn, c in S.contracts.items():
            t, op = cn.split('.')
            if t != tname:
                continue
            if op in ('Flush', 'Version', 'Close'):
                out += [pool.EventUnit(W, S, cn, prop, ns=k) for k in ((1, 2, 3) if tier == 'quick' else (1, 2, 3, 4, 5))]
            elif any(ty == 'item' for _, ty in c.params):
                out += [pool.EventUnit(W, S, cn, prop, flagcase=f) for f in ('nil', 'empty', 'four')]
            elif any(ty == 'keys' for _, ty in c.params):
                out += [pool.EventUnit(W, S, cn, prop, n=k, sizes=z) for k in (0, 1, 2, 3)
                        for z in ('any', 'few')]
            else:
                out.append(pool.EventUnit(W, S, cn, prop))
        return out
    return go


def tags(u):
    t = set()
    for cl in u.beh.ensures + u.c.ensures:
        t |= set(cl.tags)
    return t


def has(P):
    return lambda u: P in tags(u)


exact = lambda u: not u.beh.adversarial
anyunit = lambda u: True
wellformed = lambda u: not u.beh.adversarial and not u.malformed

SUITES = {
    'C01': [(client_units, exact)],
    'C02': [(client_units, has('C02'))],
    'C03': [(client_units, has('C03'))],
    'C04': [(client_units, has('C04'))],
    'C05': [(client_units, exact)],
    'C06': [(client_units, anyunit)],
    'C07': [(client_units, anyunit)],
    'C08': [(client_units, anyunit)],
    'C09': [(ring.units, anyunit)],
    'C10': [(pool_units('SinglePool', 'C10'), anyunit)],
    'C12': [(server.units, wellformed)],
    'C13': [(server.units, anyunit)],
    'C14': [(server.units, wellformed)],
    'C11': [(pool_units('ReplicaPool', 'C11'), anyunit)],
    'C15': [(pool.proxy_units, anyunit)],
    'C17': [(lifecases.stall_units, anyunit)],
    'C16': [(life.units, anyunit)],
    'C18': [(race.units, anyunit)],
}


def units_of(W, S, prop, tier):
    out = []
    for f, want in SUITES[prop]:
        out += f(W, S, tier, want)
    return out


# ---------------------------------------------------------------- scheduler
def run_parallel(tasks, jobs, limit, deadline):
    """tasks: [(name, fn)] -> {name: result | {'error'}}; each in its own process"""
    res = {}
    queue = list(tasks)
    live = {}
    while queue or live:
        while queue and len(live) < jobs and time.time() < deadline:
            name, fn = queue.pop(0)
            r, w = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    os.setpgid(0, 0)
                    out = {}
                    try:
                        out = fn()
                    except BaseException as e:
                        out = {'error': '%s: %s' % (type(e).__name__, e), 'trace': traceback.format_exc()[-2000:]}
                    with os.fdopen(w, 'w') as f:
                        json.dump(out, f)
                finally:
                    os._exit(0)
            os.close(w)
            live[pid] = [name, r, b'', time.time()]
        if queue and time.time() >= deadline:
            for name, _ in queue:
                res[name] = {'error': 'not started: time budget of the check used up'}
            queue = []
        if not live:
            continue
        import select
        rd, _, _ = select.select([v[1] for v in live.values()], [], [], 0.5)
        for pid in list(live):
            v = live[pid]
            if v[1] in rd:
                b = os.read(v[1], 1 << 20)
                if b:
                    v[2] += b
                    continue
                os.close(v[1])
                os.waitpid(pid, 0)
                del live[pid]
                try:
                    res[v[0]] = json.loads(v[2].decode())
                except ValueError:
                    res[v[0]] = {'error': 'the verifier process ended without a result'}
            elif time.time() - v[3] > limit or time.time() > deadline + 20:
                try:
                    os.killpg(pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                try:
                    os.kill(pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                os.close(v[1])
                os.waitpid(pid, 0)
                del live[pid]
                res[v[0]] = {'error': 'time limit of %d s' % limit}
    return res


# ---------------------------------------------------------------- known findings
def known_findings():
    """[(property, unit regex, obligation)] of lines 'known: property=.. unit=.. obligation=.. :: text'"""
    out = []
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        with open(p) as f:
            for l in f:
                m = re.match(r'known: property=(\S+) unit=(\S+) obligation="(.*)" :: (.*)$', l.strip())
                if m:
                    out.append(m.groups())
    return out


def is_known(prop, unit, ob):
    for k in known_findings():
        if k[0] == prop and k[1] == unit and k[2] == ob:
            return k
    return None


# ---------------------------------------------------------------- one check
def run_unit(u):
    def go():
        engine.STATS.__init__()
        models.USED.clear() if hasattr(models.USED, 'clear') else None
        r = u.run()
        j = r.js()
        if hasattr(r, 'acc'):
            j['acc'] = r.acc
        j['solver_s'] = engine.STATS.solver_time
        j['solver_calls'] = engine.STATS.solver_calls
        j['solver_unknown'] = engine.STATS.unknown
        j['used'] = sorted(models.USED)
        return j
    return go


def confirmed(K, c, ob, exe):
    """the case fails again when it runs alone (twice): the load of the machine is not a failure"""
    for _ in range(2):
        res, rc, err = concrete.Driver(exe).run([c])
        if res[0] is None:
            return False
        if not any(o == ob for o, _ in concrete.JUDGES[c['kind']](K, c, res[0])):
            return False
    return True


def concrete_task(W, S, units, seed, count, exe, prop):
    def go():
        out = {'failures': [], 'cases': 0, 'samples': [], 'undriven': 0}
        kinds = {}
        for u in units:
            kinds.setdefault(u.kind, []).append(u)
        for kind, us in kinds.items():
            b = concrete.BUILDERS.get(kind) if prop != 'C08' else concrete.C08
            if b is None:
                continue
            K, cases = b(W, S, us, seed, count)
            res, rc, err = concrete.Driver(exe, 90 if count <= 40 else 900).run(cases)
            out['cases'] += len(cases)
            if rc != 0 and not any(r is not None and 'crash' in r for r in res):
                out['driver'] = 'exit %d: %s' % (rc, err)
            n = {}
            tries = 0
            for c, r in zip(cases, res):
                if r is None:
                    out['undriven'] += 1
                    continue
                if len(out['samples']) < 3 and len(json.dumps(c['data'])) < 1500:
                    out['samples'].append({'unit': c['unit'].name, 'case': c['data'], 'result': r})
                for ob, msg in concrete.JUDGES[c['kind']](K, c, r):
                    if prop_of(ob) != prop:
                        continue
                    k = (c['unit'].name, ob)
                    n[k] = n.get(k, 0) + 1
                    if n[k] > 2 or len(out['failures']) >= 4 or tries >= 6:
                        continue
                    tries += 1
                    if confirmed(K, c, ob, exe):
                        out['failures'].append({'unit': c['unit'].name, 'ob': ob, 'msg': msg, 'kind': c['kind'], 'case': c['data'], 'result': r})
        return out
    return go


def replay_models(W, S, byname, failed, exe, prop):
    """run the verifier's counterexamples on the real code; [(unit, ob, failure)]"""
    cases = []
    K = concrete.Concrete(W, S)
    for un, j in failed:
        u = byname[un]
        f = concrete.CX.get(u.kind)
        if f is None:
            continue
        for m in j.get('models', []):
            if prop_of(m['ob']) != prop:
                continue
            try:
                c = f(K, u, m['env'])
            except Exception as e:
                continue
            cases.append((un, m['ob'], c))
    if not cases:
        return []
    res, rc, err = concrete.Driver(exe).run([c for _, _, c in cases])
    out = []
    for (un, ob, c), r in zip(cases, res):
        if r is None or len(out) >= 6:
            continue
        for ob2, msg in concrete.JUDGES[c['kind']](K, c, r):
            if prop_of(ob2) == prop and confirmed(K, c, ob2, exe):
                out.append({'unit': un, 'ob': ob2, 'msg': msg, 'kind': c['kind'], 'case': c['data'], 'result': r, 'refutes': ob})
    return out


def write_replay(prop, k, d):
    p = os.path.join(ROOT, 'evidence', 'replays')
    os.makedirs(p, exist_ok=True)
    fn = os.path.join(p, '%s-%d.json' % (prop, k))
    with open(fn, 'w') as f:
        json.dump(d, f, indent=1)
    return fn


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    quick = tier == 'quick'
    tmp = tempfile.mkdtemp(prefix='vcheck-')
    try:
        return check1(prop, tier, quick, seed, tmp, t0)
    finally:
        subprocess.run(['rm', '-rf', tmp])


def check1(prop, tier, quick, seed, tmp, t0):
    js = dump(tmp)
    exe = build_driver(tmp, prop == 'C18')
    S = Spec.all(os.path.join(ROOT, 'contracts'))
    werr = None
    W = World(js)
    units = units_of(W, S, prop, tier)
    byname = {u.name: u for u in units}
    deadline = t0 + (480 if quick else 3000)
    limit = 300 if quick else 1500
    tasks = [('$concrete', concrete_task(W, S, units, seed, 40 if quick else 400, exe, prop))]
    order = sorted(units, key=lambda u: -cost(u))
    tasks += [(u.name, run_unit(u)) for u in order]
    res = run_parallel(tasks, 8, limit, deadline)
    conc = res.pop('$concrete')
    if prop == 'C18':
        for u, j in race.combine(units, res):
            units.append(u)
            byname[u.name] = u
            res[u.name] = j
    # ---- obligations of this property
    total = discharged = 0
    inst = 0
    refuted, undecided, known = [], [], []
    bounded = set()
    fns = set()
    used = set()
    vac = []
    solver_s = solver_calls = paths = 0
    for u in units:
        j = res.get(u.name, {'error': 'no result'})
        if 'error' in j:
            undecided.append((u.name, '*', j['error']))
            continue
        obs = {k: v for k, v in j['obs'].items() if prop_of(k) == prop}
        solver_s += j['solver_s']
        solver_calls += j['solver_calls']
        paths += j['paths']
        used |= set(j['used'])
        fns.add(u.function())
        if j['bounded']:
            bounded.add('%s: %s' % (u.function(), j['bounded']))
        if not j['reach']:
            vac.append(u.name)
        vacuous = [k for k in j['obs'] if k == 'vacuous']
        if vacuous:
            refuted.append((u.name, 'vacuous', 'the behaviour has no instances', j))
        for x in j['unsupported']:
            undecided.append((u.name, '*', x))
        for k, v in sorted(obs.items()):
            total += 1
            inst += v['ok'] + v['fail'] + v['unknown']
            if v['fail']:
                kf = is_known(prop, u.name, k)
                if kf:
                    known.append((u.name, k, kf[3]))
                    total -= 1
                else:
                    refuted.append((u.name, k, v['msgs'][0], j))
            elif v['unknown']:
                undecided.append((u.name, k, v['msgs'][0]))
            elif not j['unsupported']:
                discharged += 1
    # ---- violations
    viol = []
    confirmed = {}
    cfail = conc.get('failures', [])
    if refuted:
        try:
            cfail = replay_models(W, S, byname, [(u, j) for u, _, _, j in refuted], exe, prop) + cfail
        except Exception as e:
            print('counterexample replay: %s' % e)
    kprinted = set()
    for f in cfail:
        kf = is_known(prop, f['unit'], f['ob'])
        if kf:
            known.append((f['unit'], f['ob'], kf[3]))
            continue
        confirmed.setdefault((f['unit'], f['ob']), f)
    for u, ob, txt in known:
        if txt not in kprinted:
            kprinted.add(txt)
            print('KNOWN-FINDING: property=%s %s' % (prop, txt))
    n = 0
    # confirmed on the real code
    for (u, ob), f in list(confirmed.items())[:5]:
        refs = [r for r in refuted if r[0] == u]
        p = write_replay(prop, n, {'property': prop, 'unit': u, 'obligation': ob, 'what': f['msg'], 'kind': f['kind'], 'case': f['case'],
                                   'result': f['result'], 'verifier': [{'obligation': r[1], 'output': r[2]} for r in refs][:5],
                                   'rerun': '/verif/check --replay THIS_FILE'})
        print('%s: obligation %s fails: %s' % (u, ob, f['msg'][:400]))
        print('VIOLATION property=%s replay=%s' % (prop, p))
        n += 1
    if not confirmed:
        for u, ob, msg, j in refuted[:5]:
            p = write_replay(prop, n, {'property': prop, 'unit': u, 'obligation': ob, 'verifier_output': msg})
            print('%s: obligation %s is refuted: %s' % (u, ob, msg[:600]))
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, p))
            n += 1
    for x in undecided[:10]:
        print('undecided: %s %s: %s' % (x[0], x[1], x[2][:200]))
    if 'error' in conc:
        print('concrete cross-check: %s' % conc['error'])
        print(conc.get('trace', ''))
    # ---- evidence
    cov = {
        'obligations': total, 'discharged': discharged, 'obligation_instances': inst,
        'checker_cmd': '/verif/check %s' % prop,
        'functions_under_contract': sorted(fns),
        'units': len(units), 'paths': paths,
        'backend': 'z3 %s (python API) over conditions generated by /verif/govc from the go/ssa form of /repo' % z3.get_version_string(),
        'solver_calls': solver_calls, 'solver_time_s': round(solver_s, 2),
        'trusted_base': sorted(used) + TRUSTED,
        'bounded': sorted(bounded),
        'undecided': [{'unit': a, 'obligation': b, 'why': c[:300]} for a, b, c in undecided[:50]],
        'undecided_count': len(undecided),
        'vacuous_units': vac,
        'known_findings': sorted({t for _, _, t in known}),
        'concrete_cross_check_cases': conc.get('cases', 0),
        'concrete_cross_check_error': conc.get('error', ''),
        'samples': conc.get('samples', []),
        'evaluations': conc.get('cases', 0),
        'distinct_nontrivial': conc.get('cases', 0) - conc.get('undriven', 0),
        'rule': 'boundary values of every contract variable, replies rendered by the contract, mutated and truncated replies for the adversarial behaviours; every case is run on the real code and judged by the contract clauses',
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof', 'coverage': cov,
          'assumptions': ASSUMPTIONS, 'wall_s': round(time.time() - t0, 1), 'violations': n}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d obligations (%d instances), %d discharged, %d refuted, %d undecided items; %d concrete cases; %.1f s' % (
        prop, total, inst, discharged, len(refuted), len(undecided), conc.get('cases', 0), time.time() - t0))
    return 1 if n else 0


def cost(u):
    n = u.name
    return (n == 'Server.any/any') * 1000 + ('GetMulti' in n) * 100 + ('/any' in n) * 10 + ('Binary' in n) * 5 + (getattr(u, 'n', 0) or 0)


TRUSTED = [
    'golang.org/x/tools/go/ssa: the SSA form is the program that runs',
    'the symbolic executor /verif/govc (engine.py, loops.py, rope.py, terms.py)',
    'z3',
]
ASSUMPTIONS = [
    'the standard library behaves as the contracts in /verif/govc/models.py say (bufio, net, fmt, strconv, strings, bytes, encoding/binary, io, sync, sort, time, errors, crypto/sha1)',
    'goroutines only interact through the mutexes and channels of the code; that no unlocked field is shared is property C18',
    'no allocation failure; lengths of byte strings below 2^40',
]


def main(argv):
    if argv[:1] == ['--replay']:
        with open(argv[1]) as f:
            d = json.load(f)
        tmp = tempfile.mkdtemp(prefix='vreplay-')
        try:
            exe = build_driver(tmp, d['kind'] == 'race')
            res, rc, err = concrete.Driver(exe).run([{'kind': d['kind'], 'data': d['case']}])
            print(json.dumps(res[0], indent=1), err)
        finally:
            subprocess.run(['rm', '-rf', tmp])
        return 0
    if argv[:1] == ['--setup']:
        build_tools()
        print('ssadump built, z3 %s' % z3.get_version_string())
        return 0
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        tier = 'thorough'
        argv = [a for a in argv if a != '--thorough']
    return check(argv[0], tier)


if __name__ == '__main__':
    try:
        rc = main(sys.argv[1:])
    except ToolError as e:
        print(str(e)[-3000:])
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
