"""Explores all cases of a property module in parallel and reports."""
import collections
import json
import multiprocessing as mp
import os
import select
import subprocess
import sys
import time
import traceback
from multiprocessing.connection import wait

from . import boot, engine, rt, sx_sym

VERIF = boot.VERIF
REAL_PY = os.environ.get('VERIF_REAL_PY', '/opt/venv/bin/python')
REPLAY = os.path.join(VERIF, 'symx', 'replay.py')


class Real:
    """A process running the real code on witnesses."""

    def __init__(self):
        self.p = None

    def start(self):
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
        self.p = subprocess.Popen([REAL_PY, REPLAY, '--serve'], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, env=env, cwd='/')

    def ask(self, req, timeout=30):
        if self.p is None or self.p.poll() is not None:
            self.start()
        try:
            self.p.stdin.write((json.dumps(req) + '\n').encode())
            self.p.stdin.flush()
        except BrokenPipeError:
            self.p = None
            return {'status': 'error', 'detail': 'replay process died'}
        r, _, _ = select.select([self.p.stdout], [], [], timeout)
        if not r:
            self.p.kill()
            self.p = None
            return {'status': 'timeout'}
        line = self.p.stdout.readline()
        if not line:
            self.p = None
            return {'status': 'error', 'detail': 'replay process died'}
        return json.loads(line)

    def close(self):
        if self.p is not None:
            self.p.kill()


OPAQUE = '\x00opaque'


def same(a, b):
    if a == b:
        return True
    if isinstance(a, str) and OPAQUE in a and isinstance(b, str):
        return True
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        return all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b):
        return all(same(a[k], b[k]) for k in a)
    return False


def fails(real, req):
    """on the real code, in a process that ran other witnesses before or in one of its own"""
    if real.ask(req)['status'] == 'violation':
        return True
    own = Real()
    try:
        return own.ask(req)['status'] == 'violation'
    finally:
        own.close()


def run_path(c, prefix, seed, stats, path_s, confirm=None):
    sx_sym.unpatch()
    boot.reset()
    p = engine.Path(prefix, seed=seed, stats=stats)
    p.deadline = time.time() + path_s
    p.confirm = confirm
    engine.CTX = p
    res = {'status': 'done'}
    try:
        c['fn'](**c['params'])
    except engine.PathEnd:
        res['status'] = 'infeasible'
    except engine.Unsupported as e:
        res['status'] = 'unsupported'
        tb = traceback.extract_tb(e.__traceback__)
        where = next((f'{os.path.basename(f.filename)}:{f.lineno}' for f in reversed(tb) if '/symx/' not in f.filename), '')
        res['why'] = f'{e} @ {where}'
    except engine.Budget as e:
        res['status'] = 'budget'
        res['why'] = str(e)
    except engine.Violation as e:
        res.update(status='violation', label=e.label, witness=e.witness, detail=getattr(p, 'last_exc', ''))
    except RecursionError:
        res['status'] = 'unsupported'
        res['why'] = 'recursion limit'
    except Exception as e:
        res.update(status='exception', label='uncaught ' + type(e).__name__, detail=traceback.format_exc()[-2500:])
    if res['status'] in ('done', 'unsupported', 'budget', 'exception'):
        try:
            if res['status'] == 'done':
                sx_sym.force([v for _, v in p.observed])
            m = p.ensure_model()
            res['witness'] = p.witness(m)
            if res['status'] == 'done':
                res['observed'] = [[l, sx_sym.concrete(v, m)] for l, v in p.observed]
        except engine.PathEnd:
            res['status'] = 'infeasible'
        except engine.Unsupported as e:
            res['why'] = f'{e} (model)'
            res['status'] = 'unsupported'
    engine.CTX = None
    res['pending'] = p.pending
    res['checks'] = p.checks
    res['reached'] = p.reached
    res['knowns'] = p.knowns
    res['notes'] = p.notes
    res['spurious'] = p.spurious
    return res


def worker(conn, module, tier, seed, known, path_s):
    real = Real()
    stats = engine.Stats()
    sx_sym.TIER = tier
    sx_sym.KNOWN = frozenset(known)
    sent = set()
    try:
        while True:
            msg = conn.recv()
            if msg is None:
                break
            case, prefixes, budget_n, budget_s = msg
            c = sx_sym.CASES[case]
            stack = list(prefixes)
            t0 = time.time()
            q0, s0 = stats.queries, stats.solver_s
            agg = {'case': case, 'n': collections.Counter(), 'checks': 0, 'reached': set(), 'knowns': [], 'notes': set(),
                   'why': collections.Counter(), 'events': [], 'replays': 0, 'samples': []}
            n = 0
            while stack and n < budget_n and time.time() - t0 < budget_s:
                prefix = stack.pop()
                base = {'module': module, 'case': case, 'tier': tier, 'known': list(known)}
                r = run_path(c, prefix, seed, stats, path_s, lambda w: fails(real, dict(base, witness=w)))
                n += 1
                for label, w in r['spurious']:
                    agg['events'].append({'kind': 'spurious', 'label': label, 'detail': '', 'req': dict(base, witness=w)})
                stack.extend(r['pending'])
                agg['n'][r['status']] += 1
                agg['checks'] += r['checks']
                agg['reached'].update(r['reached'])
                agg['knowns'] += r['knowns']
                agg['notes'] |= r['notes']
                if 'why' in r:
                    agg['why'][r['why']] += 1
                req = dict(base, witness=r.get('witness'))
                st = r['status']
                if st in ('violation', 'exception'):
                    agg['events'].append({'kind': st, 'label': r['label'], 'detail': r.get('detail', ''), 'req': req})
                elif st in ('done', 'unsupported', 'budget') and r.get('witness') is not None:
                    rr = real.ask(req)
                    agg['replays'] += 1
                    if len(agg['samples']) < 2:
                        agg['samples'].append({'case': case, 'witness': req['witness']})
                    if rr['status'] == 'violation':
                        agg['events'].append({'kind': 'replay-' + st, 'label': rr['label'], 'detail': rr.get('detail', ''), 'req': req})
                    elif st == 'done':
                        if rr['status'] != 'ok':
                            agg['n']['mismatch'] += 1
                            agg['events'].append({'kind': 'mismatch', 'label': rr['status'], 'detail': str(rr)[:1500], 'req': req})
                        elif not same(r['observed'], rr['observed']):
                            agg['n']['mismatch'] += 1
                            agg['events'].append({'kind': 'mismatch', 'label': 'observed', 'detail': json.dumps([r['observed'], rr['observed']])[:3000], 'req': req})
                    for k, label in rr.get('known', ()):
                        agg['n']['known'] += 1
                        agg['knowns'].append((k, label, req['witness']))
                if any(e['kind'] not in ('mismatch', 'spurious') for e in agg['events']):
                    break
            agg['left'] = stack
            agg['queries'] = stats.queries - q0
            agg['solver_s'] = stats.solver_s - s0
            agg['unknown'] = stats.unknown
            new = rt.FUNCS - sent
            sent |= new
            agg['funcs'] = new
            conn.send(agg)
    except (EOFError, KeyboardInterrupt):
        pass
    finally:
        real.close()


def confirm(req, path):
    with open(path, 'w') as f:
        json.dump(req, f, indent=1, sort_keys=True)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
    try:
        r = subprocess.run([REAL_PY, REPLAY, path], capture_output=True, timeout=120, env=env, cwd='/')
    except subprocess.TimeoutExpired:
        return None, {'status': 'timeout'}
    try:
        out = json.loads(r.stdout)
    except ValueError:
        out = {'status': 'error', 'detail': r.stderr.decode('utf-8', 'replace')[-1500:]}
    return r.returncode == 1 and out['status'] == 'violation', out


class Report:
    def __init__(self):
        self.cases = {}
        self.funcs = set()
        self.violation = None
        self.spurious = []
        self.nspurious = 0
        self.mismatches = []
        self.knowns = {}
        self.samples = []
        self.unexplored = collections.Counter()
        self.timed_out = False

    def case(self, name):
        return self.cases.setdefault(name, {'paths': collections.Counter(), 'checks': 0, 'queries': 0, 'solver_s': 0.0, 'unknown': 0,
                                            'replays': 0, 'reached': set(), 'why': collections.Counter(), 'notes': set()})


def explore(prop, module, tier, seed, known, only=None, soft_s=420, workers=8, path_s=30, replay_dir=None, verbose=False):
    rep = Report()
    cases = {n: c for n, c in sx_sym.CASES.items() if c['fn'].__module__ == 'props.' + module
             and (c.get('tier', 'quick') == 'quick' or tier == 'thorough')}
    if only:
        cases = {n: c for n, c in cases.items() if only in n}
    t0 = time.time()
    ctxm = mp.get_context('fork')
    ws = []
    for _ in range(workers):
        a, b = ctxm.Pipe()
        p = ctxm.Process(target=worker, args=(b, module, tier, seed, known, path_s), daemon=True)
        p.start()
        b.close()
        ws.append((p, a))
    queue = collections.deque((n, [()]) for n in cases)
    count = collections.Counter()
    limits = {n: (c.get('max_paths') or (None)) for n, c in cases.items()}
    idle = [a for _, a in ws]
    busy = {}
    nviol = 0
    try:
        while queue or busy:
            if time.time() - t0 > soft_s:
                rep.timed_out = True
                for n, pf in queue:
                    rep.unexplored[n] += len(pf)
                queue.clear()
                if not busy:
                    break
            while queue and idle:
                n, pf = queue.popleft()
                lim = limits[n]
                if lim and tier == 'thorough':
                    lim *= 10
                if lim and count[n] >= lim:
                    rep.unexplored[n] += len(pf)
                    continue
                if len(pf) > 1 and len(queue) < len(ws):
                    h = len(pf) // 2
                    queue.append((n, pf[:h]))
                    pf = pf[h:]
                a = idle.pop()
                few = len(queue) < 2 * len(ws)
                a.send((n, pf, 6 if few else 60, 0.7 if few else 3))
                busy[a] = n
            if not busy:
                break
            for a in wait(list(busy), timeout=1):
                try:
                    agg = a.recv()
                except EOFError:
                    n = busy.pop(a)
                    rep.case(n)['notes'].add('worker died')
                    rep.unexplored[n] += 1
                    ws = [(p, x) for p, x in ws if x is not a]
                    continue
                n = busy.pop(a)
                idle.append(a)
                c = rep.case(n)
                c['paths'] += agg['n']
                count[n] += sum(v for k, v in agg['n'].items() if k not in ('mismatch', 'known'))
                for k in ('checks', 'queries', 'solver_s', 'replays'):
                    c[k] += agg[k]
                c['reached'] |= agg['reached']
                c['why'] += agg['why']
                c['notes'] |= agg['notes']
                rep.funcs |= agg['funcs']
                if len(rep.samples) < 12:
                    rep.samples += agg['samples'][:1]
                for k, label, w in agg['knowns']:
                    rep.knowns.setdefault(k, {'label': label, 'witness': w, 'case': n})
                for e in agg['events']:
                    if e['kind'] == 'mismatch':
                        if len(rep.mismatches) < 20:
                            rep.mismatches.append(e)
                        continue
                    if e['kind'] == 'spurious':
                        rep.nspurious += 1
                        if len(rep.spurious) < 20:
                            rep.nspurious += 1
                        rep.spurious.append({'case': n, 'label': e['label'], 'witness': e['req']['witness']})
                        if verbose:
                            print('  SPURIOUS', n, e['label'], json.dumps(e['req']['witness'])[:300])
                        continue
                    nviol += 1
                    if nviol > 40:
                        continue
                    path = os.path.join(replay_dir, f'{prop}-{nviol}.json')
                    ok, out = confirm(e['req'], path)
                    if verbose:
                        print('  event', e['kind'], e['label'], 'confirmed' if ok else 'NOT reproduced', json.dumps(e['req']['witness'])[:300], out.get('label'),
                              (out.get('detail') or e['detail'])[-900:] if verbose > 1 or not ok else '')
                    if ok:
                        if rep.violation is None:
                            rep.violation = {'label': out['label'], 'case': n, 'replay': path, 'witness': e['req']['witness'],
                                             'detail': out.get('detail', ''), 'found': e['kind']}
                            rep.viols = []
                        rep.viols.append((n, out['label'], path))
                    else:
                        rep.nspurious += 1
                        rep.spurious.append({'case': n, 'label': e['label'], 'witness': e['req']['witness'], 'detail': e['detail'][-1500:], 'concrete': out})
                        os.unlink(path)
                if agg['left']:
                    left = agg['left']
                    queue.append((n, left))
                if rep.violation and not (verbose and verbose > 2):
                    return rep, time.time() - t0
    finally:
        for p, a in ws:
            try:
                a.send(None)
            except (BrokenPipeError, OSError):
                pass
        deadline = time.time() + 2
        for p, a in ws:
            p.join(max(0, deadline - time.time()))
            if p.is_alive():
                p.terminate()
    return rep, time.time() - t0
