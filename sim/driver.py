"""Runs a property's simulations across worker processes, minimises and confirms
violations, writes evidence."""
import hashlib
import json
import os
import random
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(HERE, 'evidence')
rt = time.time
CPU_LIMIT = 90          # seconds of CPU for one run; ordinary runs need well under one


class Hang(Exception):
    pass


def derive(seed, prop, i):
    return int(hashlib.sha256(('%s:%s:%s' % (seed, prop, i)).encode()).hexdigest()[:12], 16)


def h(x):
    return hashlib.sha256(json.dumps(x, sort_keys=True, default=str).encode()).hexdigest()[:12]


def _alarm(sig, frm):
    raise Hang('more than %d s of CPU time in one run' % CPU_LIMIT)


def run_case(P, case):
    """Runs one case.  Returns (stats, None) or (stats, violation)."""
    from .graph import Violation
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
    try:
        return P.run(case), None
    except Violation as v:
        return {}, v
    except Hang as e:
        v = Violation('no-progress', str(e))
        return {}, v
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def shrink(P, case, cls, budget=75.0):
    """Greedy minimisation: keep a smaller case if the same class of violation persists."""
    t0 = rt()
    cur = case
    tried = 0
    progress = True
    while progress and rt() - t0 < budget:
        progress = False
        for cand in P.smaller(cur):
            if rt() - t0 > budget:
                break
            tried += 1
            try:
                _, v = run_case(P, cand)
            except Exception:
                continue
            if v is not None and v.cls == cls:
                cur = getattr(v, 'case', None) or cand
                progress = True
                break
    return cur, tried


def smaller_prog(case, key='prog'):
    """Cases with parts of the program removed, large chunks first."""
    prog = case[key]
    n = len(prog)
    size = max(1, n // 2)
    while size >= 1:
        i = n - size
        while i >= 0:
            c = dict(case)
            c[key] = prog[:i] + prog[i + size:]
            if c[key]:
                yield c
            i -= size
        if size == 1:
            break
        size //= 2


def worker(P, seed, tier, idxs, out, deadline):
    sys.setrecursionlimit(3000)
    res = {'runs': 0, 'stats': {}, 'sig': set(), 'nontrivial': set(), 'samples': [], 'viol': None, 'error': None,
           'log': hashlib.sha256()}
    try:
        for i in idxs:
            if rt() > deadline:
                break
            s = derive(seed, P.id, i)
            case = P.generate(random.Random(s), s, tier)
            st, v = run_case(P, case)
            res['runs'] += 1
            if v is not None:
                bad = getattr(v, 'case', None) or case
                res['viol'] = {'index': i, 'seed': s, 'cls': v.cls, 'detail': v.detail, 'case': bad}
                break
            for k, n in st.items():
                if k[0] != '_':
                    res['stats'][k] = res['stats'].get(k, 0) + n
            for g in (st.get('_sigs') or [h(P.signature(case, st))]):
                res['sig'].add(g)
                if P.nontrivial(case, st):
                    res['nontrivial'].add(g)
            if len(res['samples']) < 1:
                res['samples'].append({'run': i, 'seed': s, 'case': P.sample(case)})
            res['log'].update(json.dumps([i, sorted((k, n) for k, n in st.items() if k[0] != '_')]).encode())
    except Exception:
        res['error'] = traceback.format_exc()
    res['sig'] = sorted(res['sig'])
    res['nontrivial'] = sorted(res['nontrivial'])
    res['log'] = res['log'].hexdigest()
    with open(out + '.tmp', 'w') as f:
        json.dump(res, f, default=str)
    os.rename(out + '.tmp', out)


def _spawn(P, seed, tier, idxs, out, deadline):
    pid = os.fork()
    if pid == 0:
        try:
            os.setpgid(0, 0)
            worker(P, seed, tier, idxs, out, deadline)
        except BaseException:
            traceback.print_exc()
        finally:
            sys.stdout.flush()
            os._exit(0)
    return pid


def nworkers():
    v = os.environ.get('VERIF_WORKERS')
    return int(v) if v else max(1, min(8, os.cpu_count() or 1))


def explore(P, seed, tier, nruns, cap, first=0):
    """Fork workers, collect their results.  Stops early on a violation."""
    import tempfile
    import shutil
    nw = nworkers()
    d = tempfile.mkdtemp(prefix='chumpy-sim-')
    t0 = rt()
    deadline = t0 + cap
    pids, outs = {}, []
    try:
        P.warm()
        for w in range(nw):
            o = os.path.join(d, 'w%d.json' % w)
            outs.append(o)
            pids[_spawn(P, seed, tier, list(range(first + w, nruns, nw)), o, deadline)] = o
        results = []
        hard = deadline + CPU_LIMIT + 60
        while pids:
            pid, st = os.waitpid(-1, os.WNOHANG)
            if pid == 0:
                if rt() > hard:
                    break
                time.sleep(.05)
                continue
            o = pids.pop(pid, None)
            if o and os.path.exists(o):
                r = json.load(open(o))
                results.append(r)
                if r['viol'] is not None:
                    break
            elif o:
                results.append({'runs': 0, 'stats': {}, 'sig': [], 'nontrivial': [], 'samples': [], 'viol': None,
                                'error': 'a worker died (status %s)' % st, 'log': ''})
        for p in pids:
            try:
                os.killpg(p, signal.SIGKILL)
            except OSError:
                try:
                    os.kill(p, signal.SIGKILL)
                except OSError:
                    pass
        for p in list(pids):
            try:
                os.waitpid(p, 0)
            except OSError:
                pass
        unfinished = len(pids)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return results, rt() - t0, unfinished


def known_findings():
    fn = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(fn):
        return []
    return json.load(open(fn))


def matches(P, v, case):
    """A recorded finding that this violation is an instance of, or None."""
    for k in known_findings():
        if k.get('status') != 'open' or k['property'] != P.id:
            continue
        if k['class'] == v['cls'] and all(s in v['detail'] for s in k['contains']):
            return k
    return None


def check(P, seed, tier):
    t0 = rt()
    os.makedirs(EVID, exist_ok=True)
    nruns, cap = P.budget(tier)
    if os.environ.get('VERIF_RUNS'):
        nruns = int(os.environ['VERIF_RUNS'])
    results, wall, rep, lost, first = [], 0.0, None, [], 0
    for attempt in range(6):
        res, w, unfinished = explore(P, seed, tier, nruns, max(5.0, cap - wall), first)
        wall += w
        results += res
        found = [r['viol'] for r in res if r['viol']]
        if not found:
            break
        # a violation counts once it was replayed in a fresh process
        for v in sorted(found, key=lambda x: x['index']):
            rep = report(P, v, seed)
            if rep is not None:
                break
            lost.append(v)
            first = max(first, v['index'] + 1)
        if rep is not None:
            break
    runs = sum(r['runs'] for r in results)
    errors = [r['error'] for r in results if r['error']]
    stats = {}
    for r in results:
        for k, n in r['stats'].items():
            stats[k] = stats.get(k, 0) + n
    sig, nt = set(), set()
    for r in results:
        sig.update(r['sig'])
        nt.update(r['nontrivial'])
    code = 0
    msg = []
    reported = 0
    if rep is not None:
        reported = 1
        code = 1
        msg.append('VIOLATION property=%s replay=%s' % (P.id, rep['path']))
        msg.append('  %s: %s' % (rep['cls'], rep['detail']))
        msg.append('  run %s, seed %s, minimised to %s steps after %s attempts; replayed identically in a fresh process' % (
            v['index'], v['seed'], rep['size'], rep['tried']))
    elif lost:
        v = lost[0]
        code = 2
        msg.append('HARNESS: %d runs failed but do not replay; run %s (seed %s): %s %s' % (
            len(lost), v['index'], v['seed'], v['cls'], v['detail']))
    elif errors:
        code = 2
        msg.append('HARNESS ERROR: ' + errors[0])
    elif runs < max(1, nruns // 10):
        code = 2
        msg.append('HARNESS: only %d of %d runs finished in %.0f s' % (runs, nruns, wall))
    samples = [s for r in results for s in r['samples']][:3]
    cov = {
        'evaluations': runs,
        'distinct_nontrivial': len(nt),
        'rule': P.rule,
        'samples': samples or [{'note': 'stopped before a run finished'}],
        'distinct_signatures': len(sig),
        'signature': P.sigrule,
        'runs_per_hour': int(runs / max(wall, 1e-9) * 3600),
        'seeds_per_hour': int(runs / max(wall, 1e-9) * 3600),
        'planned_runs': nruns,
        'verif_seed': seed,
        'workers': nworkers(),
        'event_log_digest': hashlib.sha256(''.join(sorted(r['log'] for r in results)).encode()).hexdigest()[:16],
        'faults_injected': {k[6:]: n for k, n in sorted(stats.items()) if k.startswith('fault:')},
        'reached': {k: n for k, n in sorted(stats.items()) if not k.startswith('fault:') and not k.startswith('simtime')},
        'simulated_seconds': round(stats.get('simtime_ms', 0) / 1000.0, 3),
        'real_code': P.real,
        'stubbed': P.stub,
    }
    ev = {'property': P.id, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
          'assumptions': P.assumptions, 'wall_s': round(rt() - t0, 2), 'violations': reported}
    with open(os.path.join(EVID, P.id + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for k in known_findings():
        if k.get('status') == 'open' and k['property'] == P.id:
            print('KNOWN-FINDING: property=%s %s' % (P.id, k['what']))
    if code == 0:
        print('OK property=%s runs=%d distinct=%d wall=%.1fs' % (P.id, runs, len(nt), rt() - t0))
    for m in msg:
        print(m)
    sys.stdout.flush()
    return code


def write_replay(P, seed, case, cls, detail, name):
    path = os.path.join(EVID, name)
    with open(path, 'w') as f:
        json.dump({'property': P.id, 'verif_seed': seed, 'class': cls, 'detail': detail, 'case': case}, f, indent=1,
                  default=str)
    return path


def report(P, v, seed):
    """Minimise in a child process, confirm in a fresh interpreter."""
    orig = write_replay(P, seed, v['case'], v['cls'], v['detail'], 'orig-%s-%s.json' % (P.id, v['index']))
    final = os.path.join(EVID, 'replay-%s-%s.json' % (P.id, v['index']))
    me = os.path.join(HERE, 'check.py')
    tried = 0
    for attempt in ('min', 'orig'):
        if attempt == 'min':
            try:
                p = subprocess.run([sys.executable, me, 'shrink', orig, final], timeout=300, stdout=subprocess.PIPE,
                                   stderr=subprocess.PIPE)
                if p.returncode != 0 or not os.path.exists(final):
                    continue
                tried = int(p.stdout.split()[-1])
            except (subprocess.TimeoutExpired, ValueError, IndexError):
                continue
            path = final
        else:
            path = orig
        try:
            p = subprocess.run([sys.executable, me, 'replay', path], timeout=CPU_LIMIT * 2 + 60, stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE)
        except subprocess.TimeoutExpired:
            continue
        if p.returncode == 1:
            d = json.load(open(path))
            return {'path': path, 'cls': d['class'], 'detail': d['detail'], 'tried': tried, 'size': P.size(d['case'])}
    return None


def do_shrink(P, src, dst):
    d = json.load(open(src))
    _, v = run_case(P, d['case'])
    if v is None or v.cls != d['class']:
        return 3
    case, tried = shrink(P, getattr(v, 'case', None) or d['case'], d['class'])
    _, v = run_case(P, case)
    if v is None:
        return 3
    d['case'] = getattr(v, 'case', None) or case
    d['class'], d['detail'] = v.cls, v.detail
    with open(dst, 'w') as f:
        json.dump(d, f, indent=1, default=str)
    print(tried)
    return 0


def do_replay(P, src):
    d = json.load(open(src))
    _, v = run_case(P, d['case'])
    if v is None:
        print('NOT REPRODUCED property=%s %s' % (P.id, src))
        return 0
    same = v.cls == d['class'] and v.detail == d['detail']
    print('VIOLATION property=%s replay=%s' % (P.id, src))
    print('  %s: %s%s' % (v.cls, v.detail, '' if same else '   (recorded as %s: %s)' % (d['class'], d['detail'])))
    return 1
