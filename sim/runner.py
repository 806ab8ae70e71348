"""Runs a property's simulations, minimises what fails, writes replay and evidence files.

  python -m sim.runner check C01            (VERIF_SEED, VERIF_TIER from the environment)
  python -m sim.runner replay replays/x.json
"""
import hashlib
import importlib
import json
import os
import resource
import signal
import subprocess
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = sys.executable
WALL = time.time

from . import world, loader, base
from .world import Violation, StepLimit, Random

SOFT = {'quick': 420.0, 'thorough': 3300.0}        # no new runs are begun after that many seconds
HARD = {'quick': 780.0, 'thorough': 6900.0}        # a run that does not come back: error exit
WORKERS = 8


def module(pid):
    return importlib.import_module('sim.props.' + pid.lower())


def prepare(m):
    st = None
    if getattr(m, 'PLOTTING', False):
        from . import plotstub
        st = plotstub.make()
    loader.load(st)


class Result:
    pass


def execute(m, plan):
    """one simulated run.  -> Result with .violation (kind, detail) or None, .rec"""
    res = Result()
    rec = base.Rec()
    res.rec = rec
    res.violation = None
    world.CUR[0] = None
    try:
        m.run(plan, rec)
    except Violation as e:
        res.violation = [e.kind, e.detail]
    except StepLimit as e:
        res.violation = ['no-result', '%s (%s)' % (e, base.where(e))]
    except Exception as e:
        if not base.repo_raised(e):
            raise
        res.violation = ['raises', '%s: %s (%s)' % (type(e).__name__, str(e)[:200], base.where(e))]
    rec.note(res.violation)
    res.digest = rec.digest.hexdigest()
    return res


def plan_of(m, pid, seed, i, tier):
    return m.gen(Random('%s/%s/%d' % (pid, seed, i)), tier)


def worker(m, pid, seed, tier, w, nw, n, out, stop, t0):
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    f = open(out, 'w')
    done = 0
    try:
        for i in range(w, n, nw):
            if WALL() - t0 > SOFT[tier]:
                break
            if os.path.exists(stop):
                try:
                    if i > min(int(x) for x in open(stop).read().split()):
                        break
                except ValueError:
                    pass
            plan = plan_of(m, pid, seed, i, tier)
            r = execute(m, plan)
            line = {'i': i, 'digest': r.digest, 'nt': bool(r.rec.nontrivial), 'stats': r.rec.stats, 'steps': r.rec.steps,
                    'sim_s': r.rec.sim_s, 'probes': r.rec.probes, 'violation': r.violation}
            f.write(json.dumps(line) + '\n')
            f.flush()
            done += 1
            if r.violation and not known(pid, r.violation, plan):
                with open(stop, 'a') as g:
                    g.write('%d\n' % i)
                break
        f.write(json.dumps({'end': done}) + '\n')
    except BaseException:
        f.write(json.dumps({'harness_error': traceback.format_exc(), 'i': i}) + '\n')
    f.close()


# ---- known findings ----------------------------------------------------------------------------------------------

def findings():
    res = []
    p = os.path.join(ROOT, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('{'):
                res.append(json.loads(line))
    return res


def known(pid, violation, plan):
    """is this exactly a finding on record: same property, same kind of violation, same input"""
    for k in findings():
        if k['property'] == pid and k['kind'] == violation[0] and k['plan'] == subject(plan):
            return k
    return None


def subject(plan):
    """the plan without the environment (the input that identifies a finding)"""
    s = {k: v for k, v in plan.items() if k != 'env'}
    return hashlib.sha256(json.dumps(s, sort_keys=True).encode()).hexdigest()[:16]


# ---- minimising ----------------------------------------------------------------------------------------------------

def _child(fn, timeout):
    """run fn in a forked child, return its JSON result or None"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
            s = json.dumps(fn())
        except BaseException:
            s = 'null'
        os.write(w, s.encode())
        os._exit(0)
    os.close(w)
    data = b''
    end = WALL() + timeout
    import select
    while True:
        left = end - WALL()
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            data = b'null'
            break
        if select.select([r], [], [], min(left, 1.0))[0]:
            b = os.read(r, 65536)
            if not b:
                break
            data += b
    os.close(r)
    os.waitpid(pid, 0)
    try:
        return json.loads(data.decode() or 'null')
    except ValueError:
        return None


def minimise(m, plan, kind, seconds):
    t0 = WALL()
    best = plan
    tried = 0
    improved = True
    while improved and WALL() - t0 < seconds:
        improved = False
        for cand in m.shrink(best):
            left = seconds - (WALL() - t0)
            if left <= 0:
                break
            if json.dumps(cand, sort_keys=True) == json.dumps(best, sort_keys=True):
                continue
            tried += 1

            def go():
                r = execute(m, cand)
                return r.violation
            v = _child(go, min(30.0, left))
            if v and v[0] == kind:
                best = cand
                improved = True
                break
    return best, tried


# ---- check ------------------------------------------------------------------------------------------------------------

def check(pid):
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in SOFT:
        tier = 'quick'
    t0 = WALL()
    m = module(pid)
    prepare(m)
    n = int(os.environ.get('SIM_RUNS', 0)) or m.RUNS[tier]
    nw = int(os.environ.get('SIM_WORKERS', 0)) or WORKERS
    print('%s: %s' % (pid, m.TITLE))
    print('VERIF_SEED=%d tier=%s runs=%d workers=%d repo=%s' % (seed, tier, n, nw, loader.REPO))
    sys.stdout.flush()
    import tempfile
    import shutil
    tmp = tempfile.mkdtemp(prefix='sim_%s_' % pid)
    stop = os.path.join(tmp, 'stop')
    pids = []
    code = 2
    try:
        for w in range(nw):
            p = os.fork()
            if p == 0:
                try:
                    worker(m, pid, seed, tier, w, nw, n, os.path.join(tmp, 'w%d' % w), stop, t0)
                finally:
                    os._exit(0)
            pids.append(p)
        left = list(pids)
        while left:
            p, st = os.waitpid(-1, os.WNOHANG)
            if p:
                left.remove(p)
                continue
            if WALL() - t0 > HARD[tier]:
                print('ERROR: a simulated run does not come back')
                return 2
            time.sleep(0.05)
        lines, errors, ended = [], [], 0
        for w in range(nw):
            for s in open(os.path.join(tmp, 'w%d' % w)):
                d = json.loads(s)
                if 'harness_error' in d:
                    errors.append(d)
                elif 'end' in d:
                    ended += 1
                else:
                    lines.append(d)
        lines.sort(key=lambda d: d['i'])
        bad = [d for d in lines if d['violation']]
        new, old = [], {}
        for d in bad:
            k = known(pid, d['violation'], plan_of(m, pid, seed, d['i'], tier))
            if k:
                old[k['what']] = k
            else:
                new.append(d)
        for k in old:
            print('KNOWN-FINDING: property=%s %s' % (pid, k))
        code = 0
        replay = None
        if new:
            d = new[0]
            # the earliest failing run decides, so that the report does not depend on timing
            plan = plan_of(m, pid, seed, d['i'], tier)
            print('run %d: %s: %s' % (d['i'], d['violation'][0], d['violation'][1]))
            sys.stdout.flush()
            small, tried = minimise(m, plan, d['violation'][0], float(os.environ.get('SIM_SHRINK', 60 if tier == 'quick' else 300)))
            replay = report(m, pid, seed, d, plan, small, tried)
            code = 1
        elif errors or ended != nw:
            for e in errors[:3]:
                print('HARNESS ERROR in run %s\n%s' % (e['i'], e['harness_error']))
            if ended + len(errors) != nw:
                print('ERROR: a worker ended early')
            code = 2
        if code != 2:
            if not new and len(lines) < min(n, m.RUNS[tier]) // 20:
                print('ERROR: only %d of %d runs done in time' % (len(lines), n))
                code = 2
        evidence(m, pid, seed, tier, n, nw, lines, new, WALL() - t0)
        el = WALL() - t0
        print('%d runs, %d nontrivial and distinct, %.0f s, %.0f runs/h' % (
            len(lines), len({d['digest'] for d in lines if d['nt']}), el, len(lines) / el * 3600))
        if new:
            print('VIOLATION property=%s replay=%s' % (pid, replay))
        return code
    finally:
        for p in pids:
            try:
                os.kill(p, signal.SIGKILL)
            except OSError:
                pass
        shutil.rmtree(tmp, ignore_errors=True)


def report(m, pid, seed, d, plan, small, tried):
    os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
    name = os.path.join('replays', '%s-seed%d-run%d.json' % (pid, seed, d['i']))
    path = os.path.join(ROOT, name)
    for cand in (small, plan):
        def go():
            r = execute(m, cand)
            return [r.violation, r.digest]
        r = _child(go, 120.0) or [None, None]
        doc = {'property': pid, 'seed': seed, 'run': d['i'], 'violation': r[0] or d['violation'], 'digest': r[1] or d['digest'],
               'minimised': cand is not plan and cand != plan, 'candidates_tried': tried, 'plan': cand}
        with open(path, 'w') as f:
            json.dump(doc, f, indent=1, sort_keys=True)
        p = subprocess.run([PY, '-m', 'sim.runner', 'replay', name], cwd=ROOT, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        ok = p.returncode == 1 and b'reproduced exactly' in p.stdout
        print('%s: %s' % (doc['violation'][0], doc['violation'][1]))
        print('replay %s: %s' % (name, 'reproduced exactly in a fresh process' if ok else 'NOT reproduced in a fresh process'))
        if ok:
            break
    return name


def replay(path):
    with open(path) as f:
        doc = json.load(f)
    m = module(doc['property'])
    prepare(m)
    r = execute(m, doc['plan'])
    if r.violation is None:
        print('the run in %s does not violate %s on this tree' % (path, doc['property']))
        return 0
    print('%s: %s' % tuple(r.violation))
    same = r.digest == doc['digest'] and r.violation == doc['violation']
    print('reproduced exactly (event log %s)' % r.digest[:16] if same else 'violated, but not the same execution')
    print('VIOLATION property=%s replay=%s' % (doc['property'], path))
    return 1


# ---- evidence ---------------------------------------------------------------------------------------------------------

def short(plan):
    s = json.dumps(plan, sort_keys=True)
    return json.loads(s) if len(s) < 4000 else s[:4000] + '...'


def evidence(m, pid, seed, tier, n, nw, lines, new, wall):
    stats, probes = {}, {}
    for d in lines:
        for k, v in d['stats'].items():
            stats[k] = stats.get(k, 0) + v
        for k, v in d['probes'].items():
            probes[k] = probes.get(k, 0) + v
    faults = {k: v for k, v in sorted(stats.items()) if k.startswith('fault_') or k in ('degenerate_rays', 'edge_draws')}
    sched = {k: v for k, v in sorted(stats.items()) if k in ('preemptions', 'set_orders', 'backend_orders', 'backend_calls', 'draws',
                                                           'slept_ms')}
    ids = [d['i'] for d in lines if d['nt']][:1] + [d['i'] for d in lines if d['nt']][-1:]
    doc = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': len(lines),
            'distinct_nontrivial': len({d['digest'] for d in lines if d['nt']}),
            'rule': m.RULE,
            'samples': [{'run': i, 'plan': short(plan_of(m, pid, seed, i, tier))} for i in sorted(set(ids))],
            'runs_planned': n,
            'runs_per_hour': round(len(lines) / max(wall, 1e-9) * 3600),
            'runs_per_hour_note': 'one seed per run',
            'workers': nw,
            'simulated_steps': sum(d['steps'] for d in lines),
            'simulated_time_s': round(sum(d['sim_s'] for d in lines), 6),
            'simulated_time_note': 'the code has no timers; its only clock use is a pause before it raises, so simulated time is '
                                   'counted in steps (statements executed under the simulator)',
            'faults_injected': faults,
            'decisions': sched,
            'probes': probes,
            'distinct_event_logs': len({d['digest'] for d in lines}),
            'distinct_measure': 'SHA-256 of the event log of a run (faults with their step, schedule, degenerate rays, observed results)',
            'real_components': getattr(m, 'REAL', 'geometry/* and SR_Vessel/* as in the working tree, the triangle C library, copy.deepcopy'),
            'stubbed_components': getattr(m, 'STUB', 'random draws, set iteration order, order of the triangles in a backend answer, '
                                                     'clock and sleep, console'),
        },
        'assumptions': getattr(m, 'ASSUMPTIONS', []),
        'wall_s': round(wall, 1),
        'violations': len(new),
    }
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', '%s.json' % pid), 'w') as f:
        json.dump(doc, f, indent=1, sort_keys=True)


def digests(pid, seed, tier, start, stop):
    """prints the event log digest of runs start..stop-1 (determinism test)"""
    m = module(pid)
    prepare(m)
    for i in range(start, stop):
        r = execute(m, plan_of(m, pid, seed, i, tier))
        print(i, r.digest, r.rec.steps, r.violation)


if __name__ == '__main__':
    os.chdir(ROOT)
    if sys.argv[1] == 'check':
        rc = check(sys.argv[2])
    elif sys.argv[1] == 'replay':
        rc = replay(sys.argv[2])
    elif sys.argv[1] == 'digests':
        digests(sys.argv[2], int(sys.argv[3]), sys.argv[4], int(sys.argv[5]), int(sys.argv[6]))
        rc = 0
    else:
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
