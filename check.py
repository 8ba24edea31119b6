#!/usr/bin/env python3
"""check.py C01            run the check of a property (VERIF_SEED, VERIF_TIER)
check.py replay FILE    replay a recorded violation
check.py build          build all harnesses"""
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import build as B          # noqa: E402
from vlib.props import CHECKS        # noqa: E402

VERIF = B.VERIF
NCPU = len(os.sched_getaffinity(0))
WORKERS = max(1, min(8, NCPU))
ONE_LIMIT = 180


def known_findings(prop):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    return [k for k in json.load(open(path)).get('findings', []) if k['property'] == prop]


def match_known(known, v):
    for k in known:
        if 'kind' in k and k['kind'] == v['kind'] and re.search(k.get('detail', ''), v['detail']) and re.search(k.get('workload', ''), v['workload']):
            return k
    return None


class Runner:
    def __init__(self, prop, exe, opts):
        self.prop, self.exe, self.opts = prop, exe, opts
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
        self.tmp = tempfile.mkdtemp(prefix='fernsim-', dir=base)
        os.chmod(self.tmp, 0o755)
        self.n = 0

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    def command(self, out, extra):
        cmd = [self.exe, '--out', out]
        for o in self.opts:
            cmd += ['--opt', o]
        wd = out + '.dir'
        os.makedirs(wd, exist_ok=True)
        cmd += ['--opt', 'scratch=' + wd, '--opt', 'known=' + ','.join(k['id'] for k in known_findings(self.prop))]
        return cmd + [str(e) for e in extra]

    def spawn(self, extra):
        self.n += 1
        out = os.path.join(self.tmp, 'o%d' % self.n)
        err = open(out + '.err', 'w')
        p = subprocess.Popen(self.command(out, extra), stdout=err, stderr=err, cwd=self.tmp)
        p.out = out
        return p

    def result(self, p):
        try:
            with open(p.out) as f:
                r = json.load(f)
        except (OSError, ValueError):
            r = None
        try:
            os.unlink(p.out)
        except OSError:
            pass
        shutil.rmtree(p.out + '.dir', ignore_errors=True)
        return r

    def stderr(self, p):
        try:
            return open(p.out + '.err').read()[-2000:]
        except OSError:
            return ''

    def one(self, seed, trace=None, cpu=None):
        """Start one execution in a fresh process; finish() waits for it."""
        extra = ['--one', seed]
        if cpu is not None:
            extra += ['--cpu', cpu]
        if trace is not None:
            self.n += 1
            path = os.path.join(self.tmp, 't%d' % self.n)
            with open(path, 'w') as f:
                for s in trace['schedule']:
                    f.write('s %d %d\n' % tuple(s))
                for s in trace['faults']:
                    f.write('f %s %d %d\n' % tuple(s))
            extra += ['--trace', path]
        return self.spawn(extra)

    def finish(self, p):
        try:
            p.wait(timeout=ONE_LIMIT)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            return None
        r = self.result(p)
        return r

    def run_one(self, seed, trace=None):
        return self.finish(self.one(seed, trace))


def same(v, r):
    return r is not None and r.get('violation') is not None and r['violation']['kind'] == v['kind']


def identical(v, r):
    return same(v, r) and r['violation']['hash'] == v['hash'] and r['violation']['detail'] == v['detail']


def minimise(run, seed, v, budget):
    """Delta debugging of the fault list, then of the schedule, in parallel."""
    trace = {'schedule': list(v['trace']['schedule']), 'faults': list(v['trace']['faults'])}
    end = time.time() + budget
    tried = 0

    def reduce(key):
        nonlocal trace, tried
        n = 2
        while trace[key] and time.time() < end:
            items = trace[key]
            n = min(n, len(items))
            size = (len(items) + n - 1) // n
            chunks = [items[i:i + size] for i in range(0, len(items), size)]
            candidates = []
            if n == 2:
                candidates.append([])
            for i in range(len(chunks)):
                candidates.append([x for j, c in enumerate(chunks) if j != i for x in c])
            found = None
            for i in range(0, len(candidates), NCPU):
                batch = candidates[i:i + NCPU]
                ps = [run.one(seed, dict(trace, **{key: c})) for c in batch]
                rs = [run.finish(p) for p in ps]
                tried += len(rs)
                for c, r in zip(batch, rs):
                    if found is None and same(v, r):
                        found = c
                if found is not None or time.time() > end:
                    break
            if found is not None:
                trace = dict(trace, **{key: found})
                n = max(n - 1, 2)
            elif n >= len(items):
                break
            else:
                n = min(2 * n, len(items))
    reduce('faults')
    reduce('schedule')
    reduce('faults')
    return trace, tried


def merge(total, r):
    for k in ('runs', 'repeats', 'differing', 'nontrivial_runs', 'steps', 'sync_steps', 'switches', 'accesses', 'threads', 'sim_ns'):
        total[k] = total.get(k, 0) + r.get(k, 0)
    for k, (a, b) in r.get('faults', {}).items():
        x = total.setdefault('faults', {}).setdefault(k, [0, 0])
        x[0] += a
        x[1] += b
    for k, n in r.get('probes', {}).items():
        p = total.setdefault('probes', {})
        p[k] = p.get(k, 0) + n
    total.setdefault('samples', []).extend(r.get('samples', []))


def check(prop):
    t0 = time.time()
    c = CHECKS[prop]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = 'thorough' if os.environ.get('VERIF_TIER', 'quick') == 'thorough' else 'quick'
    if len(sys.argv) > 2 and sys.argv[2] in ('quick', 'thorough'):
        tier = sys.argv[2]
    print('seed %d, tier %s' % (seed, tier))
    exe = B.build(c['harness'])
    built = time.time() - t0
    print('built in %.0f s' % built)
    sys.stdout.flush()
    runs, limit = c[tier]
    if tier == 'quick' and built > 300:
        limit = max(30, min(limit, int(780 - built)))
    run = Runner(prop, exe, c['opts'] + c.get('opts_' + tier, []))
    try:
        return explore(prop, c, run, seed, tier, runs, limit, t0)
    finally:
        run.close()


def explore(prop, c, run, seed, tier, runs, limit, t0):
    known = known_findings(prop)
    base = (seed * 1000003 + int(hashlib.sha256(prop.encode()).hexdigest()[:6], 16)) * 1000000
    total = {}
    inter = set()
    known_hits = {}
    found, errors = [], []
    t1 = time.time()

    def start(w, done, left):
        inter_path = os.path.join(run.tmp, 'i%d-%d' % (w, done))
        p = run.spawn(['--base', base, '--stride', WORKERS, '--offset', w + done * WORKERS, '--runs', runs - done,
                       '--limit', left, '--cpu', w % NCPU, '--inter', inter_path])
        p.inter, p.w, p.done = inter_path, w, done
        return p
    procs = [start(w, 0, limit) for w in range(WORKERS)]
    while procs:
        time.sleep(0.05)
        if time.time() - t1 > limit + 240:
            for p in procs:
                p.kill()
                errors.append('worker %d does not end: %s' % (p.w, run.stderr(p)))
            procs = []
        for p in list(procs):
            if p.poll() is None:
                continue
            procs.remove(p)
            r = run.result(p)
            if r is None or p.returncode not in (0, 10):
                errors.append('worker %d ends with %s: %s' % (p.w, p.returncode, run.stderr(p)))
                continue
            merge(total, r)
            if os.path.exists(p.inter):
                with open(p.inter, 'rb') as f:
                    data = f.read()
                inter.update(data[i:i + 8] for i in range(0, len(data), 8))
            v = r.get('violation')
            if v is None:
                left = limit - (time.time() - t1)
                if r.get('next') and left > 2:                 # Its heap was used up by blocks of earlier runs.
                    procs.append(start(p.w, p.done + r['next'], left))
                continue
            k = match_known(known, v)
            if k:
                known_hits[k['id']] = known_hits.get(k['id'], 0) + 1
                done = (v['seed'] - base) // WORKERS + 1
                left = limit - (time.time() - t1)
                if left > 2 and done < runs:
                    procs.append(start(p.w, done, left))
                continue
            v['first'] = p.w + p.done * WORKERS
            found.append(v)
        if (found or errors) and procs:
            # Others get a moment to find a simpler one.
            if not hasattr(run, 'grace'):
                run.grace = time.time() + 2
            if time.time() > run.grace:
                for p in procs:
                    p.kill()
                    p.wait()
                    run.result(p)
                procs = []
    explored = time.time() - t1
    rc, nviol = 0, 0
    found.sort(key=lambda v: (v['step'], v['seed']))
    for v in found[:6]:
        rec = confirm(run, v, tier, errors) or confirm_history(run, v, base, errors)
        if not rec:
            continue
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        path = os.path.join('replays', '%s-%d.json' % (prop, rec['seed']))
        json.dump(dict(rec, property=prop), open(os.path.join(VERIF, path), 'w'), indent=1)
        print('%s: %s' % (rec['kind'], rec['detail']))
        print('workload: ' + rec['workload'])
        if rec['during']:
            print('during: ' + rec['during'])
        print('%s; replay with: ./check.py replay %s' % (rec['about'], path))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        rc, nviol = 1, len(found)
        break
    if rc == 0 and errors:
        for e in errors:
            print('ERROR ' + e)
        rc = 2
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    evidence(prop, c, seed, tier, total, inter, explored, t0, nviol, known_hits)
    if total.get('differing'):
        print('%d of %d repeated runs differ: the code under test keeps state from run to run' % (total['differing'], total['repeats']))
    print('%d runs in %.0f s, %d distinct' % (total.get('runs', 0), explored, len(inter)))
    return rc


def record(w, about, **more):
    return dict({k: w[k] for k in ('seed', 'kind', 'detail', 'workload', 'during', 'hash')}, about=about, **more)


def confirm(run, v, tier, errors):
    """The violation again, from its seed alone and from its trace, in processes of their own; then minimised."""
    r1, r2 = [run.finish(p) for p in [run.one(v['seed']), run.one(v['seed'])]]
    if same(v, r1) and same(v, r2) and identical(r1['violation'], r2):
        v = r1['violation']
    else:
        errors.append('seed %d: %s (%s) is not reproduced: %s' % (v['seed'], v['kind'], v['detail'], (r1 or {}).get('violation', 'nothing')))
        return None
    r = run.run_one(v['seed'], v['trace'])
    if not identical(v, r):
        return record(v, 'seed %d' % v['seed'], trace=None)
    if 'real-time limit' in v['detail']:            # Every attempt takes the whole limit.
        return record(v, 'seed %d' % v['seed'], trace=v['trace'])
    trace, tried = minimise(run, v['seed'], v, 60 if tier == 'quick' else 180)
    m = run.run_one(v['seed'], trace)
    if not same(v, m):
        m, trace = r, v['trace']
    m2 = run.run_one(v['seed'], trace)
    if not identical(m['violation'], m2):
        m, trace = r, v['trace']
    w = m['violation']
    counts = len(trace['schedule']), len(v['trace']['schedule']), len(trace['faults']), len(v['trace']['faults'])
    return record(w, 'seed %d, %d of %d schedule decisions and %d of %d faults after minimisation' % ((w['seed'],) + counts),
                  trace=trace, original={'schedule': counts[1], 'faults': counts[3]}, minimisation_runs=tried)


def confirm_history(run, v, base, errors):
    """The code under test keeps state from run to run: the shortest sequence of runs in one process that ends with the violation."""
    index = v['seed'] - base
    most = (index - v['first']) // WORKERS + 1
    lengths = sorted({min(most, n) for n in (2, 3, 8, 64, 512, 4096, most)})

    def start(n):
        return run.spawn(history_args({'base': base, 'stride': WORKERS, 'offset': index - (n - 1) * WORKERS, 'runs': n}))
    ps = [(n, start(n)) for n in lengths]
    rs = [(n, run.finish(p)) for n, p in ps]
    for n, r in rs:
        if not same(v, r) or r['violation']['seed'] != v['seed']:
            continue
        if not identical(r['violation'], run.finish(start(n))):
            continue
        h = {'base': base, 'stride': WORKERS, 'offset': index - (n - 1) * WORKERS, 'runs': n}
        return record(r['violation'], 'seed %d after %d other runs in the same process' % (v['seed'], n - 1), history=h)
    errors.append('seed %d: %s is not reproduced by the runs before it either' % (v['seed'], v['kind']))
    return None


def history_args(h):
    return ['--base', h['base'], '--stride', h['stride'], '--offset', h['offset'], '--runs', h['runs']]


def evidence(prop, c, seed, tier, total, inter, explored, t0, nviol, known_hits):
    hours = max(explored, 0.001) / 3600
    runs = total.get('runs', 0)
    cov = {
        'evaluations': runs,
        'distinct_nontrivial': len(inter),
        'rule': c['rule'],
        'samples': total.get('samples', [])[:6],
        'seeds_per_hour': int(runs / hours),
        'simulated_runs_per_hour': int(runs / hours),
        'simulated_seconds': round(total.get('sim_ns', 0) / 1e9, 3),
        'scheduling_steps': total.get('sync_steps', 0),
        'steps': total.get('steps', 0),
        'context_switches': total.get('switches', 0),
        'simulated_threads': total.get('threads', 0),
        'memory_accesses_checked': total.get('accesses', 0),
        'faults_injected': {k: a for k, (a, b) in total.get('faults', {}).items() if a or b},
        'fault_points_offered': {k: b for k, (a, b) in total.get('faults', {}).items() if b},
        'probes': total.get('probes', {}),
        'runs_repeated': total.get('repeats', 0),
        'repeats_that_differed': total.get('differing', 0),
        'distinct_measure': 'hash of the sequence of (thread, kind of synchronisation or I/O operation) of a run',
        'real_code': c['real'],
        'stubbed': c['stub'],
        'workers': WORKERS,
    }
    known_hits = dict(known_hits)
    for k, n in total.get('probes', {}).items():
        if k.startswith('known finding '):
            known_hits[k[14:]] = known_hits.get(k[14:], 0) + n
    if known_hits:
        cov['known_findings_hit'] = known_hits
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    path = os.path.join(VERIF, 'evidence', prop + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump({'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
                   'assumptions': c.get('assumptions', []) + [
                       'sequentially consistent memory: weak-memory reorderings are covered only as data races, which are violations themselves',
                       'a sample of schedules and faults, not an enumeration'],
                   'wall_s': round(time.time() - t0, 2), 'violations': nviol}, f, indent=1)
    os.replace(path + '.tmp', path)


def replay(path):
    rec = json.load(open(path))
    c = CHECKS[rec['property']]
    exe = B.build(c['harness'])
    run = Runner(rec['property'], exe, c['opts'])
    try:
        r = run.finish(run.spawn(history_args(rec['history']))) if 'history' in rec else run.run_one(rec['seed'], rec['trace'])
    finally:
        run.close()
    v = (r or {}).get('violation')
    if v is None:
        print('the recorded execution shows no violation' if r else 'ERROR no result')
        return 0 if r else 2
    print('%s: %s' % (v['kind'], v['detail']))
    print('workload: ' + v['workload'])
    if v['kind'] == rec['kind'] and v['hash'] == rec['hash']:
        print('identical to the record (hash %s)' % v['hash'])
    else:
        print('differs from the record: %s, hash %s instead of %s' % (rec['kind'], v['hash'], rec['hash']))
    print('VIOLATION property=%s replay=%s' % (rec['property'], path))
    return 1


def main():
    a = sys.argv[1:]
    if len(a) == 2 and a[0] == 'replay':
        return replay(a[1])
    if a == ['setup']:
        # Checks build what they need themselves: only make sure the tools work.
        for tool in ('g++', 'ninja', 'objcopy'):
            if not shutil.which(tool):
                print('missing tool ' + tool)
                return 1
        return 0
    if a[:1] == ['build']:
        names = set()
        for c in CHECKS.values():
            if c['harness']['name'] not in names and (len(a) == 1 or c['harness']['name'] in a[1:]):
                names.add(c['harness']['name'])
                t = time.time()
                B.build(c['harness'])
                print('%s: %.0f s' % (c['harness']['name'], time.time() - t))
        return 0
    if a and a[0] in CHECKS:
        return check(a[0])
    print(__doc__)
    return 2


if __name__ == '__main__':
    sys.exit(main())
