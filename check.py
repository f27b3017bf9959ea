#!/usr/bin/env python3
"""Decide one property by seeded simulation:  check.py ID [quick|thorough]

Builds the simulator from /repo's working tree, searches schedules and fault
sequences on every core until the tier's time budget is used up, gates and
minimises whatever violation it finds, and writes evidence/ID.json.

Exit 0: held on every simulated run.  Exit 1: VIOLATION line.  Anything else: the
check itself failed."""
import array, json, os, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import build  # noqa: E402
import registry  # noqa: E402

BUDGET = {'quick': 20.0, 'thorough': 600.0}


def fail(msg):
    print('ERROR: ' + msg)
    sys.exit(2)


def read_findings():
    """-> {property: {key: text}} of the findings that are recorded, not repaired."""
    out = {}
    path = os.path.join(V, 'known-findings.txt')
    if os.path.exists(path):
        for line in open(path, errors='replace'):
            m = re.match(r'finding: property=(\w+) key=([\w-]+) (.*)', line)
            if m:
                out.setdefault(m.group(1), {})[m.group(2)] = m.group(3).strip()
    return out


def symbolize(exe, text):
    pcs = sorted(set(re.findall(r'0x[0-9a-f]{6,16}', text)))
    pcs = [p for p in pcs if int(p, 16) < 0x10000000]
    if not pcs:
        return ''
    try:
        p = subprocess.run(['addr2line', '-Cfpe', exe] + [hex(int(x, 16) - 1) for x in pcs], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors='replace', timeout=120)
    except Exception:
        return ''
    out = []
    for pc, l in zip(pcs, p.stdout.splitlines()):
        if not l.startswith('??'):
            l = re.sub(r'\(.*?\) at ', ' at ', l) if len(l) > 220 else l
            out.append('# %s %s' % (pc, l[:400]))
    return '\n'.join(out)


def detail_of(path):
    t = open(path, errors='replace').read()
    i = t.find('\ndetail ')
    return t[i + 8:].strip() if i >= 0 else ''


def gate(exe, cand, dest, mtime):
    """Reproduce, minimise, reproduce again in fresh processes."""
    def rep(f):
        p = subprocess.run([exe, 'replay', f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=200)
        return p.returncode, p.stdout
    for _ in range(2):
        rc, o = rep(cand)
        if rc != 1:
            return False, 'replaying %s in a fresh process gave %d: %s' % (cand, rc, o[:600])
    mini = dest + '.min'
    p = subprocess.run([exe, 'minimize', cand, mini, '--time', str(mtime)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if p.returncode == 0 and all(rep(mini)[0] == 1 for _ in range(2)):
        os.replace(mini, dest)
        print('minimised: ' + p.stdout.strip())
    else:
        shutil.copy(cand, dest)
        print('kept the unminimised trace: ' + p.stdout.strip()[-300:])
        if os.path.exists(mini):
            os.unlink(mini)
    return True, ''


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in BUDGET:
        fail('unknown tier ' + tier)
    if prop not in registry.CHECKS:
        fail('unknown property ' + prop)
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    info = registry.CHECKS[prop]
    budget = float(os.environ.get('SIM_BUDGET', BUDGET[tier]))
    t0 = time.time()
    try:
        exe = build.build(info['target'], prop)
    except build.BuildError as e:
        fail('build failed\n' + str(e))
    tb = time.time() - t0
    nw = int(os.environ.get('SIM_WORKERS', os.cpu_count() or 4))
    tmp = os.path.join(build.OUT, 'run.%s.%d' % (prop, os.getpid()))
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    rdir = os.path.join(V, 'replays')
    os.makedirs(rdir, exist_ok=True)
    findings = read_findings().get(prop, {})
    print('property %s, tier %s, VERIF_SEED=%d, %d workers, %.0f s of search (build %.1f s)' % (prop, tier, seed, nw, budget, tb))
    sys.stdout.flush()
    procs = []
    t1 = time.time()
    for w in range(nw):
        cmd = [exe, 'batch', '--prop', prop, '--seed', str(seed), '--time', str(budget), '--worker', str(w), '--nworkers', str(nw),
               '--pin', '--out', '%s/%d.json' % (tmp, w), '--violation', '%s/%d.replay' % (tmp, w), '--hashes', '%s/%d.h' % (tmp, w),
               '--dup', '50', '--known', ','.join(findings)]
        procs.append(subprocess.Popen(cmd, stdout=open('%s/%d.log' % (tmp, w), 'w'), stderr=subprocess.STDOUT))
    # Once one worker has a violation the others only get a moment more.
    limit = t1 + budget + 120
    found = None
    while any(p.poll() is None for p in procs):
        time.sleep(0.05)
        if found is None and any(p.poll() == 1 for p in procs):
            found = time.time()
        if (found and time.time() > found + 3) or time.time() > limit:
            for p in procs:
                if p.poll() is None:
                    p.kill()
            break
    for p in procs:
        p.wait()
    wall = time.time() - t1
    agg = {}
    samples, missing, herr = [], 0, ''
    for w in range(nw):
        f = '%s/%d.json' % (tmp, w)
        if not os.path.exists(f):
            missing += 1
            continue
        d = json.load(open(f, errors='replace'))
        samples += d['samples']
        herr = herr or d['harness_error']
        for k, v in d.items():
            if isinstance(v, (int, float)):
                agg[k] = max(agg.get(k, 0), v) if k.startswith('max') or k == 'wall_s' else agg.get(k, 0) + v
            elif isinstance(v, dict):
                b = agg.setdefault(k, {})
                for x, y in v.items():
                    b[x] = b.get(x, 0) + y
    logs = ''.join(open('%s/%d.log' % (tmp, w), errors='replace').read() for w in range(nw))
    distinct = set()
    for w in range(nw):
        f = '%s/%d.h' % (tmp, w)
        if os.path.exists(f):
            a = array.array('Q')
            with open(f, 'rb') as fh:
                a.frombytes(fh.read())
            distinct.update(a)
    cands = sorted(['%s/%d.replay' % (tmp, w) for w in range(nw) if procs[w].returncode == 1 and os.path.exists('%s/%d.replay' % (tmp, w))], key=os.path.getmtime)
    status = 0
    err = ''
    replay_path = None
    if cands:
        dest = os.path.join(rdir, '%s-%d.replay' % (prop, seed))
        for c in cands[:4]:
            ok, why = gate(exe, c, dest, 20 if tier == 'quick' else 120)
            if ok:
                status = 1
                replay_path = dest
                sym = symbolize(exe, detail_of(dest))
                with open(dest, 'a') as f:
                    f.write('binary %s\nreplay-with: python3 %s/replay.py %s\n%s\n' % (os.path.basename(exe), V, dest, sym))
                break
            err += why + '\n'
        if status == 0:
            status = 2
    elif missing:
        status, err = 2, 'a worker died: exit codes %s\n%s' % ([p.returncode for p in procs], logs[-3000:])
    elif agg.get('harness_errors', 0) > 0.001 * max(agg.get('runs', 0), 1) + 2:
        status, err = 2, 'the simulator failed in %d runs: %s' % (agg['harness_errors'], herr)
    elif agg.get('dup_mismatch', 0):
        status, err = 2, 'nondeterminism: %d of %d runs repeated differently\n%s' % (agg['dup_mismatch'], agg['dup_checked'], logs[-3000:])
    elif agg.get('runs', 0) == 0:
        status, err = 2, 'no run completed'
    runs = agg.get('runs', 0)
    h = max(wall, 0.001) / 3600
    cov = {
        'evaluations': runs,
        'distinct_nontrivial': len(distinct),
        'rule': info['rule'],
        'samples': samples[:6] or ['(none recorded)'],
        'seeds': 'run i of this check uses the seed derived from (VERIF_SEED=%d, %s, i), i < %d' % (seed, prop, runs),
        'runs_per_hour': int(runs / h),
        'simulated_seconds': round(agg.get('sim_s', 0), 3),
        'scheduler_steps': agg.get('steps', 0),
        'context_switches': agg.get('switches', 0),
        'preemptions_between_memory_accesses': agg.get('preemptions', 0),
        'instrumented_memory_accesses': agg.get('accesses', 0),
        'distinct_interleavings': len(distinct),
        'interleaving_measure': info['measure'],
        'distinct_switch_site_pairs_max_per_worker': agg.get('switch_pairs', 0) // max(nw, 1),
        'faults_injected': {k: v for k, v in agg.get('faults', {}).items() if v},
        'runs_with_at_least_one_fault': agg.get('runs_with_faults', 0),
        'conditions_reached': agg.get('probes', {}),
        'runs_per_scenario': agg.get('scenarios', {}),
        'max_steps_in_a_run': agg.get('max_steps', 0),
        'max_threads_in_a_run': agg.get('max_threads', 0),
        'runs_repeated_for_determinism': agg.get('dup_checked', 0),
        'repeats_that_differed': agg.get('dup_mismatch', 0),
        'real_code': info['real'],
        'stubs': info['stub'],
        'workers': nw,
        'known_finding_runs': agg.get('known', {}),
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov, 'assumptions': info['assumptions'],
          'wall_s': round(time.time() - t0, 2), 'violations': 1 if status == 1 else 0}
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    p = os.path.join(V, 'evidence', prop + '.json')
    with open(p + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(p + '.tmp', p)
    shutil.rmtree(tmp, ignore_errors=True)
    print('%d runs (%d/h), %d distinct interleavings, %.1f simulated s, faults %s' % (runs, runs / h, len(distinct), agg.get('sim_s', 0), cov['faults_injected']))
    print('reached %s' % cov['conditions_reached'])
    for k, t in findings.items():
        print('KNOWN-FINDING: property=%s %s (met in %d runs)' % (prop, t, agg.get('known', {}).get(k, 0)))
    if status == 1:
        print(open(replay_path, errors='replace').read()[-6000:])
        print('VIOLATION property=%s replay=%s' % (prop, replay_path))
    elif status:
        print('ERROR: ' + err)
    sys.stdout.flush()
    os._exit(status)


if __name__ == '__main__':
    main()
