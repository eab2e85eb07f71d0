#!/usr/bin/env python3
"""Entry point of every check.

  run.py setup                         builds every harness
  run.py check PROPERTY [--tier quick|thorough] [--seconds S] [--seed N]
  run.py replay FILE                   rebuilds and re-executes a replay file
  run.py determinism                   runs seeds twice in separate processes
"""
import argparse, glob, json, os, re, shutil, struct, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'sim'))
import build as builder

CHECKS = json.load(open(os.path.join(VERIF, 'sim', 'checks.json')))
REPLAYS = os.path.join(VERIF, 'replays')
EVIDENCE = os.path.join(VERIF, 'evidence')
WORKERS = int(os.environ.get('ESL_SIM_WORKERS', '8'))


def known_findings(prop):
    """(class, substring, description) of the listed findings; 'fixed:' lines suppress nothing."""
    out = []
    try:
        lines = open(os.path.join(VERIF, 'known-findings.txt')).read().splitlines()
    except OSError:
        return out
    for l in lines:
        m = re.match(r'known: property=(\S+) class=(\S+) contains="([^"]*)" (.*)$', l)
        if m and m.group(1) == prop:
            out.append((m.group(2), m.group(3), m.group(4)))
    return out


def fail(msg, code=2):
    print('ERROR: ' + msg)
    sys.exit(code)


def harnesses(cfg):
    """A property may be decided by several builds of its harness, which share the workers."""
    return [cfg['harness']] + cfg.get('also', [])


def check(prop, tier, seconds, seed):
    t0 = time.time()
    cfg = CHECKS['properties'][prop]
    try:
        exes = [builder.build(h) for h in harnesses(cfg)]
    except RuntimeError as e:
        fail(str(e))
    build_s = time.time() - t0
    if seconds is None:
        seconds = cfg[tier + '_s']
    os.makedirs(REPLAYS, exist_ok=True)
    os.makedirs(EVIDENCE, exist_ok=True)
    known = known_findings(prop)
    base = 1 + (seed % (1 << 31)) * 100_000_000
    print('check %s (%s): %s, seeds from %d, %d workers, %d s of search' % (prop, tier, ' and '.join(harnesses(cfg)), base, WORKERS, seconds), flush=True)
    procs = []
    exe_of = {}
    for w in range(WORKERS):
        stem = os.path.join(REPLAYS, '%s-%d-w%d' % (prop, os.getpid(), w))
        cmd = [exes[w % len(exes)], 'search', '--property', prop, '--tier', tier, '--seed', str(base + w), '--stride', str(WORKERS), '--seconds', str(seconds),
               '--minimise', '20', '--replay', stem + '.replay', '--out', stem + '.json', '--hashes', stem + '.hashes']
        for k in known:
            cmd += ['--known', k[0] + '|' + k[1]]
        exe_of[stem] = cmd[0]
        procs.append((stem, subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)))
    deadline = time.time() + seconds + 330
    found = None
    running = list(procs)
    grace = None
    while running:
        for p in list(running):
            if p[1].poll() is not None:
                running.remove(p)
                if p[1].returncode == 1 and found is None:
                    found = p
                    grace = time.time() + 2
        if grace is not None and time.time() > grace or time.time() > deadline:
            for p in running:
                p[1].kill()
            subprocess.run(['pkill', '-9', '-P', ','.join(str(p[1].pid) for p in running)] if running else ['true'])
        time.sleep(0.05)
    for _, p in procs:
        shutil.rmtree('/tmp/esl-sim-%08d' % p.pid, ignore_errors=True)
    results, errors = [], []
    for stem, p in procs:
        try:
            results.append((stem, p.returncode, json.load(open(stem + '.json'))))
        except (OSError, ValueError):
            if found is None:
                errors.append('worker ended with %s: %s' % (p.returncode, (p.stderr.read() or '')[-500:]))
    for _, _, r in results:
        if r['error']:
            errors.append(r['error'])
    violation = None
    candidates = sorted([r for r in results if r[1] == 1], key=lambda r: (r[2]['violation']['ops'] - r[2]['violation']['ops_dropped'], r[2]['violation']['sched_entries']))
    for stem, rc, r in candidates:
        v = r['violation']
        exe = exe_of[stem]
        # gate: a fresh process has to reproduce exactly the same run, twice
        replays = lambda *more: subprocess.run([exe, 'replay', stem + '.replay', '--silent', '1', *more], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 1
        ok = replays() and replays()
        # the process that searched may differ in what it initialised before: write the run of a fresh process
        ok = ok or replays('--rewrite', '1') and replays() and replays()
        if not ok:
            errors.append('the replay file of seed %d does not reproduce in a fresh process' % v['seed'])
            continue
        path = os.path.join(REPLAYS, '%s-seed%d.replay' % (prop, v['seed']))
        os.replace(stem + '.replay', path)
        v['replay'] = path
        violation = v
        break
    # ------------------------------------------------------------- evidence
    total = lambda k: sum(r[k] for _, _, r in results)
    hashes = set()
    for stem, _, _ in results:
        try:
            data = open(stem + '.hashes', 'rb').read()
            hashes.update(struct.unpack('<%dQ' % (len(data) // 8), data))
        except OSError:
            pass
    counters, strategies, known_hits = {}, {}, {}
    for _, _, r in results:
        for k, n in r['counters'].items():
            counters[k] = counters.get(k, 0) + n
        for k, n in r['strategies'].items():
            strategies[k] = strategies.get(k, 0) + n
        for k, n in r['known'].items():
            known_hits[k] = known_hits.get(k, 0) + n
    wall = time.time() - t0
    runs = total('runs')
    search_wall = max([r['wall_s'] for _, _, r in results], default=0) or 1
    samples = [s for _, _, r in results for s in r['samples']][:3] or ['no run was non-trivial']
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': runs,
            'distinct_nontrivial': len(hashes),
            'rule': 'One evaluation is one simulated run of the real code, a pure function of its seed: the seed decides the workload, the schedule of the simulated threads and every fault. '
                    + cfg['nontrivial'] + ' Distinct: by the hash of the recorded history together with the hash of the sequence of scheduling decisions.',
            'samples': samples,
            'seeds': {'first': base, 'stride': 1, 'count': runs},
            'runs_per_hour': int(runs * 3600 / search_wall),
            'simulated_steps': total('steps'),
            'simulated_time_ns': total('simulated_ns'),
            'simulated_model_time': total('model_time'),
            'simulated_threads_started': total('threads'),
            'context_switches_decided': total('switches'),
            'runs_with_several_threads': total('multithreaded_runs'),
            'scheduling_strategies': strategies,
            'distinct_schedules': total('distinct_schedules'),
            'distinct_schedules_measure': 'hash of the sequence (synchronisation operation, object, thread) and of every deviation from run-to-completion; counted per worker',
            'determinism_reruns': total('determinism_checks'),
            'faults_injected': {k: n for k, n in sorted(counters.items()) if k.startswith('fault.')},
            'workload_counters': {k: n for k, n in sorted(counters.items()) if not k.startswith('fault.')},
            'real_components': cfg['real'],
            'stub_components': cfg['stub'],
            'known_finding_hits': known_hits,
            'build_s': round(build_s, 1),
            'search_s': round(search_wall, 1),
        },
        'assumptions': CHECKS['assumptions'] + cfg.get('assumptions', []),
        'wall_s': round(wall, 1),
        'violations': 1 if violation else 0,
    }
    if violation:
        evidence['coverage']['violation'] = violation
    if errors:
        evidence['coverage']['errors'] = errors[:10]
    tmp = os.path.join(EVIDENCE, '%s.json.%d' % (prop, os.getpid()))
    json.dump(evidence, open(tmp, 'w'), indent=1)
    os.replace(tmp, os.path.join(EVIDENCE, prop + '.json'))
    for stem, _ in procs:
        for f in glob.glob(glob.escape(stem) + '.*'):
            os.unlink(f)
    print('%d runs, %d distinct non-trivial, %d simulated threads, %d switches, faults %s' % (runs, len(hashes), total('threads'), total('switches'), json.dumps(evidence['coverage']['faults_injected'])))
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, k[2]))
    if violation:
        print('%s: %s' % (violation['class'], symbolise(exe, violation['detail'][:3000])))
        print('seed %d; minimised to %d of %d operations, %d unusual choices, %d preemptions (from %d)' % (violation['seed'], violation['ops'] - violation['ops_dropped'], violation['ops'],
              violation['choices'], violation['sched_entries'], violation['original_sched_entries']))
        print('VIOLATION property=%s replay=%s' % (prop, violation['replay']))
        return 1
    if errors:
        fail('; '.join(errors[:5]))
    if not hashes:
        fail('no run was non-trivial')
    return 0


def symbolise(exe, text):
    """Names for code addresses the simulator could not resolve itself."""
    def name(m):
        p = subprocess.run(['addr2line', '-Cfse', exe, m.group(1)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        l = p.stdout.split('\n')
        return (l[0] + ' ' + l[1]) if p.returncode == 0 and len(l) > 1 else m.group(0)
    return re.sub(r'in \? \((0x[0-9a-f]+)\)', lambda m: 'in ' + name(m), text)


def replay(path):
    text = open(path).read()
    harness = re.search(r'^harness (\S+)$', text, re.M).group(1)
    return subprocess.run([builder.build(harness), 'replay', os.path.abspath(path)]).returncode


def determinism(count):
    """Every seed in two processes, at different worker positions; all traces have to agree."""
    bad = 0
    for prop, harness in sorted((p, h) for p, c in CHECKS['properties'].items() for h in harnesses(c)):
        exe = builder.build(harness)
        out = []
        jobs = []
        for rep in range(2):
            step = 10 if rep == 0 else 25       # different process boundaries
            for s in range(0, count, step):
                jobs.append((rep, subprocess.Popen([exe, 'run', '--property', prop, '--seed', str(1 + s), '--count', str(step), '--hashes', '1'], stdout=subprocess.PIPE, text=True)))
                if len(jobs) % 8 == 0:
                    out += [(r, p.communicate()[0]) for r, p in jobs]
                    jobs = []
        out += [(r, p.communicate()[0]) for r, p in jobs]
        seen = [{}, {}]
        for r, t in out:
            for l in t.splitlines():
                m = re.match(r'^(\d+) ([0-9a-f]{16} \d+)$', l)      # hash and number of steps
                if m:
                    seen[r][m.group(1)] = m.group(2)
        diff = [k for k in seen[0] if k in seen[1] and seen[0][k] != seen[1][k]]
        print('%s: %d seeds in two sets of processes, %d differ %s' % (prop, len([k for k in seen[0] if k in seen[1]]), len(diff), diff[:5]))
        bad += len(diff) + (not seen[0])
    return 1 if bad else 0


def main():
    a = argparse.ArgumentParser()
    s = a.add_subparsers(dest='mode', required=True)
    s.add_parser('setup')
    c = s.add_parser('check')
    c.add_argument('property')
    c.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    c.add_argument('--seconds', type=int)
    c.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    r = s.add_parser('replay')
    r.add_argument('file')
    d = s.add_parser('determinism')
    d.add_argument('--count', type=int, default=200)
    o = a.parse_args()
    if o.mode == 'setup':
        for n in sorted({h for p in CHECKS['properties'].values() for h in harnesses(p)}):
            print(builder.build(n), flush=True)
        return 0
    if o.mode == 'check':
        return check(o.property, o.tier, o.seconds, o.seed)
    if o.mode == 'replay':
        return replay(o.file)
    return determinism(o.count)


sys.exit(main())
