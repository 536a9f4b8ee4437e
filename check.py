#!/usr/bin/env python3
"""Decides one property by deterministic simulation: builds the simulator from /repo's working tree, runs seeded
simulated executions on all cores, gates a violation by an exact replay in a fresh process, writes the evidence."""
import collections, fcntl, json, os, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
CONF = json.load(open(os.path.join(HERE, 'checks.json')))


def die(msg, code=2):
    print('ERROR: ' + msg)
    sys.stdout.flush()
    sys.exit(code)


def build(prop, jobs=None):
    c = CONF[prop]
    out = os.path.join(os.environ.get('VERIF_OUT', os.path.join(HERE, '_build')), 'sim')
    os.makedirs(out, exist_ok=True)
    lock = open(os.path.join(out, '.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    binary = os.path.join(out, 'simrun-' + prop)
    cmd = ['make', '-C', os.path.join(HERE, 'sim'), '-j%d' % (jobs or os.cpu_count() or 4), 'OUT=' + out, 'REPO=' + REPO,
           'MODE=full', 'SCN=' + ' '.join(c['scn']), 'BIN=' + binary, binary]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        print(p.stdout[-6000:])
        die('the simulator does not build from ' + REPO)
    fcntl.flock(lock, fcntl.LOCK_UN)
    return binary


def known(prop):
    out = []
    path = os.path.join(HERE, 'known_findings.txt')
    for line in open(path) if os.path.exists(path) else []:
        line = line.strip()
        if line.startswith('known:'):
            kv, _, text = line[6:].strip().partition(' :: ')
            d = dict(x.split('=', 1) for x in kv.split())
            d['text'] = text
            if d['property'] == prop:
                out.append(d)
    return out


def main():
    prop, tier = sys.argv[1], os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    c = CONF[prop]
    t0 = time.time()
    binary = build(prop)
    tb = time.time() - t0
    secs = float(os.environ.get('VERIF_SECS', c['quick_s'] if tier == 'quick' else c.get('thorough_s', 600)))
    min_runs = c.get('quick_min_runs', 0) if tier == 'quick' else 0
    work = os.path.join(os.path.dirname(binary), 'run-%s-%d' % (prop, os.getpid()))
    os.makedirs(work, exist_ok=True)
    stop = os.path.join(work, 'stop')
    env = dict(os.environ)
    env['LC_ALL'] = 'C'
    for k in ('ROTOR_INSPECT_DELIVERY', 'LIBEV_FLAGS'):
        env.pop(k, None)

    # listed findings: each has a scenario of its own, which has to fail in the recorded way
    findings, kviol = [], None
    for k in known(prop):
        p = subprocess.run([binary, 'kf', k['scenario'], str(k.get('seed', 1)), os.path.join(work, 'kf.replay')], stdout=subprocess.PIPE,
                           text=True, env=env)
        cls = p.stdout.strip().split('class=')[-1].split()[0] if 'class=' in p.stdout else '?'
        if cls == k['class']:
            findings.append(k)
            print('KNOWN-FINDING: property=%s %s' % (prop, k['text']))
        elif cls not in ('-', '?'):
            kviol = cls
    sys.stdout.flush()

    n = int(os.environ.get('VERIF_WORKERS', os.cpu_count() or 4))
    ps = []
    for w in range(n):
        ps.append(subprocess.Popen([binary, 'batch', prop, str(seed), str(w), str(n), str(secs), '1000000000',
                                    os.path.join(work, 'w%d.replay' % w), '20' if tier == 'quick' else '60', stop,
                                    str(min_runs // n)],
                                   stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env))
    res, errs = [], []
    for w, p in enumerate(ps):
        o, e = p.communicate()
        try:
            res.append((w, json.loads(o)))
        except ValueError:
            errs.append('worker %d: exit %s %s %s' % (w, p.returncode, o[-300:], e[-300:]))
    if errs:
        die('; '.join(errs))
    tot = collections.Counter()
    probes, scn = collections.Counter(), collections.Counter()
    samples = []
    for w, r in res:
        for k in ('runs', 'nontrivial', 'distinct', 'distinct_obs', 'sim_s', 'steps', 'switches', 'stalls', 'jumps',
                  'determinism_checks'):
            tot[k] += r[k]
        probes.update(r['probes'])
        scn.update(r['scenarios'])
        samples += r['samples']
    wall = max(r['wall'] for _, r in res)
    viol = [(w, r) for w, r in res if r['status'] == 'violation']
    confirmed = None
    for w, r in viol:
        rp = os.path.join(work, 'w%d.replay' % w)
        p = subprocess.run([binary, 'replay', rp], stdout=subprocess.PIPE, text=True, env=env)
        if p.returncode == 1:
            d = os.path.join(HERE, 'replays')
            os.makedirs(d, exist_ok=True)
            dst = os.path.join(d, '%s-%s.replay' % (prop, tier))
            shutil.copyfile(rp, dst)
            confirmed = (r, dst)
            break
    faults = {k[6:]: v for k, v in sorted(probes.items()) if k.startswith('fault:')}
    faults['stalled-threads'] = tot['stalls']
    faults['clock-jumps'] = tot['jumps']
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': tot['runs'], 'distinct_nontrivial': tot['nontrivial'],
            'rule': 'one case is one seeded simulated run (topology, operations, schedule and faults are drawn from the '
                    'seed); distinct: the hash of the full event log (every context switch with its position, every '
                    'observed message, callback and fault) was not seen before by the same worker; non-trivial: at least '
                    'one context switch between simulated threads and more than 50 scheduling points',
            'samples': samples[:6],
            'runs_per_hour': int(tot['runs'] * 3600 / max(wall, 0.01)),
            'seeds_per_hour': int(tot['runs'] * 3600 / max(wall, 0.01)),
            'distinct_observable_histories': tot['distinct_obs'],
            'simulated_seconds': round(tot['sim_s'], 1), 'scheduler_steps': tot['steps'],
            'context_switches': tot['switches'], 'determinism_self_checks': tot['determinism_checks'],
            'faults_injected': faults,
            'reached': {k: v for k, v in sorted(probes.items()) if not k.startswith('fault:')},
            'scenarios': dict(scn), 'build_s': round(tb, 1), 'real_code': c.get('real', 'all of /repo/src and /repo/include (core, plugins, and the thread, asio, ev, fltk and wx backends), '
                 'header-only boost.asio, libev, boost.lockfree'),
            'stubbed': c.get('stub', 'operating system clocks, mutexes, condition variables, epoll readiness, thread '
                             'scheduling and the heap (simulated); FLTK and wxWidgets event loops (fakes); one additional loop '
                             'backend written for the simulator'),
            'known_findings_reproduced': [k['id'] for k in findings],
        },
        'assumptions': ['sequentially consistent memory (the scheduler interleaves at atomic, lock and clock operations)',
                        'the simulated loops of FLTK and wxWidgets behave like the real ones'],
        'wall_s': round(time.time() - t0, 1), 'violations': 1 if (confirmed or kviol) else 0,
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    if confirmed:
        r, dst = confirmed
        shutil.rmtree(work)
        print('%s: %s' % (r['class'], r['msg']))
        print('VIOLATION property=%s replay=%s' % (prop, dst))
        sys.exit(1)
    if kviol:
        dst = os.path.join(HERE, 'replays', '%s-kf.replay' % prop)
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        shutil.copyfile(os.path.join(work, 'kf.replay'), dst)
        shutil.rmtree(work)
        print('a listed finding fails in another way: %s' % kviol)
        print('VIOLATION property=%s replay=%s' % (prop, dst))
        sys.exit(1)
    shutil.rmtree(work)
    if viol:
        die('a violation did not replay in a fresh process: %s %s' % (viol[0][1]['class'], viol[0][1]['msg']))
    for w, r in res:
        if r['status'] != 'ok':
            die('%s: %s %s' % (r['status'], r['class'], r['msg']))
    print('OK property=%s runs=%d distinct=%d simulated_s=%.0f wall_s=%.1f' %
          (prop, tot['runs'], tot['distinct'], tot['sim_s'], time.time() - t0))


main()
