#!/usr/bin/env python3
"""Entry point of all checks:  check.py <property> [quick|thorough] [--replay FILE]
                              check.py --setup | --manifest"""
import hashlib, json, os, subprocess, sys, time
VERIF = os.path.dirname(os.path.abspath(__file__))
os.chdir(VERIF)
sys.path.insert(0, VERIF)
import build, checks

def known_findings(prop):
    """lines 'known: property=<id> sig=<signature> <what fails>'; 'fixed:' lines suppress nothing"""
    out = {}
    try:
        for l in open(os.path.join(VERIF, 'known-findings.txt')):
            l = l.strip()
            if not l.startswith('known: property=%s ' % prop): continue
            rest = l.split(' ', 2)[2]
            sig, what = rest.split(' ', 1)
            assert sig.startswith('sig=')
            out[sig[4:]] = what
    except FileNotFoundError: pass
    return out

def run_engine(exe, run, prop, tier, limit, known, out, replay):
    cmd = [exe, '--tier', tier, '--property', prop, '--harness', run['harness'], '--out', out, '--replay-out', replay, '--time', str(limit), '--jobs', str(os.cpu_count() or 8)]
    if known: cmd += ['--known', '\x1f'.join(known)]
    env = dict(os.environ)
    env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=86:handle_abort=0:allocator_may_return_null=1:max_allocation_size_mb=4096:detect_stack_use_after_return=0:log_path=stderr'
    env['POTHOS_ROOT'] = '/nonexistent'
    env.pop('MC_VERBOSE', None)
    for f in (out, replay):
        if os.path.exists(f): os.unlink(f)
    try: r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=limit*2+300)
    except subprocess.TimeoutExpired: return 3, None, 'engine timed out'
    text = r.stdout.decode(errors='replace')
    try: data = json.load(open(out))
    except (OSError, ValueError): data = None
    return r.returncode, data, text

def build_run(run, exclude):
    return build.build(run['name'], [run['harness']], run.get('variant', 'plain'), exclude, run.get('flags', ()), run.get('link', ()))

def main():
    if sys.argv[1:2] == ['--setup']:
        # everything a check needs is built by the check itself; this warms the object cache
        for p, c in checks.CHECKS.items():
            for run in c['runs']:
                try: build_run(run, run.get('exclude'))
                except build.BuildError as e: print(str(e)[:2000]); return 1
        print('setup done'); return 0
    if sys.argv[1:2] == ['--manifest']:
        checks.write_manifest(); return 0
    prop = sys.argv[1]
    tier = (sys.argv[2] if len(sys.argv) > 2 and not sys.argv[2].startswith('-') else os.environ.get('VERIF_TIER', 'quick'))
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    c = checks.CHECKS[prop]
    if '--replay' in sys.argv:
        f = sys.argv[sys.argv.index('--replay')+1]
        for run in c['runs']:
            if ('harness ' + run['harness']) in open(f).readline():
                return subprocess.run([build_run(run, None), '--replay', f]).returncode
        return 3
    t0 = time.time()
    known = known_findings(prop)
    os.makedirs('evidence', exist_ok=True); os.makedirs('replay', exist_ok=True)
    scen = []; hits = {}; status = 0; viol = None
    for run in c['runs']:
        if tier == 'quick' and run.get('thorough_only'): continue
        out = os.path.join('.build', run['name'] + '.json')
        replay = os.path.join(VERIF, 'replay', '%s-%s.txt' % (prop, run['name']))
        limit = run.get('thorough', 1500) if tier == 'thorough' else run.get('quick', 240)
        try:
            rc, data, text = run_engine(build_run(run, run.get('exclude')), run, prop, tier, limit, list(known), out, replay)
            if rc != 0 and run.get('exclude') not in (None, '.'):
                # confirm on the complete library
                rc, data, text = run_engine(build_run(run, None), run, prop, tier, limit, list(known), out, replay)
        except build.BuildError as e:
            print('BUILD-ERROR %s' % e); return 2
        if data is None or rc not in (0, 1):
            print('CHECK-ERROR property=%s run=%s rc=%s\n%s' % (prop, run['name'], rc, text[-3000:])); return 2
        for s in data['scenarios']: s['run'] = run['name']; scen.append(s)
        for k, v in data['known'].items(): hits[k] = hits.get(k, 0) + v
        if rc == 1:
            status = 1; viol = (data, replay, text); break
    exhaustive = all(s['exhaustive'] for s in scen)
    samples = [dict(scenario=s['name'], nondefault_choices=s['sample_choices'][:40], trace=s['sample_trace']) for s in scen if s['sample_trace'] or s['sample_choices']][:8]
    if not samples: samples = [dict(scenario=s['name'], executions=s['executions']) for s in scen[:3]]
    execs = sum(s['executions'] for s in scen); steps = sum(s['steps'] for s in scen); states = sum(s['states'] for s in scen)
    if c['level'] == 'model_checking':
        cov = dict(states=states, transitions=steps, traces_validated_against_impl=execs)
    else:
        cov = dict(evaluations=execs, distinct_nontrivial=states, rule=c['rule'])
    cov['samples'] = samples; cov['exhaustive'] = bool(exhaustive and status == 0)
    cov['bounds'] = c.get('bounds', '')
    cov['scenarios'] = [{k: s[k] for k in ('run', 'name', 'executions', 'steps', 'states', 'outcomes', 'max_depth', 'bound', 'bounded', 'exhaustive', 'pruned', 'passes', 'wall')} for s in scen]
    ev = dict(property=prop, tier=tier if tier in ('quick', 'thorough') else 'quick', seed=seed, level=c['level'], coverage=cov,
              assumptions=c.get('assumptions', []), wall_s=round(time.time()-t0, 2), violations=1 if status else 0)
    with open(os.path.join('evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    for sig, n in hits.items():
        if n: print('KNOWN-FINDING: property=%s %s' % (prop, known[sig]))
    print('%s %s: %d executions, %d transitions, %d states, exhaustive=%s, %.1f s' % (prop, tier, execs, steps, states, exhaustive, time.time()-t0))
    if status:
        data, replay, text = viol
        print('%s: %s: %s' % (data['scenario'], data['sig'], data['msg']))
        print('VIOLATION property=%s replay=%s' % (prop, replay))
    return status

if __name__ == '__main__': sys.exit(main())
