#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--replay FILE] [--keep DIR]

Builds the harness units of a property from /repo's working tree, explores, aggregates the measured
counts into evidence/<id>.json.  exit 0: held on everything explored; 1: VIOLATION line printed;
2: the check itself failed (build error, missing tool)."""
import argparse, concurrent.futures as cf, json, os, re, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import meta
REPO = os.environ.get('HEU_REPO', '/repo')
ASAN = ['-fsanitize=address,undefined', '-fno-omit-frame-pointer']
BASE = ['-std=c++17', '-O1', '-I' + REPO, '-I/usr/include/eigen3', '-I' + HERE + '/mc', '-I' + HERE + '/harness', '-DMC_MAIN', '-w']

def build(unit, out):
    head = [unit.get('cxx', 'g++')] + BASE
    pre = []
    if unit.get('env', True): pre += ['-include', HERE + '/mc/mc_env.hpp']
    if unit.get('asan', True): pre += ASAN
    cmds = []; objs = []
    for i, (src, fl) in enumerate(unit.get('objs', [])):   # further translation units with flags of their own
        o = '%s.%d.o' % (out, i); objs.append(o)
        cmds.append(head + (['-include', HERE + '/mc/mc_env.hpp'] if '@noenv' not in fl else []) + [x for x in fl if x[0] != '@'] + ['-UMC_MAIN', '-c', os.path.join(HERE, src), '-o', o])
    cmds.append(head + pre + unit.get('flags', []) + [os.path.join(HERE, 'harness', unit['src'])] + objs + ['-o', out] + unit.get('libs', []))
    def one(cmd):
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        return p.returncode, ' '.join(cmd) + '\n' + p.stdout[:6000]
    if len(cmds) > 1:
        with cf.ThreadPoolExecutor(4) as ex: res = list(ex.map(one, cmds[:-1]))
        for r in res:
            if r[0]: return r
    return one(cmds[-1])

def run(cmd, env, timeout):
    try:
        p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout, stdin=subprocess.DEVNULL)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return 'timeout', (e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or '')

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay'); ap.add_argument('--keep'); ap.add_argument('--only-unit')
    a = ap.parse_args()
    t0 = time.time()
    prop = a.prop; tier = 'thorough' if a.tier == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    spec = meta.CHECKS[prop]
    units = [u for u in spec['units'] if not a.only_unit or u['name'] == a.only_unit]
    rdir = os.path.join(HERE, 'replays'); os.makedirs(rdir, exist_ok=True); os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    bdir = a.keep or tempfile.mkdtemp(prefix='heu_mc_')
    os.makedirs(bdir, exist_ok=True)
    try:
        with cf.ThreadPoolExecutor(8) as ex:
            res = list(ex.map(lambda u: build(u, os.path.join(bdir, u['name'])), units))
        for u, (rc, log) in zip(units, res):
            if rc:
                print('build of harness unit %s failed\n%s' % (u['name'], log)); return 2
        jobs = []
        for u in units:
            exe = os.path.join(bdir, u['name'])
            env = dict(os.environ); env.update({'OMP_NUM_THREADS': '1', 'VERIF_TIER': tier}); env.update(u.get('runenv', {}))
            base = [exe, '--prop', prop, '--tier', tier, '--seed', str(seed), '--replaydir', rdir, '--known', os.path.join(HERE, 'known_findings.txt'), '--unit', u['name']]
            if a.replay:
                jobs.append((u, base + ['--replay', a.replay], env, None)); continue
            nr = u.get('ranks', 8)
            for r in range(nr):
                js = os.path.join(bdir, '%s.%d.json' % (u['name'], r))
                jobs.append((u, base + ['--rank', str(r), '--nranks', str(nr), '--out', js], env, js))
        limit = 780 if tier == 'quick' else 6 * 3600
        with cf.ThreadPoolExecutor(8) as ex:
            outs = list(ex.map(lambda j: run(j[1], j[2], limit), jobs))
        agg = {}; per = {}; samples = []; notes = []; seen = set(); viol = 0; err = None; known = set()
        for (u, cmd, env, js), (rc, out) in zip(jobs, outs):
            for line in out.splitlines():
                if line.startswith('KNOWN-FINDING:'):
                    k = re.sub(r' \(.*', '', line)
                    if k not in known: known.add(k); print(line)
            if rc == 0: pass
            elif rc == 1 and ('VIOLATION property=%s ' % prop) in out:
                viol += 1
                lines = out.splitlines()
                for i, line in enumerate(lines):
                    if line.startswith('VIOLATION ') and len(seen) < 6:
                        key = re.sub(r'fit=.*|cfg\{.*?\}', '', lines[i + 1] if i + 1 < len(lines) else line)[:120]
                        if key not in seen: seen.add(key); print(line + ('\n' + lines[i + 1][:700] if i + 1 < len(lines) else ''))
            elif rc == 'timeout': err = 'unit %s exceeded %d s' % (u['name'], limit)
            else:
                # killed by a signal the handler could not report (stack overflow, kill): the code under test died
                if isinstance(rc, int) and rc < 0 and rc not in (-9, -15):
                    p = os.path.join(rdir, '%s-%s-died.replay' % (prop, u['name']))
                    open(p, 'w').write('property %s\nunit %s\nwhy died with signal %d\n%s\n' % (prop, u['name'], -rc, out[-3000:]))
                    print('VIOLATION property=%s replay=%s\n  unit %s died with signal %d' % (prop, p, u['name'], -rc)); viol += 1
                else: err = 'unit %s ended with %s\n%s' % (u['name'], rc, out[-3000:])
            if js and os.path.exists(js):
                d = json.load(open(js))
                for k in ('executions', 'transitions', 'checks', 'capped', 'states', 'outcomes', 'violations', 'known'): agg[k] = agg.get(k, 0) + d[k]
                for k, v in d['per'].items(): per[u['name'] + ':' + k] = per.get(u['name'] + ':' + k, 0) + v
                samples += d['samples'][:3]; notes += [n for n in d['notes'] if n not in notes]
        if err and not viol:
            print(err); return 2
        if not a.replay:
            cov = {'states': agg.get('states', 0), 'transitions': agg.get('transitions', 0), 'traces_validated_against_impl': agg.get('executions', 0),
                   'samples': samples[:12] or ['(none)'], 'exhaustive': agg.get('capped', 0) == 0 and not viol, 'executions': agg.get('executions', 0),
                   'oracle_evaluations': agg.get('checks', 0), 'executions_at_choice_horizon': agg.get('capped', 0), 'distinct_outcomes': agg.get('outcomes', 0),
                   'known_findings_hit': agg.get('known', 0), 'executions_per_section': per, 'bounds': spec['bounds'], 'notes': notes,
                   'explanation': 'every execution is a run of the implementation itself (no separate model): executions = traces validated; states are summed over the worker processes'}
            ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': spec.get('level', 'model_checking'), 'coverage': cov,
                  'assumptions': spec.get('assumptions', []) + meta.COMMON_ASSUMPTIONS, 'wall_s': round(time.time() - t0, 2), 'violations': viol}
            json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
            print('%s %s: %s executions, %s transitions, %s states, %s checks, capped %s, %.1f s' % (prop, tier, agg.get('executions'), agg.get('transitions'), agg.get('states'), agg.get('checks'), agg.get('capped'), time.time() - t0))
            if not viol and agg.get('executions', 0) == 0:
                print('nothing was explored'); return 2
        return 1 if viol else 0
    finally:
        if not a.keep: shutil.rmtree(bdir, ignore_errors=True)
sys.exit(main())
