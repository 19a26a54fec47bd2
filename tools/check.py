#!/usr/bin/env python3
"""Decide one property: build /repo's working tree with the harness, search,
shrink and confirm a failure, write the evidence.

usage: check.py ID [--tier quick|thorough] [--replay FILE]
exit 0: held on everything explored; exit 1 and a VIOLATION line: broken.
"""
import json, os, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build as B
from props import PROPS  # id -> dict(group, san, assumptions)

V = B.VERIF


def findings(pid):
    r = []
    with open(os.path.join(V, 'known_findings.txt')) as f:
        for l in f:
            w = l.split(None, 3)
            if len(w) == 4 and w[0] == 'finding:' and w[1] == 'property=' + pid:
                r.append((w[2].split('=', 1)[1], w[3].strip()))
    return r


def main():
    a = sys.argv[1:]
    pid = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    seed = os.environ.get('VERIF_SEED', '1')
    if not seed.isdigit():
        seed = str(int(B.sha(seed)[:8], 16))
    t0 = time.time()
    P = PROPS[pid]
    exe = B.build([P['group']], bool(P.get('san')))
    env = dict(os.environ, OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1',
               ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_odr_violation=0',
               UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1:exitcode=99')
    if '--replay' in a:
        r = subprocess.run([exe, '--id', pid, '--replay', a[a.index('--replay') + 1]], env=env)
        return r.returncode
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(V, 'replays'), exist_ok=True)
    known = []
    for k, what in findings(pid):
        r = subprocess.run([exe, '--id', k, '--case', '0', '--jobs', '1', '--out', '/dev/null'], env=dict(env, PBT_NOSHRINK='1'),
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if r.returncode == 1:
            known.append(what)
            print('KNOWN-FINDING: property=%s %s' % (pid, what), flush=True)
    out = os.path.join(V, 'evidence', pid + '.raw')
    cmd = [exe, '--id', pid, '--seed', seed, '--tier', tier, '--out', out, '--jobs', os.environ.get('VERIF_JOBS', str(os.cpu_count() or 8))]
    if os.environ.get('VERIF_SCALE'):
        cmd += ['--scale', os.environ['VERIF_SCALE']]
    if os.path.exists(out):
        os.remove(out)
    r = subprocess.run(cmd, env=env)
    if not os.path.exists(out):
        print('check error: the search ended with status %d and no result' % r.returncode, file=sys.stderr)
        return 2
    d = json.load(open(out))
    os.remove(out)
    viol = []
    if d['violation']:
        rep = os.path.join(V, 'replays', '%s-%s-seed%s.txt' % (pid, tier, seed))
        with open(rep, 'w') as f:
            f.write('# property %s, %s, seed %s\n' % (pid, tier, seed))
            for k in ('vtag', 'vmsg', 'vnote'):
                f.write('# %s: %s\n' % (k[1:], d[k].replace('\n', '\n#   ')))
            f.write('# replay: python3 /verif/tools/check.py %s --replay %s\n' % (pid, rep))
            f.write(' '.join(map(str, d['choices'])) + '\n')
        viol.append({'property': pid, 'replay': rep, 'tag': d['vtag'], 'message': d['vmsg'][:1500], 'input': d['vnote'][:3000]})
    ev = {'property': pid, 'tier': tier, 'seed': int(seed), 'level': 'exploration',
          'coverage': {'evaluations': d['cases'], 'distinct_nontrivial': d['distinct_nontrivial'], 'rule': d['rule'],
                       'samples': d['samples'] or [d.get('vnote', 'none')], 'labels': d['labels'], 'passed': d['pass'], 'discarded': d['discard'],
                       'inconclusive': d['inconclusive'], 'inconclusive_reasons': d['inconclusive_reasons'], 'timeouts': d['timeout'],
                       'timeout_inputs': d['timeout_notes'], 'planned': d['planned'], 'stopped_by_wall_clock': d['wall_limited'],
                       'failures_not_reproduced': d['flaky_msgs'], 'sanitizers': 'address,undefined' if P.get('san') else 'none'},
          'assumptions': P.get('assumptions', []) + ['known finding, excluded from the generated domain: ' + k for k in known],
          'wall_s': round(time.time() - t0, 2), 'violations': viol}
    with open(os.path.join(V, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s seed %s: %d cases, %d non-trivial and distinct, %d discarded, %d inconclusive, %d timeouts, %.0f s' % (
        pid, tier, seed, d['cases'], d['distinct_nontrivial'], d['discard'], d['inconclusive'], d['timeout'], time.time() - t0))
    if viol:
        print('  %s: %s' % (d['vtag'], d['vmsg'][:800]))
        print('  input: %s' % d['vnote'][:1500])
        print('VIOLATION property=%s replay=%s' % (pid, viol[0]['replay']))
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
