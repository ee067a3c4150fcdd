#!/usr/bin/env python3
"""Builds and runs the check of one property: check.py ID [--tier quick|thorough] [--only CASE] [-v]

Exit status: 0 the property held on everything explored, 1 violation (with a VIOLATION line), 2 no answer.
"""
import json, os, subprocess, sys, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'tools'))
import build
from targets import CHECKS, PYTHON


def main():
    a = sys.argv[1:]
    pid = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    seed = os.environ.get('VERIF_SEED', '1')
    only = a[a.index('--only') + 1] if '--only' in a else None
    t0 = time.time()
    targets = CHECKS[pid]
    native = [t for t in targets if not t.endswith('.py')]
    if native and build.main(native):
        print('build failed')
        return 2
    tb = time.time() - t0
    ev = os.path.join(VERIF, 'evidence')
    os.makedirs(ev, exist_ok=True)
    out = os.path.join(ev, pid + '.json')
    result = 0
    parts = []
    for t in targets:
        part = out if len(targets) == 1 else os.path.join(build.BUILD, f'{t}.evidence.json')
        exe = [PYTHON, '-B', os.path.join(VERIF, 'pyharness', t)] if t.endswith('.py') else [os.path.join(build.BUILD, 'bin', t)]
        cmd = exe + ['--tier', tier, '--seed', seed, '--jobs', str(os.cpu_count() or 8),
               '--known', os.path.join(VERIF, 'known_findings.txt')]
        if only is None:
            cmd += ['--out', part, '--replays', os.path.join(ev, 'replays')]
        else:
            cmd += ['--only', only]
        if '-v' in a:
            cmd += ['-v']
        sys.stdout.flush()
        r = subprocess.run(cmd).returncode
        if r not in (0, 1):
            print(f'{t}: exit status {r}')
            return 2
        result = max(result, r)
        parts.append(part)
    if only is None:
        docs = [json.load(open(p)) for p in parts]
        d = docs[0]
        for o in docs[1:]:
            c, e = d['coverage'], o['coverage']
            for k in ('evaluations', 'distinct_nontrivial', 'states', 'transitions', 'traces_validated_against_impl'):
                if k in c and k in e:
                    c[k] += e[k]
            c['exhaustive'] = c['exhaustive'] and e['exhaustive']
            for k, v in e['counters'].items():
                c['counters'][k] = max(v, c['counters'].get(k, 0)) if k.startswith('max ') else v + c['counters'].get(k, 0)
            c['rule'] += ' || ' + e['rule'] if e['rule'] != c['rule'] else ''
            c['samples'] += e['samples']
            d['assumptions'] += [x for x in o['assumptions'] if x not in d['assumptions']]
            d['violations'] += o['violations']
        d['wall_s'] = round(time.time() - t0, 3)
        d['coverage']['build_s'] = round(tb, 1)
        with open(out, 'w') as f:
            json.dump(d, f, indent=1)
    return result


if __name__ == '__main__':
    sys.exit(main())
