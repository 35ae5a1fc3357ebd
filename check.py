#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--replay FILE]: decides one property against /repo's working tree."""
import sys, os, json, time, shutil, tempfile, subprocess
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'lib'))
import build

KS = ['ks2', 'ks3a', 'ks3b', 'ks3c']
K4 = ['ks4a', 'ks4b', 'ks4e']
KEYS = ['ks4a', 'ks4c', 'ks4d']
TY = ['ty_narrow', 'ty_bits', 'ty_enums', 'ty_fixed', 'ty_etl', 'ty_std', 'ty_user']
LIM = ['lim_field', 'lim_file']
TYF = KS + TY
MISC = KS + ['ty_enums', 'ty_fixed', 'ty_etl', 'ty_std', 'ty_user']
RT = {
    'P01': dict(protos=KS + K4, props=['props_pb.cpp']),
    'P02': dict(protos=KS + K4, props=['props_pb.cpp']),
    'P03': dict(protos=KS + K4, props=['props_pb.cpp']),
    'P04': dict(protos=KS + ['evo', 'ks4a'], props=['props_pb.cpp']),
    'P05': dict(protos=TYF, props=['props_pb.cpp']),
    'P07': dict(protos=TYF, props=['props_pb.cpp']),
    'P08': dict(protos=KS + K4 + ['ks4c'], props=['props_json.cpp']),
    'P09': dict(protos=KS + KEYS, props=['props_json.cpp']),
    'P10': dict(protos=KS + KEYS + ['ks4e'], props=['props_json.cpp']),
    'P11': dict(protos=TYF, props=['props_json.cpp']),
    'P12': dict(protos=TYF, props=['props_json.cpp']),
    'P06': dict(protos=MISC, props=['props_misc.cpp']),
    'P13': dict(protos=MISC, props=['props_misc.cpp']),
    'P14': dict(protos=MISC, props=['props_misc.cpp']),
    'P15': dict(protos=LIM + ['ty_enums', 'ty_fixed', 'ty_etl', 'ty_std', 'ty_user'], props=['props_types.cpp']),
    'P16': dict(protos=KS + ['ks4a', 'ks4e'] + LIM + ['ty_enums', 'ty_narrow', 'ty_bits', 'ty_fixed'], props=['props_types.cpp']),
    'P18': dict(protos=TY, props=['props_types.cpp']),
    'P23': dict(protos=MISC + ['ty_narrow', 'ty_bits', 'lim_field'], props=['props_conc.cpp'], san=build.TSAN),
    'P17': dict(protos=MISC + ['ty_track'], props=['props_misc.cpp']),
}
ASSUME = ['g++ 13 with AddressSanitizer and UndefinedBehaviorSanitizer detects the memory errors and undefined behaviour it documents',
          'libprotobuf 3.21 is the reference implementation where a reference is named']

def violation(pid, text, name='build'):
    os.makedirs(os.path.join(VERIF, 'evidence/replays'), exist_ok=True)
    p = os.path.join(VERIF, 'evidence/replays/%s_%s.txt' % (pid, name))
    open(p, 'w').write('property: %s\n\n%s\n' % (pid, text))
    print(text[:3000])
    print('VIOLATION property=%s replay=%s' % (pid, p))
    return p

def write_evidence(pid, tier, seed, subs, violations, t0, extra=None):
    ev = sum(s['evaluations'] for s in subs)
    nt = sum(s['distinct_nontrivial'] for s in subs)
    samples = []
    for s in subs:
        for x in s['samples'][:3]:
            samples.append('[%s] %s' % (s['sub'], x))
    cov = dict(evaluations=ev, distinct_nontrivial=nt, rule='; '.join('%s: %s' % (s['sub'], s['rule']) for s in subs), samples=samples[:12] or ['(none)'],
               subs=[{k: s[k] for k in ('sub', 'rule', 'planned', 'evaluations', 'distinct_nontrivial', 'labels') if k in s} for s in subs])
    d = dict(property=pid, tier=tier, seed=seed, level='exploration', coverage=cov, assumptions=ASSUME + (extra or []), wall_s=round(time.time() - t0, 1), violations=violations)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(d, open(os.path.join(VERIF, 'evidence/%s.json' % pid), 'w'), indent=1)

def main():
    a = sys.argv[1:]
    pid = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    replay = None
    scale = '1'
    sub = None
    fuzz = 0
    for i, x in enumerate(a):
        if x == '--tier': tier = a[i + 1]
        if x == '--replay': replay = os.path.abspath(a[i + 1])
        if x == '--scale': scale = a[i + 1]
        if x == '--sub': sub = a[i + 1]
        if x == '--fuzz': fuzz = int(a[i + 1])
        if x == '--seed': os.environ['VERIF_SEED'] = a[i + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='spbv_%s_' % pid)
    keep = os.environ.get('SPBV_KEEP')
    try:
        if pid in RT:
            return runtime(pid, tier, seed, work, t0, replay, scale, sub, fuzz)
        import compiler_props
        return compiler_props.check(pid, tier, seed, work, t0, replay, float(scale), sub)
    except build.RepoBroken as e:
        violation(pid, str(e))
        write_evidence(pid, tier, seed, [dict(sub='build', rule='the harness schemas build', planned=1, evaluations=1, distinct_nontrivial=1, labels={}, samples=[str(e)[:300]])], 1, t0)
        return 1
    except build.HarnessError as e:
        print('ERROR: ' + str(e), file=sys.stderr)
        return 3
    finally:
        if keep: print('kept ' + work, file=sys.stderr)
        else: shutil.rmtree(work, ignore_errors=True)

def runtime(pid, tier, seed, work, t0, replay, scale, sub, fuzz=0):
    cfg = RT[pid]
    rt, desc = build.build_runtime(work, cfg['protos'], cfg['props'], san=cfg.get('san', build.SAN))
    tb = time.time() - t0
    print('%s: built in %.1fs' % (pid, tb), file=sys.stderr)
    rdir = os.path.join(VERIF, 'evidence/replays'); os.makedirs(rdir, exist_ok=True)
    stats = os.path.join(work, 'stats.json')
    cmd = [rt, '--prop', pid, '--seed', str(seed), '--tier', tier, '--workers', str(build.JOBS), '--out', stats, '--replay-dir', rdir, '--scale', scale,
           '--budget', '3000' if tier == 'thorough' else '120']
    if sub: cmd += ['--sub', sub]
    if replay: cmd += ['--replay', replay]
    env = dict(os.environ); env['PBT_DESC'] = desc
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)
    out = r.stdout.decode('utf-8', 'replace')
    sys.stderr.write(r.stderr.decode('utf-8', 'replace'))
    if replay:
        print(out)
        return r.returncode
    if r.returncode not in (0, 1) or not os.path.exists(stats):
        print(out[:4000])
        print('ERROR: harness ended with %d' % r.returncode, file=sys.stderr)
        return 3
    st = json.load(open(stats))
    if st['violations'] and 'harness:' in out.split('\n')[0]:
        print(out[:4000])
        print('ERROR: the harness contradicts itself', file=sys.stderr)
        return 3
    if not st['violations'] and (tier == 'thorough' or fuzz) and 'san' not in cfg:
        # the same cases with coverage guidance
        exe = build.build_fuzz(work, cfg['protos'], cfg['props'])
        fst = os.path.join(work, 'fstats.json')
        c2 = [exe, '--prop', pid, '--seed', str(seed), '--tier', 'quick', '--workers', str(build.JOBS), '--out', fst, '--replay-dir', rdir, '--fuzz', '1', '--budget', str(fuzz or 1200)]
        if sub: c2 += ['--sub', sub]
        r = subprocess.run(c2, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)
        out = r.stdout.decode('utf-8', 'replace')
        sys.stderr.write(r.stderr.decode('utf-8', 'replace'))
        if r.returncode not in (0, 1) or not os.path.exists(fst):
            print(out[:4000])
            print('ERROR: fuzz harness ended with %d' % r.returncode, file=sys.stderr)
            return 3
        f = json.load(open(fst))
        st['subs'] += f['subs']; st['violations'] += f['violations']
    write_evidence(pid, tier, seed, st['subs'], st['violations'], t0)
    if st['violations']:
        print(out[:6000])
        path = [l for l in out.split('\n') if l.startswith('REPLAY ')]
        print('VIOLATION property=%s replay=%s' % (pid, path[-1][7:] if path else 'none'))
        return 1
    for s in st['subs']:
        print('%s/%s: %d cases, %d distinct non-trivial' % (pid, s['sub'], s['evaluations'], s['distinct_nontrivial']))
    print('%s: held on everything explored (%.1fs)' % (pid, time.time() - t0))
    return 0

if __name__ == '__main__':
    sys.exit(main())
