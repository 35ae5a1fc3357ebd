"""P19-P22: properties of the compiler, decided over randomly generated schemas."""
import os, sys, json, random, shutil, subprocess, time, re, hashlib
import concurrent.futures as cf
import build, schema, bridge_gen
from build import run, SAN, ASAN_ENV, VERIF, REPO, CXX, BASE, JOBS

PROTO_INC = os.path.join(REPO, 'include/spb/proto')
DESC_INC = os.path.join(VERIF, 'proto/inc')

def sha(s): return hashlib.sha1(s.encode('utf-8', 'surrogateescape')).hexdigest()[:12]

def write_files(d, files):
    for k, v in files.items():
        p = os.path.join(d, k)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, 'w', encoding='utf-8', newline='').write(v) if isinstance(v, str) else open(p, 'wb').write(v)

def protoc(d, paths, desc=None, inc=('.',)):
    r = run(['protoc', '--experimental_allow_proto3_optional'] + ['-I' + i for i in inc] + ['--include_imports', '--descriptor_set_out=' + (desc or '/dev/null')] + paths, cwd=d, timeout=60)
    return r.returncode, r.stderr.decode('utf-8', 'replace')

def spb(exe, d, paths, out='out', inc=('.',), timeout=20, cwd=None):
    """-> (exit status or 'timeout', text)"""
    try:
        r = run([exe, '--cpp_out=' + out] + ['-I' + i for i in inc] + paths, cwd=cwd or d, timeout=timeout, env=ASAN_ENV)
    except subprocess.TimeoutExpired:
        return 'timeout', ''
    return r.returncode, (r.stdout + r.stderr).decode('utf-8', 'replace')

class Stats:
    """coverage counters of one sub-check"""
    def __init__(self, sub, rule):
        self.sub, self.rule, self.n, self.nt, self.labels, self.samples, self.planned = sub, rule, 0, set(), {}, [], 0
    def case(self, key=None, label=None, sample=None):
        self.n += 1
        if key is not None: self.nt.add(key)
        if label: self.labels[label] = self.labels.get(label, 0) + 1
        if sample and len(self.samples) < 6: self.samples.append(sample)
    def evidence(self):
        return dict(sub=self.sub, rule=self.rule, planned=self.planned or self.n, evaluations=self.n, distinct_nontrivial=len(self.nt), labels=self.labels, samples=self.samples or ['(none)'])

class Violation(Exception):
    def __init__(self, text, replay): self.text = text; self.replay = replay

def save_replay(pid, data, text):
    d = os.path.join(VERIF, 'evidence/replays')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s_%s.json' % (pid, sha(json.dumps(data, sort_keys=True, default=str))))
    json.dump(dict(property=pid, what=text, **data), open(p, 'w'), indent=1, default=str)
    return p

def show_files(files, limit=3000):
    out = ''.join('---- %s\n%s\n' % kv for kv in sorted(files.items()))
    return out[:limit] + ('\n...' if len(out) > limit else '')

def shrink(p, bad, limit, width=JOBS, smaller=schema.smaller):
    """greedy structural minimisation; bad(project) -> True if it still fails the same way"""
    end = time.time() + limit
    again = True
    with cf.ThreadPoolExecutor(width) as ex:
        while again and time.time() < end:
            again = False
            cand = smaller(p)
            while time.time() < end:
                group = []
                for q in cand:
                    group.append(q)
                    if len(group) == width: break
                if not group: break
                res = list(ex.map(bad, group))
                hit = [q for q, r in zip(group, res) if r]
                if hit:
                    p = hit[0]
                    again = True
                    break
    return p

# ================================================================================================= P19
class Project:
    def __init__(self, p, files, base):
        self.p, self.files, self.base = p, files, base
        self.src = base + '/src'; self.gen = base + '/gen'; self.obj = base + '/o'
        self.stage = 'ok'; self.msg = ''
        self.paths = sorted(files)

def front(exe, pr):
    """protoc and spb-protoc"""
    shutil.rmtree(pr.base, ignore_errors=True)
    for d in (pr.src, pr.gen, pr.obj): os.makedirs(d)
    write_files(pr.src, pr.files)
    rc, err = protoc(pr.src, pr.paths, pr.base + '/desc')
    if rc: pr.stage, pr.msg = 'protoc', err; return pr
    rc, out = spb(exe, pr.src, pr.paths, pr.gen)
    if rc != 0: pr.stage, pr.msg = 'spb', 'exit %s\n%s' % (rc, out); return pr
    r = run(['protoc', '-I', DESC_INC, '--decode=google.protobuf.FileDescriptorSet', 'google/protobuf/descriptor.proto', 'spb.proto'], inp=open(pr.base + '/desc', 'rb').read())
    if r.returncode: raise build.HarnessError('protoc --decode: ' + r.stderr.decode())
    try: pr.bases = bridge_gen.run(r.stdout.decode(), pr.gen, pr.paths)
    except KeyError as e: raise build.HarnessError('bridge generator: %r' % e)
    for b in pr.bases:
        for e in ('.pb.h', '.pb.cc'):
            if not os.path.exists(os.path.join(pr.gen, b + e)):
                pr.stage, pr.msg = 'spb', 'exit 0 without writing %s' % (b + e)
    return pr

GFLAGS = ['-O0', '-g0'] + SAN
def compile_jobs(pr, pch):
    inc = ['-I', os.path.join(VERIF, 'cpp'), '-I', os.path.join(REPO, 'include'), '-I', pr.gen]
    jobs = []
    for k, b in enumerate(pr.bases):
        jobs.append((pr, 'gen', pr.gen + '/' + b + '.pb.cc', '%s/%d.pb.o' % (pr.obj, k), GFLAGS + inc))
        jobs.append((pr, 'bridge', pr.gen + '/' + b + '.bridge.cc', '%s/%d.br.o' % (pr.obj, k), GFLAGS + (['-include', pch] if pch else []) + inc))
    return jobs
def do_compile(j):
    pr, kind, src, obj, flags = j
    s, rc, err = build.compile_one(src, obj, flags)
    return (pr, kind, src, obj, rc, err)

def make_pch(work):
    d = work + '/pch'
    os.makedirs(d, exist_ok=True)
    open(d + '/pre.hpp', 'w').write('#include "tree.hpp"\n#include "ops_impl.hpp"\n#include <map>\n#include <memory>\n#include <optional>\n#include <string>\n#include <variant>\n#include <vector>\n')
    r = run([CXX] + BASE + GFLAGS + ['-I', os.path.join(VERIF, 'cpp'), '-I', os.path.join(REPO, 'include'), '-x', 'c++-header', d + '/pre.hpp', '-o', d + '/pre.hpp.gch'])
    if r.returncode: raise build.HarnessError('harness header does not compile\n' + r.stderr.decode('utf-8', 'replace')[:3000])
    return d + '/pre.hpp'

def harness_jobs(work):
    cpp = os.path.join(VERIF, 'cpp')
    os.makedirs(work + '/h', exist_ok=True)
    flags = ['-O1', '-g1', '-I', cpp, '-I', os.path.join(REPO, 'include')] + SAN
    return [(build.compile_one, os.path.join(cpp, f), work + '/h/' + f + '.o', flags) for f in ['props_p19.cpp'] + build.RT_COMMON]

def compile_projects(prs, pch):
    """compiles everything; sets stage 'compile' where the generated code does not build"""
    jobs = [j for pr in prs if pr.stage == 'ok' for j in compile_jobs(pr, pch)]
    with cf.ThreadPoolExecutor(JOBS) as ex: res = list(ex.map(do_compile, jobs))
    gen = [r for r in res if r[1] == 'gen' and r[4]]
    for pr, kind, src, obj, rc, err in gen:
        if pr.stage == 'ok': pr.stage, pr.msg = 'compile', 'the generated %s does not compile\n%s' % (os.path.relpath(src, pr.gen), err[:3000])
    for pr, kind, src, obj, rc, err in res:
        if kind == 'bridge' and rc and pr.stage == 'ok': pr.stage, pr.msg = 'compile', 'the documented use of the generated code does not compile (%s)\n%s' % (os.path.basename(src), err[:3000])
    for pr in prs: pr.objs = [r[3] for r in res if r[0] is pr]

def link(prs, hobj, exe, desc):
    with open(desc, 'wb') as f:
        for pr in prs: f.write(open(pr.base + '/desc', 'rb').read())
    rsp = exe + '.rsp'
    open(rsp, 'w').write('\n'.join('"%s"' % o for pr in prs for o in pr.objs))
    r = run([CXX, '-o', exe] + hobj + ['@' + rsp] + SAN + ['-lprotobuf'])
    return r.returncode, r.stderr.decode('utf-8', 'replace')

def run_rt(exe, desc, seed, tier, scale, stats, rdir, budget):
    env = dict(os.environ); env['PBT_DESC'] = desc
    cmd = [exe, '--prop', 'P19', '--seed', str(seed), '--tier', tier, '--workers', str(JOBS), '--out', stats, '--replay-dir', rdir, '--scale', str(scale), '--budget', str(budget)]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)
    out = r.stdout.decode('utf-8', 'replace')
    if r.returncode not in (0, 1) or not os.path.exists(stats):
        raise build.HarnessError('harness ended with %d\n%s\n%s' % (r.returncode, out[:2000], r.stderr.decode('utf-8', 'replace')[-3000:]))
    st = json.load(open(stats))
    if st['violations'] and 'harness:' in out.split('\n')[0]: raise build.HarnessError('the harness contradicts itself\n' + out[:4000])
    return st, out

def batch_projects(seed, batch, n, cfg=None):
    out = []
    roots = list(schema.ROOTS)
    rng = random.Random('roots %s %s' % (seed, batch))
    rng.shuffle(roots)
    for i in range(n):
        tag = 't%d_%d' % (batch, i)
        own = roots[i * 2:i * 2 + 2] + ['r%d_%d' % (batch, i), 's%d_%d' % (batch, i), 'u%d_%d' % (batch, i)]
        own.reverse()    # taken from the end
        p = schema.generate('P19 %s %s %s' % (seed, batch, i), tag, own, cfg)
        out.append((p, schema.render(p, random.Random('render %s %s %s' % (seed, batch, i)))))
    return out

def one_project(exe, pch, hobj, p, files, base, seed=1, runtime=True):
    """-> (stage, message) of a single project, stage 'ok' if everything holds"""
    pr = front(exe, Project(p, files, base))
    if pr.stage != 'ok': return pr.stage, pr.msg
    compile_projects([pr], pch)
    if pr.stage != 'ok' or not runtime: return pr.stage, pr.msg
    rc, err = link([pr], hobj, base + '/rt', base + '/all.desc')
    if rc: return 'compile', 'does not link\n' + err[:3000]
    os.makedirs(base + '/r', exist_ok=True)
    if not has_types(pr): return 'ok', ''
    st, out = run_rt(base + '/rt', base + '/all.desc', seed, 'quick', 0.25, base + '/stats.json', base + '/r', 60)
    if st['violations']: return 'runtime', out
    return 'ok', ''
def has_types(pr): return any('Registrar' in open(pr.gen + '/' + b + '.bridge.cc').read() for b in pr.bases)

def signature(stage, msg):
    if stage == 'spb':
        m = re.search(r':\d+:\d+: (.{0,30})', msg)
        return m.group(1) if m else msg[:12]
    if stage == 'runtime': return 'runtime'
    return stage

def setup(work, hjobs=True):
    """compiler with sanitizers and the harness objects, built together"""
    cj = build.compiler_jobs(work, san=True, opt='-O1')
    hj = harness_jobs(work) if hjobs else []
    with cf.ThreadPoolExecutor(JOBS) as ex:
        cfs = [ex.submit(j[0], *j[1:]) for j in cj]
        pch = ex.submit(make_pch, work) if hjobs else None
        hfs = [ex.submit(j[0], *j[1:]) for j in hj]
        exe = build.link_compiler(work, cj, [f.result() for f in cfs], san=True)
        hres = [f.result() for f in hfs]
        pch = pch.result() if pch else None
    for r in hres:
        if r[1]: raise build.HarnessError('harness does not compile: ' + r[0] + '\n' + r[2][:4000])
    return exe, pch, [j[2] for j in hj]

def p19(tier, seed, work, t0, scale, sub=None):
    import check
    exe, pch, hobj = setup(work)
    batches, n = (1, 24) if tier == 'quick' else (14, 32)
    if scale != 1: batches = max(1, int(batches * scale))
    comp = Stats('schemas', 'a project the reference compiler accepts, compiled as C++ (the project\'s text)')
    comp.planned = batches * n
    rts = {}
    refused = 0
    for b in range(batches):
        prs = [Project(p, files, '%s/b%d/%d' % (work, b, i)) for i, (p, files) in enumerate(batch_projects(seed, b, n))]
        with cf.ThreadPoolExecutor(JOBS) as ex: list(ex.map(lambda pr: front(exe, pr), prs))
        compile_projects(prs, pch)
        for pr in prs:
            if pr.stage == 'protoc': refused += 1; continue
            text = show_files(pr.files, 10 ** 9)
            comp.case(sha(text), 'files:%d' % len(pr.files), text[:500])
            for f in pr.p['files']: comp.labels['syntax:%s' % f['syntax']] = comp.labels.get('syntax:%s' % f['syntax'], 0) + 1
        bad = [pr for pr in prs if pr.stage in ('spb', 'compile')]
        if bad: report19(exe, pch, hobj, bad[0], seed, work)
        good = [pr for pr in prs if pr.stage == 'ok']
        rt = '%s/b%d/rt' % (work, b)
        rc, err = link(good, hobj, rt, rt + '.desc')
        if rc: raise Violation('the generated code of several schemas does not link together\n' + err[:3000], dict(stage='link', files={k: v for pr in good for k, v in pr.files.items()}, seed=seed))
        os.makedirs(rt + '.r', exist_ok=True)
        st, out = run_rt(rt, rt + '.desc', seed * 1000 + b, tier, 1, rt + '.json', rt + '.r', 100 if tier == 'quick' else 300)
        for s in st['subs']:
            e = rts.setdefault(s['sub'], dict(s, labels={}, planned=0, evaluations=0, distinct_nontrivial=0))
            for k in ('planned', 'evaluations', 'distinct_nontrivial'): e[k] += s[k]
            e['labels']['types'] = e['labels'].get('types', 0) + len([x for x in s['labels'] if x.startswith('type:')])
        if st['violations']:
            m = re.search(r'^type: (\S+)', out, re.M)
            full = m.group(1) if m else ''
            pr = next((pr for pr in good if full in {i for i in schema.Index(pr.p).full.values()}), None)
            if pr is None: raise Violation(out[:4000], dict(stage='runtime', files={k: v for q in good for k, v in q.files.items()}, seed=seed))
            pr.stage, pr.msg = 'runtime', out
            report19(exe, pch, hobj, pr, seed, work)
        for pr in prs: shutil.rmtree(pr.base, ignore_errors=True)
        try: os.unlink(rt)
        except OSError: pass
    if refused * 4 > batches * n: raise build.HarnessError('the schema generator is broken: protoc refuses %d of %d projects' % (refused, batches * n))
    comp.labels['refused by the reference compiler (dropped)'] = refused
    return [comp.evidence()] + list(rts.values())

def report19(exe, pch, hobj, pr, seed, work):
    want = signature(pr.stage, pr.msg)
    stage = pr.stage
    counter = [0]
    def render(p):
        return schema.render(p, random.Random('shrink'), schema.PLAIN)
    def test(p, files=None):
        counter[0] += 1
        base = '%s/shr/%d' % (work, counter[0])
        files = files or render(p)
        try:
            s, m = one_project(exe, pch, hobj, p, files, base, seed, stage == 'runtime')
        except build.HarnessError as e:
            return None, str(e)
        finally:
            pass
        shutil.rmtree(base, ignore_errors=True)
        return s, m
    p, files, msg = pr.p, pr.files, pr.msg
    s, m = test(p)
    if s == stage and signature(s, m) == want:
        p = shrink(p, lambda q: (lambda r: r[0] == stage and signature(*r) == want)(test(q)), 100 if stage == 'runtime' else 60)
        s2, m2 = test(p)
        if s2 == stage: files, msg = render(p), m2
    what = {'spb': 'a valid schema is refused', 'compile': 'the generated code of a valid schema does not compile', 'runtime': 'a message of a valid schema does not interoperate'}[stage]
    raise Violation('%s\n%s\n%s' % (what, show_files(files), msg[:4000]), dict(stage=stage, files=files, seed=seed))

def replay19(data, work):
    exe, pch, hobj = setup(work)
    s, m = one_project(exe, pch, hobj, None, data['files'], work + '/replay', data.get('seed', 1))
    print('stage: %s\n%s' % (s, m))
    return 0 if s == 'ok' else 1

# ================================================================================================= driver
def props(pid):
    if pid == 'P19': return p19, replay19
    import importlib
    m = importlib.import_module(pid.lower())
    return m.check, m.replay

def check(pid, tier, seed, work, t0, replay, scale=1.0, sub=None):
    import check as main
    fn, rep = props(pid)
    if replay: return rep(json.load(open(replay)), work)
    try:
        subs = fn(tier, seed, work, t0, scale, sub)
    except Violation as v:
        p = save_replay(pid, v.replay, v.text)
        print(v.text[:6000])
        print('VIOLATION property=%s replay=%s' % (pid, p))
        main.write_evidence(pid, tier, seed, [dict(sub='failed', rule='the case which failed', planned=1, evaluations=1, distinct_nontrivial=1, labels={}, samples=[v.text[:500]])], 1, t0)
        return 1
    main.write_evidence(pid, tier, seed, subs, 0, t0)
    for s in subs: print('%s/%s: %d cases, %d distinct non-trivial' % (pid, s['sub'], s['evaluations'], s['distinct_nontrivial']))
    print('%s: held on everything explored (%.1fs)' % (pid, time.time() - t0))
    return 0
