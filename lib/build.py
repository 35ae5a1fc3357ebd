"""Builds the compiler and the runtime harness from /repo's working tree into a scratch directory."""
import os, subprocess, glob, shutil, tempfile, sys, concurrent.futures as cf, re
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SPB_REPO', '/repo')
sys.path.insert(0, os.path.join(VERIF, 'lib'))
import bridge_gen

CXX = 'g++'
BASE = ['-std=c++20', '-pipe']
SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS']
TSAN = ['-fsanitize=thread', '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS']
JOBS = os.cpu_count() or 8

class HarnessError(Exception):
    """the machinery itself could not do its work (no verdict)"""
class RepoBroken(Exception):
    """code from /repo does not build or run on valid input: a violation of the property being checked"""

def run(cmd, cwd=None, timeout=600, inp=None, env=None):
    e = dict(os.environ); e['LC_ALL'] = 'C.UTF-8'
    if env: e.update(env)
    return subprocess.run(cmd, cwd=cwd, timeout=timeout, input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e)

def parallel(jobs):
    """jobs: list of (callable, args...) -> results"""
    with cf.ThreadPoolExecutor(JOBS) as ex:
        fs = [ex.submit(j[0], *j[1:]) for j in jobs]
        return [f.result() for f in fs]

def compile_one(src, obj, flags, cwd=None, timeout=800, cxx=None):
    r = run([cxx or CXX] + BASE + flags + ['-c', src, '-o', obj], cwd=cwd, timeout=timeout)
    return (src, r.returncode, r.stderr.decode('utf-8', 'replace'))

def compiler_jobs(work, san=True, opt='-O1'):
    src = os.path.join(REPO, 'src/spb-proto-compiler')
    files = sorted(glob.glob(src + '/**/*.cpp', recursive=True))
    if not files: raise HarnessError('no compiler sources')
    out = os.path.join(work, 'protoc_o'); os.makedirs(out, exist_ok=True)
    flags = [opt, '-g1', '-I', src, '-I', os.path.join(REPO, 'include')] + (SAN if san else [])
    jobs = []
    for f in files:
        o = os.path.join(out, os.path.relpath(f, src).replace('/', '_') + '.o')
        jobs.append((compile_one, f, o, flags))
    return jobs
def link_compiler(work, jobs, results, san=True):
    bad = [r for r in results if r[1]]
    if bad: raise HarnessError('the compiler does not build: ' + bad[0][0] + '\n' + bad[0][2][:3000])
    exe = os.path.join(work, 'spb-protoc')
    r = run([CXX, '-o', exe] + [j[2] for j in jobs] + (SAN if san else []))
    if r.returncode: raise HarnessError('the compiler does not link\n' + r.stderr.decode()[:3000])
    return exe
def build_compiler(work, san=True, opt='-O1'):
    jobs = compiler_jobs(work, san, opt)
    return link_compiler(work, jobs, parallel(jobs), san)

ASAN_ENV = {'ASAN_OPTIONS': 'detect_leaks=0:exitcode=77:max_allocation_size_mb=2048', 'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1'}

def descriptors(protos, inc, work, name='all'):
    """protoc descriptor set (binary file, text)"""
    desc = os.path.join(work, name + '.desc')
    r = run(['protoc'] + sum([['-I', i] for i in inc], []) + ['-I', os.path.join(VERIF, 'proto/inc'), '--include_imports', '--experimental_allow_proto3_optional',
             '--descriptor_set_out=' + desc] + protos)
    if r.returncode: raise HarnessError('protoc refuses the harness schema: ' + r.stderr.decode())
    r = run(['protoc', '-I', os.path.join(VERIF, 'proto/inc'), '--decode=google.protobuf.FileDescriptorSet', 'google/protobuf/descriptor.proto', 'spb.proto'], inp=open(desc, 'rb').read())
    if r.returncode: raise HarnessError('protoc --decode: ' + r.stderr.decode())
    return desc, r.stdout.decode()

RT_COMMON = ['pbt.cpp', 'tree.cpp', 'gen.cpp', 'common.cpp', 'wire.cpp', 'goog.cpp', 'jsonm.cpp']

def build_fuzz(work, protos, props, common=RT_COMMON):
    """the same harness with clang and libFuzzer; build_runtime has generated the code in work before"""
    cpp = os.path.join(VERIF, 'cpp'); gen = os.path.join(work, 'gen')
    odir = os.path.join(work, 'of'); os.makedirs(odir, exist_ok=True)
    san = ['-fsanitize=address,undefined', '-fno-sanitize=vptr,function', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS']
    flags = ['-O1', '-g1', '-w', '-DPBT_FUZZ', '-I', cpp, '-I', os.path.join(REPO, 'include'), '-I', gen, '-I', os.path.join(VERIF, 'cpp/inc')] + san
    jobs = []
    for f in list(props) + list(common): jobs.append((compile_one, os.path.join(cpp, f), os.path.join(odir, f + '.o'), flags, None, 800, 'clang++'))
    for p in protos:
        for a, b in (('.pb.cc', '.pb.o'), ('.bridge.cc', '.br.o')):
            jobs.append((compile_one, os.path.join(gen, p + a), os.path.join(odir, p + b), flags + ['-fsanitize=fuzzer-no-link'], None, 800, 'clang++'))
    for r in parallel(jobs):
        if r[1]: raise HarnessError('fuzz harness does not compile: ' + r[0] + '\n' + r[2][:4000])
    rd = run(['clang++', '-print-resource-dir']).stdout.decode().strip()
    lib = os.path.join(rd, 'lib/linux/libclang_rt.fuzzer_no_main-x86_64.a')
    exe = os.path.join(work, 'rtfuzz')
    r = run(['clang++', '-o', exe] + [j[2] for j in jobs] + san + [lib, '-lprotobuf', '-lpthread'])
    if r.returncode: raise HarnessError('fuzz harness does not link\n' + r.stderr.decode()[:4000])
    return exe

def build_runtime(work, protos, props, common=RT_COMMON, opt='-O1', gopt=None, san=SAN):
    """protos: names in VERIF/proto (without .proto); props: C++ files with the properties"""
    cj = compiler_jobs(work, san=False, opt='-O0')
    inc = [os.path.join(VERIF, 'proto')]
    cpp = os.path.join(VERIF, 'cpp')
    gen = os.path.join(work, 'gen'); os.makedirs(gen, exist_ok=True)
    flags = [opt, '-g1', '-I', cpp, '-I', os.path.join(REPO, 'include'), '-I', gen, '-I', os.path.join(VERIF, 'cpp/inc')] + san
    odir = os.path.join(work, 'o'); os.makedirs(odir, exist_ok=True)
    gflags = ['-O0' if f == opt else f for f in flags] if gopt is None else [gopt if f == opt else f for f in flags]
    # with another sanitizer only the code which runs the library is instrumented
    cflags = flags if san is SAN else [f for f in flags if f not in san]
    own = [(compile_one, os.path.join(cpp, f), os.path.join(odir, f + '.o'), flags) for f in list(props)]
    own += [(compile_one, os.path.join(cpp, f), os.path.join(odir, f + '.o'), cflags) for f in list(common)]
    with cf.ThreadPoolExecutor(JOBS) as ex:
        ccf = [ex.submit(j[0], *j[1:]) for j in cj]
        ownf = [ex.submit(j[0], *j[1:]) for j in own]
        exe = link_compiler(work, cj, [f.result() for f in ccf], san=False)
        r = run([exe, '--cpp_out', gen, '-I', inc[0], '-I', os.path.join(REPO, 'include/spb/proto')] + [os.path.join(inc[0], p + '.proto') for p in protos], timeout=60)
        if r.returncode: raise RepoBroken('spb-protoc refuses the valid harness schemas: exit %d\n%s%s' % (r.returncode, r.stdout.decode('utf-8', 'replace'), r.stderr.decode('utf-8', 'replace')))
        desc, txt = descriptors([p + '.proto' for p in protos], inc, work)
        bridge_gen.run(txt, gen, [p + '.proto' for p in protos])
        gj = []
        for p in protos:
            gj.append((compile_one, os.path.join(gen, p + '.pb.cc'), os.path.join(odir, p + '.pb.o'), gflags))
            gj.append((compile_one, os.path.join(gen, p + '.bridge.cc'), os.path.join(odir, p + '.br.o'), gflags))
        gf = [ex.submit(j[0], *j[1:]) for j in gj]
        ores = [f.result() for f in ownf]
        gres = [f.result() for f in gf]
    for r in ores:
        if r[1]:
            # the harness only includes spb/io/io.hpp of the code under test
            raise HarnessError('harness does not compile: ' + r[0] + '\n' + r[2][:4000])
    for r in gres:
        if r[1]: raise RepoBroken('generated code of a valid schema does not compile: ' + os.path.basename(r[0]) + '\n' + r[2][:4000])
    rt = os.path.join(work, 'rt')
    r = run([CXX, '-o', rt] + [j[2] for j in (own + gj if san is SAN else gj + own)] + san + ['-lprotobuf', '-lpthread'])
    if r.returncode: raise RepoBroken('harness does not link\n' + r.stderr.decode()[:4000])
    return rt, desc
