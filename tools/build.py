#!/usr/bin/env python3
"""Builds harness executables from /repo's current working tree.

usage: build.py TARGET...      (TARGET = name of an entry of TARGETS below)

Nothing is written outside /verif/build. Every cppcore source file under /repo/cppcore/src is taken
(also new ones), compiled in the flavor which the harness asks for, and linked with the harness.
"""
import glob, os, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PBV_REPO', '/repo')
BUILD = os.environ.get('PBV_BUILD', os.path.join(VERIF, 'build'))
CORE = REPO + '/cppcore'

COMPAT = '/opt/vp/cmake/compat'
if not os.path.isdir(COMPAT):
    COMPAT = VERIF + '/harness/compat'

COMMON = (f'-std=c++14 -w -I{COMPAT} -I{VERIF}/harness/shim -I{CORE}/include '
          f'-isystem /usr/include/eigen3 -pthread')

FLAVORS = {
    # asserts on, address sanitizer, SSE2-like SIMD code paths
    'asan': '-O1 -g1 -fsanitize=address -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS -DEIGEN_INITIALIZE_MATRICES_BY_NAN',
    # the same, generic (no SIMD) code paths
    'asan_null': '-O1 -g1 -fsanitize=address -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS -DEIGEN_INITIALIZE_MATRICES_BY_NAN -DPBV_SIMD_NULL=1',
    # asserts on, optimized: for big enumerations
    'fast': '-O2 -g0 -D_GLIBCXX_ASSERTIONS -DEIGEN_INITIALIZE_MATRICES_BY_NAN',
    # memory accesses instrumented, callbacks are in harness/sched
    'sched': '-O1 -g1 -fsanitize=thread -D_GLIBCXX_ASSERTIONS',
    # real thread sanitizer, free-running
    'tsan': '-O1 -g1 -fsanitize=thread',
}
LINK = {'asan': '-fsanitize=address', 'asan_null': '-fsanitize=address', 'fast': '', 'sched': '', 'tsan': '-fsanitize=thread'}

# target: (flavor, harness sources, cppcore sources: 'all', or a list)
sys.path.insert(0, os.path.join(VERIF, 'tools'))
from targets import TARGETS


def sources(which):
    allsrc = sorted(glob.glob(CORE + '/src/**/*.cpp', recursive=True))
    if which == 'all':
        return allsrc
    return sorted({f for w in which for f in glob.glob(CORE + '/src/' + w, recursive=True)})


def main(names):
    os.makedirs(BUILD, exist_ok=True)
    out = ['ninja_required_version = 1.5', f'builddir = {BUILD}',
           'rule cxx', '  command = g++ $flags -MMD -MF $out.d -c $in -o $out', '  depfile = $out.d', '  deps = gcc',
           '  description = CXX $out',
           'rule pch', '  command = g++ $flags -x c++-header -MMD -MF $out.d -c $in -o $out', '  depfile = $out.d', '  deps = gcc',
           '  description = PCH $out',
           'rule link', '  command = g++ $in -o $out $ldflags -pthread', '  description = LINK $out',
           '']
    done = set()

    def pch(flavor, flags):
        gch = f'{BUILD}/{flavor}/pch/compat.hpp.gch'
        if gch not in done:
            done.add(gch)
            out.extend([f'build {gch}: pch {VERIF}/harness/pch.hpp', f'  flags = {flags}'])
        return gch

    def obj(flavor, src):
        rel = src.replace(CORE + '/src/', 'core/').replace(VERIF + '/harness/', 'h/')
        o = f'{BUILD}/{flavor}/{rel}.o'
        if o not in done:
            done.add(o)
            base = f'{COMMON} {FLAVORS[flavor]}'
            if '/sched/' in src:   # the scheduler itself must not be instrumented
                base = base.replace('-fsanitize=thread', '')
                out.extend([f'build {o}: cxx {src}', f'  flags = {base} -include compat.hpp'])
            else:
                g = pch(flavor, base)
                out.extend([f'build {o}: cxx {src} | {g}', f'  flags = {base} -include {g[:-4]}'])
        return o

    for n in names:
        flavor, hs, core = TARGETS[n]
        objs = [obj(flavor, f'{VERIF}/harness/{h}') for h in hs] + [obj(flavor, s) for s in sources(core)]
        out.extend([f'build {BUILD}/bin/{n}: link ' + ' '.join(objs), f'  ldflags = {LINK[flavor]} -lfmt -rdynamic'])
    nf = f'{BUILD}/build-{"-".join(names)}.ninja'
    with open(nf, 'w') as f:
        f.write('\n'.join(out) + '\n')
    env = dict(os.environ)
    for v in ('CXXFLAGS', 'CFLAGS', 'LDFLAGS', 'CPATH', 'CPLUS_INCLUDE_PATH'):
        env.pop(v, None)
    env['PATH'] = '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin'
    jobs = str(os.cpu_count() or 8)
    p = subprocess.run(['ninja', '-f', nf, '-j', jobs], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        sys.stdout.write(p.stdout[-6000:])
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
