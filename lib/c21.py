"""C21: builds of the library for several platforms, in one program."""
from engine import *

STD = ['algorithm', 'array', 'atomic', 'cassert', 'cctype', 'cerrno', 'cfenv', 'cfloat', 'charconv', 'cinttypes', 'climits', 'clocale', 'cmath', 'cstddef', 'cstdint', 'cstdio', 'cstdlib', 'cstring',
       'exception', 'functional', 'initializer_list', 'ios', 'iterator', 'limits', 'locale', 'memory', 'mutex', 'new', 'numeric', 'sstream', 'stdexcept', 'string', 'tuple', 'type_traits', 'utility', 'vector']

GNU = ['__GNUC__', '__GNUC_MINOR__', '__GNUC_PATCHLEVEL__', '__GNUG__', '__clang__']
X64 = ['__x86_64__', '__x86_64', '__amd64__', '__amd64', '__SIZEOF_INT128__']
LP64 = ['__LP64__', '_LP64']

# name: (compiler, flags, macros taken away, macros defined, long has 32 bits)
BUILDS = {
    'gcc_O2': ('g++', '-O2', [], {}, 0),
    'gcc_O0': ('g++', '-O0', [], {}, 0),
    'gcc_O3': ('g++', '-O3 -funroll-loops', [], {}, 0),
    'clang_O2': ('clang++', '-O2', [], {}, 0),
    'clang_pattern': ('clang++', '-O0 -ftrivial-auto-var-init=pattern', [], {}, 0),
    'clang_zero': ('clang++', '-O3 -ftrivial-auto-var-init=zero', [], {}, 0),
    'release': ('g++', '-O3 -DNDEBUG -std=c++20', [], {}, 0),
    'small': ('clang++', '-Oz -DNDEBUG -std=c++17', [], {}, 0),
    'wrapv': ('g++', '-Os -std=gnu++20 -fno-strict-aliasing -fwrapv', [], {}, 0),
    'uchar': ('g++', '-O2 -funsigned-char', [], {}, 0),
    'arm64': ('g++', '-O2 -funsigned-char', X64, {'__aarch64__': '1'}, 0),
    'ppc64': ('clang++', '-O2', X64, {'__powerpc64__': '1', '__ppc64__': '1'}, 0),
    'riscv64': ('g++', '-O2 -funsigned-char', X64, {'__riscv': '1', '__riscv_xlen': '64'}, 0),
    'x32': ('g++', '-O2', LP64, {'__ILP32__': '1', '_ILP32': '1'}, 1),
    'mingw64': ('g++', '-O2', LP64, {'_WIN32': '1', '_WIN64': '1', '__MINGW32__': '1', '__MINGW64__': '1'}, 1),
    'mingw32': ('g++', '-O1', X64 + LP64, {'_WIN32': '1', '__MINGW32__': '1', '__i386__': '1'}, 1),
    'gnu32': ('g++', '-O2', X64 + LP64, {'__i386__': '1'}, 1),
    'other': ('g++', '-O2', GNU + X64 + LP64, {}, 1),
    'other_clang': ('clang++', '-O1', GNU + X64 + LP64, {}, 1),
    'msvc64': ('g++', '-O2', GNU + X64 + LP64, {'_MSC_VER': '1910', '_M_AMD64': '100', '_M_X64': '100', '_WIN32': '1', '_WIN64': '1'}, 1),
    'msvc64_clang': ('clang++', '-O1', GNU + X64 + LP64, {'_MSC_VER': '1910', '_M_AMD64': '100', '_M_X64': '100', '_WIN32': '1', '_WIN64': '1'}, 1),
    'clang_cl': ('clang++', '-O2', [g for g in GNU if g != '__clang__'] + X64 + LP64, {'_MSC_VER': '1910', '_M_AMD64': '100', '_M_X64': '100', '_WIN32': '1', '_WIN64': '1'}, 1),
    'msvc32': ('g++', '-O2', GNU + X64 + LP64, {'_MSC_VER': '1910', '_M_IX86': '600', '_WIN32': '1'}, 1),
}


def prelude(ctx, name, wide):
    cxx, flags, gone, defs, long32 = BUILDS[name]
    p = os.path.join(ctx.work, 'prelude-%s%s.h' % (name, '-wide' if wide else ''))
    with open(p, 'w') as f:
        f.write('#pragma once\n')
        for h in STD:
            f.write('#if __has_include(<%s>)\n#include <%s>\n#endif\n' % (h, h))
        if wide:
            f.write('#include <bits/stdc++.h>\n')
        f.write('#include "c21api.hpp"\n')
        # <cmath> leaves this behind, and a source file has a constant of this name
        f.write('#undef INFINITY\n')
        if '_MSC_VER' in defs:
            f.write('#include <intrin.h>\n')
        for g in gone:
            f.write('#undef %s\n' % g)
        for k, v in defs.items():
            f.write('#undef %s\n#define %s %s\n' % (k, k, v))
    return p


def build(ctx):
    jobs, objs = [], {n: [] for n in BUILDS}
    for name, (cxx, flags, gone, defs, long32) in BUILDS.items():
        d = os.path.join(ctx.work, 'b-' + name)
        os.makedirs(d, exist_ok=True)
        pres = [prelude(ctx, name, w) for w in (False, True)] if gone or defs else [None]
        rename = '-Dlexi=lexi_' + name
        for i, s in enumerate(ctx.sources() + [os.path.join(HARNESS, 'c21v.cpp')]):
            o = os.path.join(d, '%d.o' % i)
            objs[name].append(o)
            alts = []
            for p in pres:
                cmd = [cxx, '-std=c++14', '-fPIC', '-w', '-include', 'cstdint', rename] + flags.split()
                if p:
                    cmd += ['-include', p]
                if s.endswith('c21v.cpp'):
                    cmd += ['-DBUILD=' + name, '-DBUILD_NAME="%s"' % name, '-DLONG32=%d' % long32]
                cmd += ['-I' + REPO + '/include', '-I' + HARNESS] + (['-I' + HARNESS + '/msvc'] if '_MSC_VER' in defs else []) + ['-c', s, '-o', o]
                alts.append(cmd)
            jobs.append((alts, s, name))
    def one(j):
        for cmd in j[0]:
            rc, out = run(cmd, timeout=600)
            if rc == 0:
                return None
        return j, out
    t = time.time()
    usable = dict(BUILDS)
    with ThreadPoolExecutor(JOBS) as ex:
        for r in ex.map(one, jobs):
            if r:
                name, what = r[0][2], 'cannot compile %s for %s:\n%s' % (r[0][1], r[0][2], r[1][-3000:])
                if not (BUILDS[name][2] or BUILDS[name][3]):
                    raise Broken(what)
                # a platform imitated with macros only: what is missing may be its compiler
                if usable.pop(name, None):
                    ctx.notes.append(what)
                    log('left out: ' + what)
    if not any(v[2] or v[3] for v in usable.values()):
        raise Broken('no imitated platform can be compiled')
    lst = os.path.join(ctx.work, 'builds.inc')
    with open(lst, 'w') as f:
        f.write(''.join('BUILD(%s)\n' % n for n in usable))
    ho = os.path.join(ctx.work, 'c21.o')
    base = [(['g++', '-std=c++17', '-O2', '-w', '-include', 'cstdint', '-DBUILDS_FILE="%s"' % lst, '-I' + REPO + '/include', '-I' + HARNESS, '-c',
              os.path.join(HARNESS, 'c21.cpp'), '-o', ho], 'c21.cpp')]
    b = os.path.join(ctx.work, 'c21')
    # calls.hpp, for the generators of texts, mentions the library under its own name
    for i, s in enumerate(ctx.sources()):
        o = os.path.join(ctx.work, 'plain-%d.o' % i)
        base.append(((['g++', '-std=c++14', '-O1', '-w', '-include', 'cstdint', '-I' + REPO + '/include', '-c', s, '-o', o]), s))
    ctx.compile_all(base)
    ctx.compile_all([(['g++'] + [o for n in usable for o in objs[n]] + [c[-1] for c, _ in base] + ['-o', b, '-pthread'], 'link')])
    log('built %d variants of the library in %.1f s' % (len(usable), time.time() - t))
    return b, usable


def go(ctx):
    b, usable = build(ctx)
    st = ctx.pbt(b, 'fast')
    st['builds'] = {n: '%s %s%s%s' % (v[0], v[1], ', without ' + ' '.join(v[2]) if v[2] else '', ', with ' + ' '.join(v[3]) if v[3] else '') for n, v in usable.items()}


def replay(ctx, path, meta):
    rc, out = run([build(ctx)[0], 'replay', '--file', path, '--errdir', ctx.work], timeout=900)
    log(out.strip())
    if rc == 1:
        log('VIOLATION property=%s replay=%s' % (ctx.pid, path))
    return rc


go.replay = replay
