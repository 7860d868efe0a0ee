"""C23: generated programs that include the headers in any order and number."""
import os, random
from concurrent.futures import ThreadPoolExecutor
from engine import *

STDS = ['c++14', 'c++17', 'c++20']
CXX = ['g++', 'clang++']
STANDARD = ['algorithm', 'array', 'atomic', 'bitset', 'cctype', 'cerrno', 'cfenv', 'cfloat', 'chrono', 'cinttypes', 'climits', 'clocale', 'cmath', 'complex', 'cstddef', 'cstdint',
            'cstdio', 'cstdlib', 'cstring', 'ctime', 'deque', 'exception', 'fstream', 'functional', 'initializer_list', 'iomanip', 'ios', 'iosfwd', 'iostream', 'iterator',
            'limits', 'list', 'locale', 'map', 'memory', 'mutex', 'numeric', 'random', 'ratio', 'set', 'sstream', 'stdexcept', 'string', 'thread', 'tuple', 'type_traits',
            'typeinfo', 'unordered_map', 'utility', 'valarray', 'vector', 'assert.h', 'ctype.h', 'errno.h', 'float.h', 'limits.h', 'math.h', 'stddef.h', 'stdint.h', 'stdio.h',
            'stdlib.h', 'string.h', 'time.h', 'unistd.h', 'sys/types.h', 'wchar.h']

VIEWS = ['%s x(%s); ok(x.size() == %d);', '%s x(%s); ok(x.length() == %d);', '%s x(%s); ok(x.data()[%d] == 0);', '%s x(%s); ok(x.c_str()[%d] == 0);']


def views(cls, arg, text):
    n = len(text)
    o = ['lexi::%s x(%s); ok(%s);' % (cls, arg, c) for c in (
        'x.size() == %d' % n, 'x.length() == %d' % n, 'x.data()[%d] == 0' % n, 'x.c_str()[%d] == 0' % n, 'x.string() == "%s"' % text,
        'std::string(x) == "%s"' % text, 'x.escape().size() >= %d' % n, 'x.jsonify().size() >= %d' % n)]
    o.append('lexi::%s a(%s); lexi::%s b(a); b = a; ok(b.string() == "%s");' % (cls, arg, cls, text))
    o.append('ok(lexi::%s(%s).string() == "%s");' % (cls, arg, text))
    return o


INT_TYPES = ['signed char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned int', 'long', 'unsigned long', 'long long', 'unsigned long long']
USES = {
    'lexi/bool.hpp': views('FormatBool', 'true', 'true') + ['ok(bool(lexi::ExtractBool("true")));', 'ok(!bool(lexi::ExtractBool(std::string("false"))));',
                                                            'try { lexi::ExtractBool x("no"); ok(false); } catch (...) {}'],
    'lexi/char.hpp': views('FormatChar', "'x'", 'x') + ['ok(char(lexi::ExtractChar("xyz")) == \'x\');'],
    'lexi/null.hpp': views('FormatNull', 'nullptr', 'null') + ['lexi::FormatNull x; ok(x.string() == "null");', 'ok(lexi::ExtractNull("null").null() == nullptr);',
                                                               'std::nullptr_t p = static_cast<std::nullptr_t>(lexi::ExtractNull("null")); ok(p == nullptr);'],
    'lexi/int.hpp': views('FormatInt', '42', '42') + ['%s v = 7; ok(lexi::FormatInt(v).string() == "7");' % t for t in INT_TYPES] +
    ['ok(static_cast<%s>(lexi::ExtractInt("99")) == 99);' % t for t in INT_TYPES],
    'lexi/float.hpp': views('FormatFloat', '1.5', '1.5') + ['ok(lexi::FormatFloat(2.5%s).string() == "2.5");' % s for s in ('f', '', 'L')] +
    ['ok(static_cast<%s>(lexi::ExtractFloat("2.5")) == 2.5);' % t for t in ('float', 'double', 'long double')],
    'lexi/enum.hpp': ['enum class E : unsigned char { a = 65 }; ok(lexi::FormatEnum(E::a).string() == "65");', 'enum F { b = 3 }; ok(lexi::FormatEnum(b).string() == "3");',
                      'enum class E : long { a = -9 }; ok(E(lexi::ExtractEnum("-9")) == E::a);', 'enum class E { a = 12 }; lexi::FormatEnum x(E::a); ok(std::string(x) == "12" && x.size() == 2);'],
    'lexi/lexi.hpp': ['ok(lexi::lexi(5) == "5");', 'ok(lexi::lexi("a") == "a");', 'ok(lexi::string(1.5) == "1.5");', 'ok(lexi::escape("a b") == "a\\\\ b");', 'ok(lexi::jsonify("x") == "\\"x\\"");',
                      'ok(lexi::lexi<int>("5") == 5);', 'ok(lexi::lexi<double>(std::string("5.5")) == 5.5);', 'ok(lexi::lexi<bool>("true"));', 'ok(lexi::lexi(nullptr) == "null");',
                      'ok(lexi::Format()(true).string() == "true");', 'ok(lexi::Extract<long>()("-3") == -3);', 'enum class E { a = 3 }; ok(lexi::lexi(E::a) == "3" && lexi::lexi<E>("3") == E::a);',
                      "ok(lexi::lexi('c') == \"c\" && lexi::lexi<char>(\"c\") == 'c');", 'ok(lexi::lexi(2.5f) == "2.5" && lexi::lexi(2.5L) == "2.5");', 'ok(lexi::lexi<std::nullptr_t>("null") == nullptr);'],
    'lexi/detail/bigint.hpp': ['lexi::detail::BigInteger x(5), y(x); ok(x == y && x == 5 && x.compare(y) == 0);', 'lexi::detail::BigInteger x("123", 3); ok(x.digit(0) == 123 && x.count() == 1 && !x.isZero());',
                               'lexi::detail::BigInteger x(3), y(1), z(0); x += 4; x *= uint64_t(2); x *= uint32_t(2); x <<= 1; x.mulPow5(2); x.difference(y, &z); ok(z == 1399); z = y; z = 9; ok(z == 9);'],
    'lexi/detail/diyfp.hpp': ['lexi::detail::DiyFp x(1.0), y(x.f, x.e), z; z = x - y; ok(z.f == 0); z = x * y; ok(x.normalize().f == x.normalizeBoundary().f); x.normalizedBoundaries(&y, &z); ok(y.e == z.e);'],
    'lexi/detail/dtoa.hpp': ['char b[64]; char *e = lexi::detail::dtoa(1.5, b); ok(e - b == 3 && b[0] == \'1\' && b[2] == \'5\');'],
    'lexi/detail/itoa.hpp': ['char b[64]; char *e = lexi::detail::%s(12, b); ok(e - b == 2 && b[0] == \'1\' && b[1] == \'2\');' % f for f in ('u32toa', 'i32toa', 'u64toa', 'i64toa')],
    'lexi/detail/ieee754.hpp': ['ok(!lexi::detail::%s(0.0));' % f for f in ('isNan', 'isInf', 'isInfinity', 'isNegativeInfinity')] + ['ok(lexi::detail::%s(0.0));' % f for f in ('isFinite', 'isZero', 'isPositive')],
    'lexi/detail/pow.hpp': ['ok(lexi::detail::pow10(2) == 100);'],
    'lexi/detail/string.hpp': ['ok(lexi::detail::escape("a.") == "a\\\\.");', 'ok(lexi::detail::jsonify("\\n") == "\\\\n");'],
    'lexi/detail/type.hpp': ['ok(lexi::is_integer_v<int> && lexi::is_float_v<double> && lexi::is_bool_v<bool> && lexi::is_char_v<char> && !lexi::is_string_v<int>);'],
    'lexi/detail/fmt.hpp': ['ok(lexi::detail::FLOAT_SIZE > 25 && lexi::detail::INTEGER_SIZE > 20);'],
}


def headers():
    out = []
    for p in sorted(glob.glob(REPO + '/include/lexi/**/*.hpp', recursive=True)):
        out.append(os.path.relpath(p, REPO + '/include'))
    return out


def unit(r, hs, n):
    """One translation unit: (text, number of uses)."""
    k = r.choice([1, 1, 2, 2, 3, 4, 6, len(hs), 2 * len(hs)])
    inc = [r.choice(hs) if r.random() < .6 else r.choice([h for h in hs if 'detail' not in h] or hs) for _ in range(k)]
    lines = []
    for h in inc:
        for _ in range(r.choice([0, 0, 0, 1, 2, 5]) if k < 10 else r.choice([0, 0, 1])):
            lines.append('#include <%s>' % r.choice(STANDARD))
        lines.append('#include "%s"' % h if r.random() < .5 else '#include <%s>' % h)
    for _ in range(r.choice([0, 0, 1, 3])):
        lines.append('#include <%s>' % r.choice(STANDARD))
    lines.append('static int bad_%d = 0;\nstatic void ok(bool b) { if (!b) bad_%d++; }' % (n, n))
    pool = [u for h in set(inc) for u in USES.get(h, [])]
    pool.sort()
    uses = [r.choice(pool) for _ in range(min(12, len(pool)))] if pool else []
    for i, u in enumerate(uses):
        lines.append('static void use%d() { %s }' % (i, u))
    lines.append('int unit%d() { %s return bad_%d; }' % (n, ' '.join('use%d();' % i for i in range(len(uses))), n))
    return '\n'.join(lines) + '\n', inc, uses


def program(seed, hs):
    r = random.Random('c23/%d' % seed)
    n = r.choice([1, 2, 2, 3, 4])
    return [(unit(r, hs, i), r.choice(CXX), r.choice(STDS), r.choice(['-O0', '-O0', '-O1'])) for i in range(n)], r.choice(CXX), r.choice(STDS)


def libraries(ctx):
    """The library itself: both compilers and all standards, nothing forced in."""
    jobs, ars, libs = [], [], {}
    for c in CXX:
        for s in STDS:
            d = os.path.join(ctx.work, 'lib-%s-%s' % (c, s))
            os.makedirs(d)
            objs = []
            for i, src in enumerate(ctx.sources()):
                o = os.path.join(d, '%d.o' % i)
                objs.append(o)
                jobs.append(([c, '-std=' + s, '-O0', '-fPIC', '-w', '-I' + REPO + '/include', '-c', src, '-o', o], src))
            libs[c, s] = os.path.join(d, 'liblexi.a')
            ars.append(['ar', 'rcs', libs[c, s]] + objs)
    with ThreadPoolExecutor(JOBS) as ex:
        for j, (rc, out) in zip(jobs, ex.map(lambda j: run(j[0], timeout=600), jobs)):
            if rc is None or 'internal compiler error' in (out or ''):
                raise Broken('the compiler failed on ' + j[1])
            if rc != 0:
                rep = os.path.join(ctx.replays, ctx.pid + '-library.txt')
                with open(rep, 'w') as f:
                    f.write('command ' + ' '.join(j[0][:-2]) + ' -fsyntax-only\nwhat\n' + out)
                log('%s does not compile (%s %s): %s' % (j[1], j[0][0], j[0][1], out[:1500]))
                raise Violation('library', rep)
    for a in ars:
        if run(a)[0] != 0:
            raise Broken('ar failed')
    return libs


def try_units(ctx, libs, units, link, name):
    """None if the program builds and its uses hold, otherwise what is wrong."""
    d = os.path.join(ctx.work, name)
    os.makedirs(d, exist_ok=True)
    objs = []
    for i, (text, cxx, std, opt) in enumerate(units):
        f = os.path.join(d, 'unit%d.cpp' % i)
        with open(f, 'w') as h:
            h.write(text)
        o = f[:-4] + '.o'
        rc, out = run([cxx, '-std=' + std, opt, '-w', '-I' + REPO + '/include', '-c', f, '-o', o], timeout=300)
        if rc is None or 'internal compiler error' in out:
            return None
        if rc != 0:
            return 'does not compile with %s -std=%s' % (cxx, std), out
        objs.append(o)
    m = os.path.join(d, 'main.cpp')
    with open(m, 'w') as h:
        h.write(''.join('int unit%d(); ' % i for i in range(len(units))) + '\nint main() { return %s ? 42 : 0; }\n' % ' + '.join('unit%d()' % i for i in range(len(units))))
    x = os.path.join(d, 'program')
    rc, out = run([link[0], '-std=' + link[1], m] + objs + [libs[link], '-o', x, '-pthread'], timeout=300)
    if rc is None:
        return None
    if rc != 0:
        return 'does not link', out
    rc, out = run([x], timeout=60)
    shutil.rmtree(d, ignore_errors=True)
    if rc != 0:
        return 'gives wrong results or crashes (status %s)' % rc, out
    return None


def renumber(text, old, new):
    return text.replace('int unit%d()' % old, 'int unit%d()' % new)


def violation(ctx, libs, units, link, bad):
    # shrink: fewer units, then fewer lines
    t0 = time.time()

    def fails(us):
        us = [(re.sub(r'int unit\d+\(\)', 'int unit%d()' % i, t), c, s, o) for i, (t, c, s, o) in enumerate(us)]
        return try_units(ctx, libs, us, link, 'shrink'), us
    b, us = fails(units)
    if not b:
        ctx.notes.append('a program failed once and not again: %s' % (bad[1][-300:],))
        log(ctx.notes[-1])
        return
    kind = bad[0].split(' ')[:3]
    changed = True
    while changed and time.time() - t0 < 60:
        changed = False
        for i in range(len(us)):
            if len(us) > 1:
                b, u2 = fails(us[:i] + us[i + 1:])
                if b and b[0].split(' ')[:3] == kind:
                    us, bad, changed = u2, b, True
                    break
        else:
            for i in range(len(us)):
                lines = us[i][0].split('\n')
                for j in range(len(lines)):
                    l = lines[j]
                    cut = lines[:j] + lines[j + 1:]
                    m = re.match(r'static void (use\d+)\(\)', l)
                    if m:
                        cut = [c.replace(m.group(1) + '();', '') for c in cut]
                    elif not l.startswith('#include <') or 'lexi/' in l and bad[0].startswith('gives'):
                        continue
                    elif 'lexi/' in l and any('lexi::' in c for c in cut):
                        continue
                    b, u2 = fails(us[:i] + [('\n'.join(cut),) + us[i][1:]] + us[i + 1:])
                    if b and b[0].split(' ')[:3] == kind:
                        us, bad, changed = u2, b, True
                        break
                if changed:
                    break
    rep = os.path.join(ctx.replays, ctx.pid + '-program.txt')
    with open(rep, 'w') as f:
        f.write('link %s %s\n' % link)
        for t, c, s, o in us:
            f.write('=== %s %s %s\n%s' % (c, s, o, t if t.endswith('\n') else t + '\n'))
        f.write('=== what\n%s\n%s\n' % bad)
    log('a generated program %s:\n%s' % (bad[0], bad[1][:1500]))
    raise Violation(bad[0], rep)


def go(ctx):
    hs = headers()
    if not hs:
        raise Broken('no headers')
    libs = libraries(ctx)
    t0, limit = time.time(), (3000 if ctx.thorough else 150)
    units_done = progs = 0
    samples = []
    jobs = []
    # every header alone, with its uses, in every configuration; every ordered pair (sampled in the quick tier)
    r = random.Random('c23/%d' % ctx.seed)
    for h in hs:
        for c in CXX:
            for s in STDS:
                for std in (None, r.choice(STANDARD)):
                    t = ('#include <%s>\n' % std if std else '') + '#include <%s>\nstatic int bad = 0;\nstatic void ok(bool b) { if (!b) bad++; }\n' % h
                    us = USES.get(h, [])
                    t += ''.join('static void use%d() { %s }\n' % (i, u) for i, u in enumerate(us))
                    t += 'int unit0() { %s return bad; }\n' % ' '.join('use%d();' % i for i in range(len(us)))
                    jobs.append(([(t, c, s, '-O0')], (c, s), 'alone'))
    pairs = [(a, b) for a in hs for b in hs]
    if not ctx.thorough:
        pairs = r.sample(pairs, min(60, len(pairs)))
    for a, b in pairs:
        c, s = r.choice(CXX), r.choice(STDS)
        jobs.append(([('#include <%s>\n#include <%s>\n#include <%s>\nint unit0() { return 0; }\n' % (a, b, a), c, s, '-O0')], (c, s), 'pair'))
    for p in range(3000 if ctx.thorough else 150):
        us, c, s = program(ctx.seed * 1000003 + p, hs)
        jobs.append(([(u[0], cx, st, op) for u, cx, st, op in us], (c, s), 'program'))
        if len(samples) < 10:
            samples.append('; '.join('%s -std=%s: %s' % (cx, st, ' '.join(u[1])) for u, cx, st, op in us)[:400])

    def one(ij):
        i, (us, link, kind) = ij
        if time.time() - t0 > limit:
            return None
        return us, link, kind, try_units(ctx, libs, us, link, 'p%d' % i)
    kinds = {}
    bad = None
    with ThreadPoolExecutor(JOBS) as ex:
        for res in ex.map(one, enumerate(jobs)):
            if res is None:
                continue
            us, link, kind, b = res
            progs += 1
            units_done += len(us)
            kinds[kind] = kinds.get(kind, 0) + 1
            if b and (bad is None or len(us) < len(bad[0])):
                bad = (us, link, b)
                limit = 0
    ctx.phases.append({'phase': 'generated programs', 'programs': progs, 'by_kind': kinds, 'evaluations': units_done, 'distinct_hashed': units_done, 'headers': hs,
                       'samples': samples, 'wall_s': round(time.time() - t0, 1)})
    log('%d programs, %d translation units, %d headers' % (progs, units_done, len(hs)))
    if bad:
        violation(ctx, libs, bad[0], bad[1], bad[2])


def replay(ctx, path, meta):
    with open(path) as f:
        text = f.read()
    if text.startswith('command '):
        rc, out = run(text.split('\n')[0].split(' ')[1:], timeout=300)
        log(out)
        if rc != 0:
            log('VIOLATION property=%s replay=%s' % (ctx.pid, path))
        return 1 if rc else 0
    libs = libraries(ctx)
    link = tuple(text.split('\n')[0].split(' ')[1:3])
    us = []
    for part in text.split('\n=== ')[1:]:
        head, _, body = part.partition('\n')
        if head == 'what':
            continue
        c, s, o = head.split(' ')
        us.append((body + '\n', c, s, o))
    bad = try_units(ctx, libs, us, link, 'replay')
    if bad:
        log('the program %s:\n%s' % (bad[0], bad[1][:3000]))
        log('VIOLATION property=%s replay=%s' % (ctx.pid, path))
        return 1
    log('the program builds and holds')
    return 0


go.replay = replay
