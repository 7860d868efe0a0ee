"""C31: generated programs that use, for names of their own, names of every kind."""
import random, subprocess
from concurrent.futures import ThreadPoolExecutor
from engine import *
import c23

CXX = ['g++', 'clang++']
STDS = ['c++14', 'c++17', 'c++20']
KEYWORDS = set('''alignas alignof and and_eq asm auto bitand bitor bool break case catch char char8_t char16_t char32_t class compl concept const consteval constexpr constinit const_cast continue
co_await co_return co_yield decltype default delete do double dynamic_cast else enum explicit export extern false float for friend goto if inline int long mutable namespace new noexcept not not_eq
nullptr operator or or_eq private protected public register reinterpret_cast requires return short signed sizeof static static_assert static_cast struct switch template this thread_local throw true
try typedef typeid typename union unsigned using virtual void volatile wchar_t while xor xor_eq final override import module
main std lexi posix define undef include ifdef ifndef endif elif pragma error defined line once
ok bad unit0 x v T K SYSTEM_ARCHITECTURE'''.split())
# names programs use, among them those of the standard library, where a using-directive would bring them in
COMMON = '''string vector list map set array pair tuple function bind ref cref move swap copy find count sort min max clamp begin end size data empty next prev distance advance format byte any optional
variant hash less greater plus minus equal fill reverse rotate unique merge search accumulate gcd lcm midpoint lerp thread mutex future promise async atomic locale regex match ratio chrono complex
norm arg conj polar left right hex dec fixed scientific boolalpha endl ends ws flush cout cin cerr clog getline stoi stol stof stod to_string from_chars to_chars exception runtime_error logic_error
bad_alloc allocator deque queue stack bitset iterator stream buffer text token digit digits number value type name key node index_of first last length escape jsonify convert extract parse print
Format Extract FormatInt FormatFloat FormatBool FormatChar FormatNull FormatEnum ExtractInt ExtractFloat Big BigInteger DiyFp detail table power POWER10 POWER5 DIGITS HEX MASK SIZE BUFFER TRUE_STRING
isNan isInf isFinite isZero isPositive dtoa itoa u32toa u64toa pow10_ Error Result Status Type Value Int Float Bool Char Null String Enum Integer Number Buffer Text Json json util utils helper impl internal
is_same_v is_enum_v enable_if_t underlying_type_t remove_cv_t void_t conjunction negation identity span ranges views source_location strong_order is_eq numbers filesystem pmr'''.split()


def identifiers():
    """What the sources of the library are made of: names it might take."""
    out = {}
    for f in sorted(glob.glob(REPO + '/src/**/*.*pp', recursive=True) + glob.glob(REPO + '/include/**/*.*pp', recursive=True)):
        with open(f, errors='replace') as h:
            t = re.sub(r'//[^\n]*|/\*.*?\*/|"(?:[^"\\\n]|\\.)*"', ' ', h.read(), flags=re.S)
        for m in re.finditer(r'\b[A-Za-z][A-Za-z0-9_]*\b', t):
            out[m.group(0)] = 1
    return usable(out)


def usable(names):
    return sorted(n for n in set(names) if n not in KEYWORDS and not n.startswith('LEXI_') and '__' not in n and not re.match(r'_|is_.*_v$|u?int(8|16|32|64|ptr|max)?_?t$', n))


def reserved():
    """Symbols of the C and C++ libraries: no program may define them."""
    out = set()
    for name in ('libc.so.6', 'libm.so.6', 'libstdc++.so.6', 'libgcc_s.so.1', 'libc.a', 'libm.a', 'libgcc.a', 'libgcc_eh.a', 'crt1.o', 'crti.o', 'crtbegin.o'):
        rc, f = run(['g++', '-print-file-name=' + name], timeout=60)
        f = f.strip()
        if rc or not os.path.isabs(f):
            continue
        rc, text = run(['nm'] + (['-D'] if '.so' in name else []) + ['--defined-only', f], timeout=120)
        for l in text.split('\n'):
            p = l.split()
            if len(p) >= 3 and re.match(r'[A-Za-z]\w*(@|$)', p[2]):
                out.add(p[2].split('@')[0])
    return out


RESERVED = set()


def standard():
    """The standard headers that the library includes."""
    out = {}
    for f in sorted(glob.glob(REPO + '/include/lexi/**/*.hpp', recursive=True)):
        with open(f, errors='replace') as h:
            for m in re.finditer(r'^[ \t]*#[ \t]*include[ \t]*<([^>]+)>', h.read(), re.M):
                if not m.group(1).startswith('lexi') and 'intrin' not in m.group(1):
                    out[m.group(1)] = 1
    return sorted(out)


def declare(r, n):
    """(declaration, expression that has the value 1 if the name means what it was declared to mean)"""
    k = r.randrange(1, 90)
    if n in RESERVED:       # C keeps its external names for itself, whatever a program declares them to be
        return 'namespace mine { int %s(int x) { return x + %d; } }' % (n, k), 'mine::%s(1) == %d' % (n, 1 + k)
    return r.choice([
        ('int %s(int x) { return x * 3 + %d; }' % (n, k), '%s(2) == %d' % (n, 6 + k)),
        ('static int %s(int x) { return x * 3 + %d; }' % (n, k), '%s(2) == %d' % (n, 6 + k)),
        ('extern "C" int %s(int x) { return x * 3 + %d; }' % (n, k), '%s(2) == %d' % (n, 6 + k)),
        ('int %s = %d;' % (n, k), '%s == %d' % (n, k)),
        ('const char *%s = "a";' % n, "%s[0] == 'a'" % n),
        ('extern "C" { int %s = %d; }' % (n, k), '%s == %d' % (n, k)),
        ('struct %s { int v; %s(int x) : v(x + %d) {} };' % (n, n, k), '%s(1).v == %d' % (n, 1 + k)),
        ('class %s { public: static int f() { return %d; } };' % (n, k), '%s::f() == %d' % (n, k)),
        ('template <class T> int %s(T x) { return int(x) + %d; }' % (n, k), '%s(1) == %d && %s<int>(2) == %d' % (n, 1 + k, n, 2 + k)),
        ('template <class T> struct %s { static const int v = %d; };' % (n, k), '%s<int>::v == %d' % (n, k)),
        ('typedef int %s;' % n, '%s(%d) == %d' % (n, k, k)),
        ('template <class T> using %s = T *;' % n, 'sizeof(%s<char>) == sizeof(char *)' % n),
        ('enum %s { %s_a = %d };' % (n, n, k), '%s(%s_a) == %d' % (n, n, k)),
        ('enum { %s = %d };' % (n, k), '%s == %d' % (n, k)),
        ('namespace %s { int v = %d; }' % (n, k), '%s::v == %d' % (n, k)),
        ('template <class T> constexpr int %s = int(sizeof(T)) + %d;' % (n, k), '%s<char> == %d' % (n, 1 + k)),
        ('namespace mine { int %s(int x) { return x + %d; } }' % (n, k), 'mine::%s(1) == %d' % (n, 1 + k)),
        ('#ifdef %s\n#error a macro called %s\n#endif\n#define %s %d' % (n, n, n, k), '%s == %d' % (n, k)),
    ])


def program(seed, names, hs):
    """A list of parts: ('include', header), ('declare', text, use); macros come after the includes."""
    r = random.Random('c31/%d' % seed)
    inc = [r.choice(hs) for _ in range(r.choice([1, 1, 2, 3]))]
    own, common = names
    chosen = {}
    for _ in range(r.choice([10, 25, 40])):
        p = r.random()
        n = r.choice(own) if p < .6 else r.choice(common) if p < .95 else ''.join(r.choice('abcdefgh') for _ in range(r.randrange(2, 6)))
        if p < .3 and r.random() < .3:
            n = r.choice([n.upper(), n.lower(), n.capitalize()])
        if n in KEYWORDS or n in chosen or not usable([n]):
            continue
        chosen[n] = declare(r, n)
    before, after = [], []
    for n in chosen:
        d = ('declare',) + chosen[n]
        (before if r.random() < .35 and not d[1].startswith('#') else after).append(d)
    after.sort(key=lambda d: d[1].startswith('#'))          # macros last: they are words of the program from there on
    return before + [('include', h) for h in inc] + after, inc, r.choice(CXX), r.choice(STDS)


def text_of(parts, std, lexi, r):
    """Program text, and for each line the part it comes from."""
    lines, owner = [], []

    def put(t, i):
        for l in t.split('\n'):
            lines.append(l)
            owner.append(i)
    done = False
    checks = []
    inc = [p[1] for p in parts if p[0] == 'include']
    macros = []
    for i, p in enumerate(parts):
        if p[0] == 'include':
            if lexi:
                put('#include <%s>' % p[1], i)
            elif not done:
                for s in std:
                    put('#include <%s>' % s, -1)
                done = True
        elif p[1].startswith('#'):
            macros.append(i)
        else:
            put(p[1], i)
            checks.append((p[2], i))
    uses = []
    if lexi:
        pool = [u for h in sorted(set(inc)) for u in c23.USES.get(h, [])]
        uses = [r.choice(pool) for _ in range(min(6, len(pool)))]
    put('static int bad_count_ = 0;\nstatic void ok(bool b) { if (!b) bad_count_++; }', -1)
    for j, u in enumerate(uses):
        put('static void use_%d_() { %s }' % (j, u), -1)
    for c, i in checks:
        put('static void check_%d_() { if (!(%s)) bad_count_ += 1000; }' % (i, c), i)
    for i in macros:
        put(parts[i][1], i)
        put('static void check_%d_() { if (!(%s)) bad_count_ += 1000; }' % (i, parts[i][2]), i)
        checks.append((None, i))
    put('#undef ok', -1)
    put('int main() { %s %s return bad_count_ >= 1000 ? 43 : bad_count_ ? 42 : 0; }' % (' '.join('use_%d_();' % j for j in range(len(uses))), ' '.join('check_%d_();' % i for _, i in checks)), -1)
    return '\n'.join(lines) + '\n', owner


def library(ctx):
    libs, jobs, ars = {}, [], []
    for c, s in (('g++', 'c++14'), ('clang++', 'c++17')):
        d = os.path.join(ctx.work, 'lib-' + c)
        os.makedirs(d, exist_ok=True)
        objs = []
        for i, src in enumerate(ctx.sources()):
            o = os.path.join(d, '%d.o' % i)
            objs.append(o)
            jobs.append(([c, '-std=' + s, '-O0', '-fPIC', '-w', '-include', 'cstdint', '-I' + REPO + '/include', '-c', src, '-o', o], src))
        libs[c] = objs
    ctx.compile_all(jobs)
    return libs


def compiled(cxx, std, text, d, extra=()):
    f = os.path.join(d, 'p.cpp')
    with open(f, 'w') as h:
        h.write(text)
    return run([cxx, '-std=' + std, '-O0', '-w', '-fno-builtin', '-I' + REPO + '/include', '-ferror-limit=0' if cxx == 'clang++' else '-fmax-errors=0', f] + list(extra), timeout=300)


def filtered(cxx, std, parts, heads, d, r):
    """Without what a program cannot declare beside the standard headers alone."""
    for _ in range(12):
        text, owner = text_of(parts, heads, False, r)
        rc, out = compiled(cxx, std, text, d, ['-o', os.path.join(d, 'control')])
        if rc == 0:
            rc, _ = run([os.path.join(d, 'control')], timeout=60)
            return parts if rc == 0 else None
        drop = set()
        for m in re.finditer(r'p\.cpp:(\d+)', out):
            if owner[int(m.group(1)) - 1] >= 0:
                drop.add(owner[int(m.group(1)) - 1])
        for m in re.finditer(r'multiple definition of .(\w+)|duplicate symbol.*?(\w+)', out):
            n = m.group(1) or m.group(2)
            drop |= {i for i, p in enumerate(parts) if p[0] == 'declare' and re.search(r'\b%s\b' % n, p[1])}
        drop = {i for i in drop if parts[i][0] == 'declare'}
        if not drop:
            return None
        parts = [p for i, p in enumerate(parts) if i not in drop]
    return None


def holds(cxx, std, parts, heads, libs, d, seed):
    text, owner = text_of(parts, heads, True, random.Random('c31/uses/%d' % seed))
    x = os.path.join(d, 'program')
    rc, out = compiled(cxx, std, text, d, libs[cxx] + ['-o', x, '-pthread'])
    if rc is None or 'internal compiler error' in out:
        return None
    if rc != 0:
        return ('does not compile or link with the library (%s -std=%s), and does without it' % (cxx, std), out, text)
    rc, out = run([x], timeout=60)
    if rc in (42, 43) or rc is not None and rc < 0:
        return ('gives wrong results with the library (status %d)' % rc, out, text)
    return None


def symbols(objs):
    """Symbols of the library that a program could define as well."""
    out = {}
    for o in objs:
        rc, text = run(['nm', '--defined-only', '--extern-only', o], timeout=60)
        if rc:
            raise Broken('nm fails')
        for l in text.split('\n'):
            p = l.split()
            if len(p) == 3 and p[1] in 'TDBRSGC':
                out[p[2]] = p[1]
    return out


def go(ctx):
    hs = sorted(os.path.relpath(p, REPO + '/include') for p in glob.glob(REPO + '/include/lexi/*.hpp'))
    if not hs:
        raise Broken('no headers')
    libs = library(ctx)
    heads = standard()
    RESERVED.update(reserved())
    if 'memcpy' not in RESERVED:
        raise Broken('the symbols of the C library are not to be had')
    names = identifiers(), usable(COMMON)
    t0, limit = time.time(), (2400 if ctx.thorough else 150)
    n = 4000 if ctx.thorough else 160
    bad = None
    progs = decls = 0
    kinds, samples = {}, []

    def one(i):
        if time.time() - t0 > limit:
            return None
        seed = ctx.seed * 1000003 + i
        d = os.path.join(ctx.work, 'p%d' % i)
        os.makedirs(d)
        parts, inc, cxx, std = program(seed, names, hs)
        parts = filtered(cxx, std, parts, heads, d, random.Random(seed))
        b = holds(cxx, std, parts, heads, libs, d, seed) if parts else None
        shutil.rmtree(d, ignore_errors=True)
        return seed, parts, cxx, std, b
    left_out = 0
    with ThreadPoolExecutor(JOBS) as ex:
        for res in ex.map(one, range(n)):
            if res is None:
                continue
            seed, parts, cxx, std, b = res
            if parts is None:
                left_out += 1
                continue
            progs += 1
            decls += sum(p[0] == 'declare' for p in parts)
            if len(samples) < 12:
                samples.append('%s -std=%s: %s' % (cxx, std, ' '.join('<%s>' % p[1] if p[0] == 'include' else p[1].replace('\n', ' ') for p in parts))[:500])
            if b and (bad is None or len(parts) < len(bad[1])):
                bad = res
                limit = 0
    # every symbol that the library defines outside its namespace is one a program cannot define
    taken = []
    for c in libs:
        for s in sorted(symbols(libs[c])):
            if not re.match(r'_Z(TV|TI|TS|TC|TT|GV|GR|TW|TH|Thn?|Tv|Tc)?(N[VKOR]*)?4lexi', s):
                taken.append((c, s))
    ctx.phases.append({'phase': 'generated programs', 'programs': progs, 'left_out': left_out, 'evaluations': decls, 'distinct_hashed': decls, 'nontrivial': decls,
                       'names': [len(names[0]), len(names[1])], 'headers': hs, 'samples': samples, 'wall_s': round(time.time() - t0, 1)})
    log('%d programs with %d names of their own, %d without an answer' % (progs, decls, left_out))
    if bad:
        violation(ctx, libs, heads, bad)
    for c, s in taken[:6]:
        d = os.path.join(ctx.work, 'sym')
        os.makedirs(d, exist_ok=True)
        text = 'extern "C" int own_(int x) __asm__("%s");\nextern "C" int own_(int x) { return x + 1; }\nint main() { return own_(1) == 2 ? 0 : 43; }\n' % s
        rc, out = compiled(c, 'c++14', text, d, ['-o', os.path.join(d, 'x')])
        if rc != 0:
            continue
        rc, out = compiled(c, 'c++14', text, d, libs[c] + ['-o', os.path.join(d, 'x')])
        if rc:
            write(ctx, c, 'c++14', text, ('cannot define a function whose symbol is %s, which the library takes outside its namespace' % s, out, text))


def write(ctx, cxx, std, text, b):
    rep = os.path.join(ctx.replays, ctx.pid + '-program.txt')
    with open(rep, 'w') as f:
        f.write('compiler %s %s\n=== program\n%s=== what\n%s\n%s\n' % (cxx, std, text, b[0], b[1]))
    log('a generated program %s:\n%s\n%s' % (b[0], text[-1500:], b[1][:1200]))
    raise Violation(b[0], rep)


def violation(ctx, libs, heads, bad):
    seed, parts, cxx, std, b = bad
    d = os.path.join(ctx.work, 'shrink')
    os.makedirs(d, exist_ok=True)
    if not holds(cxx, std, parts, heads, libs, d, seed):
        ctx.notes.append('a program failed once and not again: ' + b[1][-300:])
        log(ctx.notes[-1])
        return
    t0 = time.time()
    k = max(1, len(parts) // 2)
    while k and time.time() - t0 < 60:
        i = 0
        while i < len(parts):
            less = parts[:i] + parts[i + k:]
            b2 = holds(cxx, std, less, heads, libs, d, seed) if any(p[0] == 'include' for p in less) else None
            if b2 and b2[0][:20] == b[0][:20]:
                parts, b = less, b2
            else:
                i += k
        k //= 2
    write(ctx, cxx, std, b[2], b)


def replay(ctx, path, meta):
    with open(path) as f:
        text = f.read()
    cxx, std = text.split('\n')[0].split(' ')[1:3]
    body = text.split('=== program\n')[1].split('=== what\n')[0]
    libs = library(ctx)
    x = os.path.join(ctx.work, 'x')
    rc, out = compiled(cxx, std, body, ctx.work, libs[cxx] + ['-o', x, '-pthread'])
    if rc == 0:
        rc, out = run([x], timeout=60)
    log(out)
    if rc:
        log('VIOLATION property=%s replay=%s' % (ctx.pid, path))
    return 1 if rc else 0


go.replay = replay
