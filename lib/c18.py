"""C18: generated programs that use the generic functions with values of many types.

A program is a list of items; each item declares what it needs, makes one or
more calls and compares the texts (or values) with the ones the generator knows.
An item that does not compile, or gives another result, is found by compiling
it alone; that small program is the replay file.
"""
import os, random
from concurrent.futures import ThreadPoolExecutor
from engine import *

INTS = {  # alias: (bits, signed)
    'signed char': (8, 1), 'unsigned char': (8, 0), 'short': (16, 1), 'unsigned short': (16, 0), 'int': (32, 1), 'unsigned int': (32, 0),
    'long': (64, 1), 'unsigned long': (64, 0), 'long long': (64, 1), 'unsigned long long': (64, 0),
    'std::int8_t': (8, 1), 'std::uint8_t': (8, 0), 'std::int16_t': (16, 1), 'std::uint16_t': (16, 0), 'std::int32_t': (32, 1),
    'std::uint32_t': (32, 0), 'std::int64_t': (64, 1), 'std::uint64_t': (64, 0), 'std::size_t': (64, 0), 'std::ptrdiff_t': (64, 1),
    'std::int_fast16_t': (64, 1), 'std::uint_least8_t': (8, 0), 'std::intmax_t': (64, 1), 'std::uintptr_t': (64, 0),
    'std::time_t': (64, 1), 'std::streamoff': (64, 1), 'std::streamsize': (64, 1), 'unsigned': (32, 0), 'signed': (32, 1),
}
UNDER = dict([(k, INTS[k]) for k in list(INTS)[:20]] + [('char', (8, 1)), ('bool', (1, 0)), ('wchar_t', (32, 1)), ('char16_t', (16, 0)), ('char32_t', (32, 0))])


def lo_hi(bits, signed):
    return (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)


def pick_int(r, bits, signed):
    lo, hi = lo_hi(bits, signed)
    k = r.randrange(6)
    if k == 0:
        return r.choice([lo, hi, 0, min(hi, 1), max(lo, -1), hi // 2])
    if k == 1:
        v = r.randrange(100)
    elif k == 2:
        v = 10 ** r.randrange(20) + r.randrange(-2, 3)
    elif k == 3:
        v = ord(r.choice('0aZ \n"\\~')) if not signed or r.random() < .7 else -ord('a')
    else:
        v = r.getrandbits(r.randrange(1, bits + 1))
    if signed and r.random() < .5:
        v = -v
    return v if lo <= v <= hi else r.randint(lo, hi)


def lit(v):
    if v < -(1 << 63) + 1:
        return '(-9223372036854775807LL - 1)'
    return '%dLL' % v if v < (1 << 63) else '%dULL' % v


def c_quote(b):
    o = '"'
    for c in b:
        ch = chr(c)
        o += ch if ch.isalnum() and c < 128 or ch in ' _+-*/.,:;<>=!#$%&()[]{}~^|@' else '\\%03o' % c
    return o + '"'


def c_char(c):
    return "'\\%03o'" % c


def escape(b):
    o = bytearray()
    for c in b:
        if c < 127 and not (48 <= c <= 57 or 65 <= c <= 90 or 97 <= c <= 122):
            o += b'\\'
        o.append(c)
    return bytes(o)


def jsonify(b):
    o = bytearray(b'"')
    two = {8: b'b', 9: b't', 10: b'n', 12: b'f', 13: b'r', 34: b'"', 92: b'\\'}
    for c in b:
        if c in two:
            o += b'\\' + two[c]
        elif c < 32:
            o += b'\\u%04x' % c
        else:
            o.append(c)
    return bytes(o + b'"')


def text(r, ascii_only=False, empty=True):
    n = r.choice([0, 1, 2, 3, 5, 8, 15, 16, 17, 40, 200]) if empty else r.choice([1, 2, 3, 8, 16, 40])
    hot = b'abz09 "\\/\n\t\r\b\f\x01\x1f\x7f~[]{}:,-+.e'
    return bytes(r.choice(hot) if r.random() < .7 else r.randrange(1, 128 if ascii_only else 256) for _ in range(n))


class Value:
    """A C++ value: its type, an expression of exactly that type, and its text."""
    def __init__(self, kind, ctype, expr, plain, decl='', literals=(), extract=None):
        self.kind, self.ctype, self.expr, self.plain = kind, ctype, expr, plain
        self.decl, self.literals = decl, list(literals)         # decl: at namespace scope
        self.extract = extract          # texts to extract the value from
        if kind in ('string', 'char'):
            self.esc, self.json = escape(plain), jsonify(plain)
        else:
            self.esc = self.json = plain


def int_value(r, n):
    t = r.choice(list(INTS))
    v = pick_int(r, *INTS[t])
    lits = []
    if 0 <= v < (1 << 31):
        lits = ['%d' % v, '%du' % v, '%dL' % v, '%dUL' % v, '%dLL' % v, '%dULL' % v, '0x%x' % v, "(short)%d" % v if v < 32768 else '%d' % v]
    elif 0 < -v < (1 << 31):
        lits = ['%d' % v, '%dL' % v, '%dLL' % v]
    return Value('int', t, 'static_cast<%s>(%s)' % (t, lit(v)), str(v).encode(), literals=lits,
                 extract=[str(v)] + (['%+d' % v, '000%d' % v] if v >= 0 else []))


def char_value(r, n):
    c = r.choice([0, 9, 10, 34, 92, 48, 57, 65, 97, 122, 32, 127, 126, 255, 128, r.randrange(256)])
    ex = [bytes([c]).decode('latin-1')] if c else []
    return Value('char', 'char', 'static_cast<char>(%d)' % c, bytes([c]), literals=[c_char(c)], extract=ex)


def bool_value(r, n):
    b = r.random() < .5
    t = 'true' if b else 'false'
    return Value('bool', 'bool', t, t.encode(), literals=[t, '!%s' % ('false' if b else 'true'), '(1 %s 0)' % ('>' if b else '<')], extract=[t])


def js(v):
    s = repr(v)
    if 'e' in s:
        raise ValueError
    return s


def float_value(r, n):
    t = r.choice(['float', 'double', 'long double'])
    suffix = {'float': 'f', 'double': '', 'long double': 'L'}[t]
    if r.random() < .1:
        w, e = r.choice([('NaN', 'std::numeric_limits<%s>::quiet_NaN()'), ('Infinity', 'std::numeric_limits<%s>::infinity()'),
                         ('-Infinity', '(-std::numeric_limits<%s>::infinity())')])
        return Value('float', t, e % t, w.encode(), extract=[] if w == 'NaN' else [w])
    v = r.randrange(0, 1 << r.randrange(1, 20)) / (1 << r.randrange(7)) * (r.choice([1, -1]))
    if v == 0:
        v = 0.0
    return Value('float', t, 'static_cast<%s>(%s)' % (t, js(v)), js(v).encode(), literals=['%s%s' % (js(v), suffix)],
                 extract=[js(v), '%sE0' % js(v)] + (['%d' % v] if v == int(v) else []))


def null_value(r, n):
    return Value('null', 'std::nullptr_t', 'nullptr', b'null', literals=['nullptr', 'std::nullptr_t{}', 'std::nullptr_t()'], extract=['null'])


def fpos_value(r, n):
    v = pick_int(r, 64, 1)
    t = r.choice(['std::streampos', 'std::fpos<std::mbstate_t>', 'std::wstreampos', 'std::ios::pos_type'])
    return Value('fpos', t, '%s(std::streamoff(%s))' % (t, lit(v)), str(v).encode(), extract=[str(v)])


def enum_value(r, n):
    u = r.choice(list(UNDER))
    bits, signed = UNDER[u]
    if u == 'wchar_t':
        signed = 1
    fixed = r.random() < .75
    scoped = r.random() < .6 if fixed else False
    if not fixed and r.random() < .3:
        scoped, u, bits, signed = True, 'int', 32, 1
    vals = [pick_int(r, bits, signed) for _ in range(r.randrange(1, 5))]
    names = ['a%d_%d' % (i, n) for i in range(len(vals))]
    body = ', '.join('%s = %s' % (a, 'static_cast<%s>(%s)' % (u, lit(v)) if fixed else lit(v)) for a, v in zip(names, vals))
    i = r.randrange(len(vals))
    v = vals[i]
    place = r.randrange(6)
    e = 'E%d' % n
    head = 'enum %s%s%s { %s };' % ('class ' if scoped and r.random() < .8 else ('struct ' if scoped else ''), e, ' : ' + u if fixed and not (scoped and u == 'int' and r.random() < .5) else '', body)
    if place == 0:
        decl, t = 'struct S%d { %s };' % (n, head), 'S%d::%s' % (n, e)
    elif place == 1:
        decl, t = 'namespace n%d { namespace { %s } }' % (n, head), 'n%d::%s' % (n, e)
    elif place == 2:
        decl, t = 'template <class T> struct S%d { %s };' % (n, head), 'S%d<int>::%s' % (n, e)
    elif place == 3:                     # with operators that could catch the eye of overload resolution
        decl = '%s inline int operator+(%s) { return 99; } inline bool operator!(%s) { return true; }' % (head, e, e)
        t = e
    else:
        decl, t = head, e
    expr = '%s::%s' % (t, names[i])
    if fixed and r.random() < .4:       # a value no enumerator has
        v = pick_int(r, bits, signed)
        expr = 'static_cast<%s>(static_cast<%s>(%s))' % (t, u, lit(v))
    return Value('enum', t, expr, str(v).encode(), decl=decl, literals=[expr], extract=[str(v)])


def string_value(r, n):
    k = r.randrange(8)
    b = text(r)
    if k == 0:
        b = b[:4] + b'\0' + b[4:] if r.random() < .5 else b
        e = 'std::string(%s, %d)' % (c_quote(b), len(b))
        return Value('string', 'std::string', e, b)
    if k == 1:
        return Value('string', 'D%d' % n, 'D%d(%s)' % (n, c_quote(b)), b, decl='struct D%d : std::string { using std::string::string; D%d() {} };' % (n, n))
    if k == 2:
        return Value('string', 'D%d' % n, 'D%d(%s, 7)' % (n, c_quote(b)), b,
                     decl='struct B%d : std::string { int before; explicit B%d(const char *s, int i) : std::string(s), before(i) {} virtual ~B%d() {} }; '
                     'struct D%d final : B%d { using B%d::B%d; operator int() const { return 3; } };' % ((n,) * 7))
    if k == 3:
        return Value('string', 'D%d' % n, 'D%d(%s)' % (n, c_quote(b)), b,
                     decl='struct O%d { int x = 1; }; class D%d : public O%d, public std::string { public: D%d(const char *s) : std::string(s) {} };' % ((n,) * 4))
    if k == 4:
        return Value('string', 'const char *', 'static_cast<const char *>(%s)' % c_quote(b), b)
    if k == 5:
        name = 'buf%d' % n
        return Value('string', 'char *', '&%s[0]' % name, b, decl='static char %s[%d] = %s;' % (name, len(b) + 1 + r.randrange(5), c_quote(b)))
    size = len(b) + 1 + (r.randrange(20) if r.random() < .5 else 0)
    return Value('array', '', c_quote(b), b, decl='', literals=[c_quote(b)]).with_size(size)


def _with_size(self, size):
    self.size = size
    self.kind = 'array'
    self.esc, self.json = escape(self.plain), jsonify(self.plain)
    return self


Value.with_size = _with_size

MAKERS = [int_value] * 4 + [enum_value] * 3 + [char_value, bool_value, float_value, float_value, null_value, fpos_value] + [string_value] * 3

OPS = [('plain', 'lexi::lexi(%s)'), ('plain', 'lexi::string(%s)'), ('esc', 'lexi::escape(%s)'), ('json', 'lexi::jsonify(%s)')]
OBJ = [('plain', 'lexi::Format()(%s).string()'), ('plain', 'std::string(lexi::Format()(%s))'), ('esc', 'lexi::Format()(%s).escape()'),
       ('json', 'lexi::Format()(%s).jsonify()'), ('plain', 'std::string(lexi::Format()(%s).c_str(), lexi::Format()(%s).size())')]


def holders(v, n):
    """Ways to hold the value: (statements, expression)."""
    t, e = v.ctype, v.expr
    if v.kind == 'array':
        z = v.size
        return [('char x[%d] = %s;' % (z, e), 'x'), ('const char x[%d] = %s;' % (z, e), 'x'), ('static const char x[%d] = %s;' % (z, e), 'x'),
                ('char x[%d] = %s; char (&y)[%d] = x;' % (z, e, z), 'y'), ('const char x[%d] = %s; const char (&y)[%d] = x;' % (z, e, z), 'y'),
                ('struct { char m[%d]; } s = {%s};' % (z, e), 's.m'), ('const struct { int i; char m[%d]; } s = {1, %s};' % (z, e), 's.m'),
                ('', e), ('char x[2][%d] = {%s, %s};' % (z, e, e), 'x[1]')]
    h = [('%s x = %s;' % (t, e), 'x'), ('%s x = %s; %s &y = x;' % (t, e, t), 'y'), ('%s x = %s; const %s &y = x;' % (t, e, t), 'y') if not t.endswith('*') else ('%s const x = %s;' % (t, e), 'x'),
         ('%s const x = %s;' % (t, e), 'x'), ('static %s const x = %s;' % (t, e), 'x'), ('%s &&x = %s;' % (t, e), 'x'), ('', e), ('%s x = %s; %s *p = &x;' % (t, e, t), '*p'),
         ('%s x[3] = {%s, %s, %s};' % (t, e, e, e), 'x[2]'), ('%s const x[2] = {%s, %s};' % (t, e, e), '*x'), ('struct { %s m; } s = {%s};' % (t, e), 's.m'),
         ('const struct { int i; %s m; } s = {1, %s};' % (t, e), 's.m'), ('auto f = []() -> %s { return %s; };' % (t, e), 'f()'),
         ('auto f = []() -> %s const { return %s; };' % (t, e), 'f()'), ('%s x = %s;' % (t, e), 'std::move(x)'), ('std::pair<int, %s> p(1, %s);' % (t, e), 'p.second'),
         ('std::vector<%s> w(2, %s);' % ('char *' if t == 'bool' else t, 'nullptr' if t == 'bool' else e), 'static_cast<bool>(%s)' % e if t == 'bool' else 'w[1]'),
         ('%s x = %s; auto c = [&x]() -> decltype(auto) { return (x); };' % (t, e), 'c()'), ('%s x = %s; auto c = [x]() -> const auto & { return x; };' % (t, e), 'c()'),
         ('%s x = %s; bool yes = true;' % (t, e), 'yes ? x : x')]
    if v.kind not in ('string', 'fpos') or t.endswith('*'):
        h += [('%s volatile x = %s;' % (t, e), 'x'), ('%s const volatile x = %s;' % (t, e), 'x'), ('%s x = %s; %s volatile &y = x;' % (t, e, t), 'y'),
              ('static %s volatile x = %s;' % (t, e), 'x'), ('struct { %s volatile m; } s = {%s};' % (t, e), 's.m')]
    if v.kind in ('int', 'char', 'bool', 'enum', 'float'):
        h += [('constexpr %s x = %s;' % (t, e), 'x'), ('union { %s m; char c; } u = {%s};' % (t, e), 'u.m')]
    if v.kind in ('int', 'char', 'bool', 'enum'):
        h += [('std::atomic<%s> x(%s);' % (t, e), 'x.load()')]
    if v.kind == 'int':
        k = INTS[t][0]
        h += [('struct { %s f : %d; } s; s.f = %s;' % (t, k, e), 's.f'), ('struct { %s f : %d; } s; s.f = %s; const auto &y = s;' % (t, k, e), 'y.f')]
    if v.kind == 'bool':
        h += [('struct { bool f : 1; } s; s.f = %s;' % e, 's.f')]
    return h


WRAPS = ['%s'] * 6 + ['[](auto x) -> std::string { return %s; }(@)', '[](const auto &x) -> std::string { return %s; }(@)',
                      '[](auto &&x) -> std::string { return %s; }(@)', '[](auto &&x) -> std::string { return %s; }(@)']


def item(seed):
    """(declarations, body, description); names end in the seed's own number."""
    r = random.Random(seed)
    n = seed % 1000000
    v = r.choice(MAKERS)(r, n)
    calls, statements = [], ''
    form, extract = True, False
    if v.extract and r.random() < .3:
        extract = True
    if extract:
        tx = r.choice(v.extract)
        b = tx.encode('latin-1')
        src = r.choice([('', c_quote(b)), ('std::string t = %s;' % c_quote(b), 't'), ('const std::string t = %s;' % c_quote(b), 't'), ('const char *t = %s;' % c_quote(b), 't'),
                        ('char t[] = %s;' % c_quote(b), 't'), ('', 'std::string(%s)' % c_quote(b)), ('struct X : std::string { using std::string::string; }; X t(%s);' % c_quote(b), 't'),
                        ('char u[] = %s; char *t = u;' % c_quote(b), 't'), ('std::string w = "junk"; w = %s;' % c_quote(b), 'w.c_str()'), ('std::string t = %s; std::string &q = t;' % c_quote(b), 'q')])
        call = r.choice(['lexi::lexi<%s>(%s)', 'lexi::lexi<%s>(%s)', 'lexi::Extract<%s>()(%s)']) % (v.ctype, src[1])
        same = 'got == want' if v.kind != 'null' else 'got == nullptr && want == nullptr'
        body = '%s static_assert(std::is_same<decltype(%s), %s>::value, "type"); %s got = %s; const %s want = %s; check(%s, %s);' % (
            src[0], call, v.ctype, v.ctype, call, v.ctype, v.expr, same, c_quote(('the value extracted by ' + call).encode()))
        desc = '%s == %s' % (call, v.expr)
    else:
        st, e = r.choice(holders(v, n))
        if v.literals and r.random() < .25:
            st, e = '', r.choice(v.literals)
        ops = OPS + (OBJ if v.kind not in ('string', 'array') else [])
        which, op = r.choice(ops)
        wrap = r.choice(WRAPS)
        if wrap == '%s':
            call = op.replace('%s', e)
        elif e.startswith('s.f') or e.startswith('y.f'):        # bit-fields bind to no reference
            call = op.replace('%s', e)
        else:
            call = (wrap % op.replace('%s', 'x')).replace('@', e)
            if 'auto x)' in wrap and v.kind == 'array':
                pass
        want = {'plain': v.plain, 'esc': v.esc, 'json': v.json}[which]
        body = '%s std::string got = %s; check(got == std::string(%s, %d), %s, got);' % (st, call, c_quote(want), len(want), c_quote(call.encode()))
        desc = '%s %s -> %s' % (st, call, c_quote(want))
    return v.decl, body, v.kind + ('<' if extract else '>') + ' ' + desc


HEAD = '''// generated for property C18
#include <lexi/lexi.hpp>
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <ctime>
#include <limits>
#include <string>
#include <utility>
#include <vector>
static int failures = 0;
static void show(const std::string &s) { for (unsigned char c : s) if (c >= 32 && c < 127) putchar(c); else printf("\\\\x%02x", c); }
struct Item { int number; };
static Item item;
static void check(bool ok, const char *what, const std::string &got = "") {
  if (ok) return;
  failures++;
  printf("ITEM %d: ", item.number); show(what); if (!got.empty()) { printf(" gives "); show(got); } putchar('\\n');
}
'''


def program(items):
    decls, fns, calls = [], [], []
    for i, s in enumerate(items):
        d, b, _ = item(s)
        if d:
            decls.append(d)
        fns.append('static void f%d() { %s }' % (i, b))
        calls.append('  item.number = %d; f%d();' % (i, i))
    return HEAD + '\n'.join(decls + fns) + '\nint main() {\n  try {\n' + '\n'.join(calls) + \
        '\n  } catch (const std::exception &e) { failures++; printf("ITEM %d: throws %s\\n", item.number, e.what()); }\n  return failures ? 42 : 0;\n}\n'


CONFIGS = [(c, s, o) for c in ('g++', 'clang++') for s in ('c++14', 'c++17', 'c++20') for o in ('-O0', '-O1')]


def build_lib(ctx):
    """One static library per compiler, built as the project's own build does."""
    libs = {}
    jobs, ars = [], []
    for cxx in ('g++', 'clang++'):
        d = os.path.join(ctx.work, 'lib-' + cxx)
        os.makedirs(d)
        objs = []
        for i, s in enumerate(ctx.sources()):
            o = os.path.join(d, '%d.o' % i)
            objs.append(o)
            jobs.append(([cxx, '-std=c++14', '-O1', '-fPIC', '-w', '-include', 'cstdint', '-I' + REPO + '/include', '-c', s, '-o', o], s))
        libs[cxx] = os.path.join(d, 'liblexi.a')
        ars.append((['ar', 'rcs', libs[cxx]] + objs, 'liblexi.a'))
    ctx.compile_all(jobs)
    ctx.compile_all(ars)
    return libs


def try_program(ctx, libs, src, cfg, name):
    """None if it compiles and holds; otherwise (kind, output)."""
    cxx, std, opt = cfg
    f = os.path.join(ctx.work, name + '.cpp')
    x = os.path.join(ctx.work, name)
    with open(f, 'w') as h:
        h.write(src)
    rc, out = run([cxx, '-std=' + std, opt, '-w', '-include', 'cstdint', '-I' + REPO + '/include', f, libs[cxx], '-o', x], timeout=300)
    if rc is None:
        return None                     # the compiler took too long: no verdict
    if rc != 0:
        if 'Killed' in out or 'internal compiler error' in out:
            return None
        stub, sout = run([cxx, '-std=' + std, '-w', '-include', 'cstdint', '-I' + HARNESS + '/stub', f, '-o', x], timeout=300)
        if stub != 0:
            raise Broken('the generator made an invalid program, %s:\n%s' % (f, sout[:2000]))
        return 'does not compile', out
    rc, out = run([x], timeout=60)
    for p in (f, x):
        os.unlink(p)
    if rc != 0:
        return 'fails', out + ('' if rc == 42 else '\nended with %s' % rc)
    return None


def go(ctx):
    libs = build_lib(ctx)
    per = 60
    count = 3000 if ctx.thorough else 200
    t0 = time.time()
    limit = 3000 if ctx.thorough else 150
    base = ctx.seed * 1000003

    def one(p):
        if time.time() - t0 > limit:
            return None
        seeds = [base * 1000000 + p * per + i for i in range(per)]
        cfg = CONFIGS[p % len(CONFIGS)]
        bad = try_program(ctx, libs, program(seeds), cfg, 'p%d' % p)
        return seeds, cfg, bad

    done, kinds, samples, failure = 0, {}, [], None
    with ThreadPoolExecutor(JOBS) as ex:
        for res in ex.map(one, range(count)):
            if res is None:
                continue
            seeds, cfg, bad = res
            done += 1
            for s in seeds:
                d = item(s)[2]
                k = d.split(' ')[0]
                kinds[k] = kinds.get(k, 0) + 1
                if len(samples) < 20 and kinds[k] == 3:
                    samples.append('%s %s: %s' % (cfg[0], cfg[1], d))
            if bad and failure is None:
                failure = (seeds, cfg, bad)
                limit = 0
    distinct = done * per
    ctx.phases.append({'phase': 'generated programs', 'evaluations': done * per, 'distinct_hashed': distinct, 'programs': done, 'items_per_program': per,
                       'items_by_kind': kinds, 'compilers': ['%s -std=%s %s' % c for c in CONFIGS], 'samples': samples, 'wall_s': round(time.time() - t0, 1)})
    log('%d programs, %d items' % (done, done * per))
    if failure:
        seeds, cfg, bad = failure
        # shrink: the items on their own, then the fewest that still fail
        def alone(i):
            return try_program(ctx, libs, program([seeds[i]]), cfg, 'a%d' % i)
        with ThreadPoolExecutor(JOBS) as ex:
            singles = list(ex.map(alone, range(len(seeds))))
        keep = seeds
        hit = [i for i, b in enumerate(singles) if b]
        if hit:
            keep, bad = [seeds[hit[0]]], singles[hit[0]]
        elif try_program(ctx, libs, program(seeds), cfg, 'again') is None:
            ctx.notes.append('a program failed once and not again: ' + bad[1][-500:])
            log(ctx.notes[-1])
            return
        rep = os.path.join(ctx.replays, ctx.pid + '-program.cpp')
        with open(rep, 'w') as f:
            f.write('// config %s %s %s\n// %s\n%s' % (cfg[0], cfg[1], cfg[2], bad[0], program(keep)))
        log('a generated program %s (%s -std=%s):\n%s' % (bad[0], cfg[0], cfg[1], bad[1][:1500]))
        log('item: ' + item(keep[0])[2])
        raise Violation(bad[0], rep)


def replay(ctx, path, meta):
    libs = build_lib(ctx)
    with open(path) as f:
        src = f.read()
    m = re.search(r'// config (\S+) (\S+) (\S+)', src)
    cfg = m.groups() if m else CONFIGS[0]
    bad = try_program(ctx, libs, src, cfg, 'replay')
    if bad:
        log('the program %s:\n%s' % (bad[0], bad[1][:3000]))
        log('VIOLATION property=%s replay=%s' % (ctx.pid, path))
        return 1
    log('the program compiles and holds')
    return 0


go.replay = replay
