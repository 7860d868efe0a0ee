"""C19: generated configurations of the literals, each a build of the library."""
import hashlib, os, random
from concurrent.futures import ThreadPoolExecutor
from engine import *

NAMES = ['TRUE', 'FALSE', 'NULL', 'NAN', 'INFINITY', 'NEGATIVE_INFINITY']
DEFAULT = {'TRUE': b'true', 'FALSE': b'false', 'NULL': b'null', 'NAN': b'NaN', 'INFINITY': b'Infinity', 'NEGATIVE_INFINITY': b'-Infinity'}
REAL = {'TRUE': [b'True', b'TRUE', b'yes', b'on', b'1', b'#t', b'.true.', b'T', b'Y'], 'FALSE': [b'False', b'FALSE', b'no', b'off', b'0', b'#f', b'.false.', b'F', b'N'],
        'NULL': [b'None', b'NULL', b'nil', b'undefined', b'Nothing', b'~', b'(null)', b'NA'], 'NAN': [b'nan', b'.nan', b'NAN', b'1.#QNAN', b'NaN(0x8000000000000000)', b'null'],
        'INFINITY': [b'inf', b'.inf', b'1e999', b'+Infinity', b'1.#INF', b'oo'], 'NEGATIVE_INFINITY': [b'-inf', b'-.inf', b'-1e999', b'-1.#INF', b'-oo', b'minus infinity']}


def literal(r, name):
    k = r.randrange(6)
    if k == 0:
        return r.choice(REAL[name])
    top = 29 if name in ('NAN', 'INFINITY', 'NEGATIVE_INFINITY') else 63
    n = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 28, 29, top, top - 1, r.randrange(top + 1)])
    n = min(n, top)
    if top == 63 and r.random() < .12:
        n = r.choice([100, 127, 128, 255, 256, 257, 1000, 4096, 32768, 65535, 65536, 65540])
    if k == 1:
        a = b'abcXYZ019_ -.' if r.random() < .5 else b'%sdnx0*$\\"\'{}?&<>,:;\t\n'
        return bytes(r.choice(a) for _ in range(n))
    if k == 2:
        return bytes(r.randrange(1, 256) for _ in range(n))
    if k == 3:                          # the default, cut or continued
        return (DEFAULT[name] + bytes(r.choice(b'truefalsn ') for _ in range(n)))[:r.randrange(1, max(top, n) + 1)]
    if k == 4:
        return bytes([r.choice(b'tfnx')]) * n
    return DEFAULT[name]


def configuration(seed, index):
    r = random.Random('%d/%d' % (seed, index))
    if index == 0:
        return dict(DEFAULT)
    if index <= 3:                      # around the ends of one and two bytes
        ns = [(65535, 65536, 65540), (255, 256, 257), (127, 128, 260)][index - 1]
        c = dict(DEFAULT)
        for n, k in zip(r.sample(NAMES[:3], 3), ns):
            c[n] = (DEFAULT[n] + bytes(r.randrange(1, 256) for _ in range(k)))[:k]
        return c
    c = {}
    keep = set(r.sample(NAMES, r.choice([0, 0, 0, 1, 3, 5])))
    for n in NAMES:
        c[n] = DEFAULT[n] if n in keep else literal(r, n)
    if r.random() < .2:                 # one spelling the beginning of the other
        c['FALSE'] = (c['TRUE'] + b'x')[:63]
        if r.random() < .5:
            c['TRUE'], c['FALSE'] = c['FALSE'], c['TRUE']
    if r.random() < .1:
        c['NULL'] = c['FALSE']
    while c['TRUE'] == c['FALSE']:
        c['FALSE'] = literal(r, 'FALSE')
    return c


def prelude(c):
    o = '#pragma once\n'
    for n in NAMES:
        if c[n] != DEFAULT[n]:
            o += '#define LEXI_%s "%s"\n' % (n, ''.join('\\%03o' % x for x in c[n]))
    return o


class Cache:
    """Objects by the preprocessed text of their source: most files do not use the literals."""
    def __init__(self, ctx):
        self.ctx, self.dir, self.n = ctx, os.path.join(ctx.work, 'objects'), 0
        os.makedirs(self.dir, exist_ok=True)

    def obj(self, src, pre, std, opt, inc):
        base = ['g++', '-std=' + std, '-w', '-include', 'cstdint', '-include', pre] + inc
        rc, out = run(base + ['-E', '-P', src], timeout=300)
        if rc != 0:
            raise Broken('cannot preprocess %s: %s' % (src, out[-2000:]))
        h = hashlib.sha256((src + opt + out).encode()).hexdigest()[:32]
        o = os.path.join(self.dir, h + '.o')
        if not os.path.exists(o):
            tmp = '%s.%d.%s' % (o, os.getpid(), os.path.basename(pre))
            rc, out = run(base + [opt, '-c', src, '-o', tmp], timeout=600)
            if rc != 0:
                return None, out
            os.replace(tmp, o)
            self.n += 1
        return o, ''


def build(ctx, cache, c, tag):
    pre = os.path.join(ctx.work, 'config-%s.h' % tag)
    with open(pre, 'w') as f:
        f.write(prelude(c))
    inc = ['-I' + REPO + '/include']
    objs = []
    for s, std, i in [(s, 'c++14', inc) for s in ctx.sources()] + [(os.path.join(HARNESS, 'c19.cpp'), 'c++17', inc + ['-I' + HARNESS])]:
        o, out = cache.obj(s, pre, std, '-O0', i)
        if o is None:
            return None, out
        objs.append(o)
    b = os.path.join(ctx.work, 'c19-' + tag)
    rc, out = run(['g++'] + objs + ['-o', b, '-pthread'], timeout=300)
    return (b, '') if rc == 0 else (None, out)


def env_of(c):
    e = {}
    for n in NAMES:                     # one variable may have 128 kB
        h = c[n].hex()
        for k in range(0, max(1, len(h)), 100000):
            e['C19_' + n + ('_%d' % (k // 100000 + 1) if k else '')] = h[k:k + 100000]
    return e


def save(rep, c, extra=''):
    with open(rep, 'a') as f:
        f.write(extra + ''.join('literal %s %s\n' % (n, c[n].hex()) for n in NAMES) + 'property C19\n')


def go(ctx):
    cache = Cache(ctx)
    count = 400 if ctx.thorough else 100
    t0, limit = time.time(), (2400 if ctx.thorough else 150)
    b, out = build(ctx, cache, DEFAULT, 'first')
    if b is None:
        raise Broken('cannot build the default configuration: ' + out[-3000:])

    def one(i):
        if time.time() - t0 > limit:
            return None
        c = configuration(ctx.seed, i)
        b, out = build(ctx, cache, c, str(i))
        if b is None:
            return c, 'compile', out, {}, None
        rep = ctx.replay_path('c%d' % i)
        if os.path.exists(rep):
            os.unlink(rep)
        err = os.path.join(ctx.work, 'err%d' % i)
        os.makedirs(err)
        st = os.path.join(ctx.work, 'st%d' % i)
        rc, out = run([b, 'run', '--seed', str(ctx.seed + i), '--tier', ctx.tier, '--workers', '1', '--out', st, '--replay', rep, '--errdir', err], timeout=900,
                      env=dict(ENV, **env_of(c)))
        os.unlink(b)
        try:
            s = json.load(open(st))
        except (OSError, ValueError):
            s = {}
        if rc not in (0, 1):
            raise Broken('c19 ended with %s: %s' % (rc, out[-2000:]))
        return c, 'ok' if rc == 0 else 'bad', out, s, rep

    ev = dn = n = 0
    samples, bad = [], None
    with ThreadPoolExecutor(JOBS) as ex:
        for r in ex.map(one, range(count)):
            if r is None:
                continue
            c, how, out, s, rep = r
            n += 1
            ev += s.get('evaluations', 0)
            dn += s.get('distinct_hashed', 0) + s.get('distinct_enumerated', 0)
            if len(samples) < 12:
                samples.append(', '.join('%s=%r' % (k, v) if len(v) < 100 else '%s=%r... (length %d)' % (k, v[:40], len(v)) for k, v in c.items()))
            if how != 'ok' and (bad is None or len(repr(c)) < len(repr(bad[0]))):
                bad = (c, how, out, rep)
    ctx.phases.append({'phase': 'generated configurations', 'configurations': n, 'evaluations': ev, 'distinct_hashed': dn, 'objects_compiled': cache.n,
                       'samples': samples, 'wall_s': round(time.time() - t0, 1)})
    log('%d configurations, %d evaluations' % (n, ev))
    if bad:
        c, how, out, rep = bad
        log(out.strip()[-1500:])
        if how == 'compile':
            rep = ctx.replay_path('config')
            with open(rep, 'w') as f:
                f.write('kind compile\nwhat does not build: %s\n' % out[-500:].replace('\n', ' '))
        save(rep, c)
        raise Violation(out, rep)


def replay(ctx, path, meta):
    c = dict(DEFAULT)
    with open(path) as f:
        for l in f:
            m = re.match(r'literal (\S+) ([0-9a-f]*)$', l.strip())
            if m:
                c[m.group(1)] = bytes.fromhex(m.group(2))
    b, out = build(ctx, Cache(ctx), c, 'replay')
    if b is None:
        log(out[-2000:])
        log('VIOLATION property=C19 replay=%s' % path)
        return 1
    if meta.get('kind') == 'compile':
        log('builds')
        return 0
    rc, out = run([b, 'replay', '--file', path, '--errdir', ctx.work], timeout=900, env=dict(ENV, **env_of(c)))
    log(out.strip())
    if rc == 1:
        log('VIOLATION property=C19 replay=%s' % path)
    return rc


go.replay = replay
