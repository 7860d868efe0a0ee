"""C27: programs of generated layout, whose calls are made at all stages of their lives."""
import json, random
from engine import *

STAGES = list(range(9))
NAMES = ['static object', 'static object of first priority', 'static object of late priority', 'constructor of first priority', 'constructor', 'exit handler set before main',
         'threads before and after main', 'local static used before main', 'static text']
CXX = ['g++', 'clang++']
OPTS = ['-O0', '-O2']


def compile_parts(ctx):
    jobs, parts = [], {}
    d = os.path.join(ctx.work, 'parts')
    os.makedirs(d)
    for cxx in CXX:
        for o in OPTS:
            objs = []
            for i, s in enumerate(ctx.sources()):
                p = os.path.join(d, 'lib-%s%s-%d-%s.o' % (cxx, o, i, os.path.basename(s)))
                objs.append(p)
                jobs.append(([cxx, '-std=c++14', '-fPIC', '-w', o, '-include', 'cstdint', '-I' + REPO + '/include', '-c', s, '-o', p], s))
            parts['lib', cxx, o] = objs
            for st in STAGES + [99]:
                p = os.path.join(d, 'probe-%s%s-%d.o' % (cxx, o, st))
                parts['probe', cxx, o, st] = p
                jobs.append(([cxx, '-std=c++14', '-fPIC', '-w', o, '-include', 'cstdint', '-DSTAGE=%d' % st, '-I' + REPO + '/include', '-c', HARNESS + '/c27probe.cpp', '-o', p], 'probe'))
    ctx.compile_all(jobs)
    for cxx in CXX:
        for o in OPTS:
            a = os.path.join(d, 'liblexi-%s%s.a' % (cxx, o))
            so = os.path.join(d, 'liblexi-%s%s.so' % (cxx, o))
            ctx.compile_all([(['ar', 'rcs', a] + parts['lib', cxx, o], a), ([cxx, '-shared', '-o', so] + parts['lib', cxx, o], so)])
            parts['a', cxx, o], parts['so', cxx, o] = a, so
    return parts


def layout(seed, nlib):
    r = random.Random('c27/%d' % seed)
    n = r.choice([1, 1, 2, 2, 3, 4, 6])
    order = list(range(nlib))
    r.shuffle(order)
    pack = r.choice(['objects', 'objects', 'objects', 'archive', 'shared', 'plugin'])
    # A thread that is started and awaited while the loader holds its lock need not end, whatever it does.
    stages = [s for s in STAGES if s != 6] if pack == 'plugin' else STAGES
    return {'lib': [r.choice(CXX), r.choice(OPTS)], 'pack': pack, 'order': order,
            'probes': [[r.choice(stages), r.choice(CXX), r.choice(OPTS), r.randrange(nlib + 1)] for _ in range(n)],
            'main': [r.choice(CXX), r.choice(OPTS)], 'exit': r.randrange(4), 'linker': r.choice(CXX), 'seed': r.randrange(1, 1 << 62)}


def describe(l):
    return '%s (library: %s %s) with %s, ending by way %d, seed %d' % (l['pack'], l['lib'][0], l['lib'][1], ', '.join('%s at %d' % (NAMES[p[0]], p[3]) for p in l['probes']), l['exit'], l['seed'])


def attempt(ctx, parts, l, tag, verbose=False):
    """Returns (number of stages, what is wrong or None)."""
    exe = os.path.join(ctx.work, 'x' + tag)
    lib = parts['lib', l['lib'][0], l['lib'][1]]
    main = parts['probe', l['main'][0], l['main'][1], 99]
    probes = [(parts['probe', p[1], p[2], p[0]], p[3]) for p in l['probes']]
    made = [exe]
    args = []
    base = [l['linker'], '-o', exe, '-pthread', '-rdynamic']
    if l['pack'] == 'objects':
        seq = []
        for i in range(len(lib) + 1):
            seq += [p for p, at in probes if at == i]
            if i < len(lib):
                seq.append(lib[l['order'][i]])
        cmd = base + ([main] + seq if l['seed'] & 1 else seq + [main])
    elif l['pack'] == 'archive':
        cmd = base + [p for p, at in probes] + [main, parts['a', l['lib'][0], l['lib'][1]]]
    elif l['pack'] == 'shared':
        so = parts['so', l['lib'][0], l['lib'][1]]
        cmd = base + [p for p, at in probes] + [main, so, '-Wl,-rpath,' + os.path.dirname(so)]
    else:                               # the probes with a library of their own, loaded at run time
        plug = exe + '.so'
        made.append(plug)
        rc, out = run([l['linker'], '-shared', '-o', plug] + [p for p, at in probes] + [lib[i] for i in l['order']], timeout=120)
        if rc != 0:
            raise Broken('cannot link a plug-in: ' + out[-1500:])
        args = [plug]
        cmd = base + [main] + lib
    cmd.append('-ldl')
    rc, out = run(cmd, timeout=120)
    if rc != 0:
        raise Broken('cannot link: %s\n%s' % (' '.join(cmd), out[-1500:]))
    env = dict(ENV, C27_SEED=str(l['seed']))
    if verbose:
        env['C27_VERBOSE'] = '1'
    rc, out = run([exe, str(l['exit'])] + args, timeout=60, env=env)
    for m in made:
        os.unlink(m)
    if verbose:
        return 0, out
    lines = [x.rsplit(' ', 1) for x in out.strip().split('\n') if x]
    want = [x[1] for x in lines if x[0] == 'main']
    if rc is None:
        return len(lines), 'does not end'
    if rc != 0:
        return len(lines), 'ends with status %d after: %s' % (rc, '; '.join(x[0] for x in lines[-3:]) or 'nothing')
    if len(want) != 1:
        return len(lines), 'does not get to main'
    for x in lines:
        if x[1] != want[0]:
            return len(lines), 'gives other results at the stage "%s" than in main' % x[0]
    return len(lines), None


def shrink(ctx, parts, l, bad):
    def fails(m):
        try:
            return attempt(ctx, parts, m, 'shrink')[1]
        except Broken:
            return None
    again = fails(l)
    if not again:
        return l, bad + ' (not every time)'
    bad = again
    changed = True
    while changed:
        changed = False
        cand = [dict(l, probes=l['probes'][:i] + l['probes'][i + 1:]) for i in range(len(l['probes']))]
        cand += [dict(l, exit=0)] if l['exit'] else []
        cand += [dict(l, pack='objects')] if l['pack'] != 'objects' else []
        cand += [dict(l, order=sorted(l['order']))] if l['order'] != sorted(l['order']) else []
        cand += [dict(l, probes=[[p[0], p[1], p[2], 0] for p in l['probes']])] if any(p[3] for p in l['probes']) else []
        for c in cand:
            b = fails(c)
            if b:
                l, bad, changed = c, b, True
                break
    return l, bad


def go(ctx):
    parts = compile_parts(ctx)
    nlib = len(ctx.sources())
    t0, limit = time.time(), (2400 if ctx.thorough else 60)
    n = 20000 if ctx.thorough else 700
    bad, samples, stages, progs, kinds = None, [], 0, 0, {}

    def one(i):
        if time.time() - t0 > limit:
            return None
        l = layout(ctx.seed * 1000003 + i, nlib)
        return l, attempt(ctx, parts, l, str(i))
    with ThreadPoolExecutor(JOBS) as ex:
        for i, res in enumerate(ex.map(one, range(n))):
            if res is None:
                continue
            l, (k, b) = res
            progs += 1
            stages += k
            kinds[l['pack']] = kinds.get(l['pack'], 0) + 1
            for p in l['probes']:
                kinds[NAMES[p[0]]] = kinds.get(NAMES[p[0]], 0) + 1
            if i < 10:
                samples.append(describe(l))
            if b and (bad is None or len(l['probes']) < len(bad[0]['probes'])):
                bad, limit = (l, b), 0
    ctx.phases.append({'phase': 'generated programs', 'programs': progs, 'evaluations': stages, 'nontrivial': stages, 'distinct_hashed': stages, 'by_kind': kinds, 'samples': samples,
                       'wall_s': round(time.time() - t0, 1)})
    log('%d programs, %d stages, %.1f s' % (progs, stages, time.time() - t0))
    if bad:
        l, b = shrink(ctx, parts, bad[0], bad[1])
        rep = os.path.join(ctx.replays, ctx.pid + '-program.txt')
        with open(rep, 'w') as f:
            f.write('layout %s\n%s: the program %s\n' % (json.dumps(l), describe(l), b))
        log('a program of %s %s' % (describe(l), b))
        raise Violation(b, rep)


def replay(ctx, path, meta):
    l = json.loads(meta['layout'])
    parts = compile_parts(ctx)
    k, b = attempt(ctx, parts, l, 'replay')
    log(describe(l))
    if b:
        log('the program ' + b)
        log(attempt(ctx, parts, l, 'replay', verbose=True)[1][:6000])
        log('VIOLATION property=%s replay=%s' % (ctx.pid, path))
        return 1
    log('the program holds')
    return 0


go.replay = replay
