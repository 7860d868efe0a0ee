"""Building, running and reporting, shared by all checks."""
import glob, json, os, re, shutil, signal, struct, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('LEXI_REPO', '/repo')
HARNESS = os.path.join(VERIF, 'harness')
JOBS = max(1, os.cpu_count() or 8)

SAN = '-fsanitize=address,undefined -fno-sanitize-recover=all -fno-omit-frame-pointer'
FLAVOURS = {
    # name: (compiler, flags for the library and the harness, link flags)
    'fast': ('g++', '-O2 -DNDEBUG', ''),
    'san': ('clang++', '-O1 -g -D_GLIBCXX_ASSERTIONS -fsanitize=fuzzer-no-link ' + SAN, ''),
    'fuzz': ('clang++', '-O1 -g -D_GLIBCXX_ASSERTIONS ' + SAN, '-fsanitize=fuzzer'),
    'tsan': ('clang++', '-O1 -g -fsanitize=thread', ''),
}
ENV = dict(os.environ)
ENV.update({
    'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=1',
    'UBSAN_OPTIONS': 'print_stacktrace=1:exitcode=78',
    'TSAN_OPTIONS': 'halt_on_error=1:exitcode=79:report_signal_unsafe=0',
    'LC_ALL': 'C', 'CCACHE_DISABLE': '1',
})


class Broken(Exception):
    """The check cannot be run (not a statement about the property)."""


class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.what, self.replay = what, replay


def log(*a):
    print(*a, flush=True)


def run(cmd, timeout=None, **kw):
    """Run a command in a process group of its own; kill the group on timeout."""
    kw.setdefault('env', ENV)
    kw.setdefault('stdout', subprocess.PIPE)
    kw.setdefault('stderr', subprocess.STDOUT)
    p = subprocess.Popen(cmd, start_new_session=True, errors='replace', **kw)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return None, out


class Context:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == 'thorough'
        self.work = os.path.join(VERIF, 'work', '%s-%d' % (pid, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.replays = os.path.join(VERIF, 'replays')
        os.makedirs(self.replays, exist_ok=True)
        self._sources = None
        self.phases = []            # evidence of every phase
        self.notes = []
        self.t0 = time.time()

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)

    def constants(self):
        """The literals of the library's sources, for the generators (gen.hpp): a hint where to look."""
        path = os.path.join(self.work, 'constants.txt')
        found, tables = {}, {}
        for f in sorted(glob.glob(REPO + '/src/**/*.*pp', recursive=True) + glob.glob(REPO + '/include/**/*.*pp', recursive=True)):
            try:
                with open(f, errors='replace') as g:
                    text = g.read()
            except OSError:
                continue
            text = re.sub(r'//[^\n]*|/\*.*?\*/|^[ \t]*#[ \t]*include[^\n]*', ' ', text, flags=re.S | re.M)
            parts = re.split(r'(\{[^{};]*\})', text)
            for part in parts:
                into = tables if part.startswith('{') and part.count(',') > 8 else found
                for m in re.finditer(r"\"((?:[^\"\\\n]|\\.)*)\"|'((?:[^'\\\n]|\\.)+)'|(?<![\w.])((?:0[xX][0-9a-fA-F']+|[0-9][0-9']*\.?[0-9]*(?:[eE][+-]?[0-9]+)?|\.[0-9]+(?:[eE][+-]?[0-9]+)?))[a-zA-Z]*", part):
                    t = m.group(1) if m.group(1) is not None else m.group(2)
                    if t is not None:
                        try:
                            b = t.encode('latin-1', 'replace').decode('unicode_escape').encode('latin-1', 'replace')
                        except ValueError:
                            continue
                        if 0 < len(b) <= 200:
                            into[('s', b.hex())] = 1
                            if len(b) == 1:
                                into[('i', b[0])] = 1
                        continue
                    n = m.group(3).replace("'", '')
                    try:
                        v = int(n, 8 if re.fullmatch('0[0-7]+', n) else 0)
                        into[('i', v & (1 << 64) - 1)] = 1
                    except ValueError:
                        try:
                            into[('d', struct.unpack('<Q', struct.pack('<d', float(n)))[0])] = 1
                        except (ValueError, OverflowError):
                            pass
        with open(path, 'w') as f:
            for k in sorted(found):
                f.write('%s %s\n' % k * 8)
            for k in sorted(set(tables) - set(found)):
                f.write('%s %s\n' % k)
        ENV['LEXI_CONSTS'] = path
        return found, tables

    def dictionary(self):
        """The same for libFuzzer."""
        path = os.path.join(self.work, 'constants.dict')
        if not os.path.exists(path):
            found, tables = self.constants()
            with open(path, 'w') as f:
                for kind, v in sorted(found):
                    forms = [bytes.fromhex(v)] if kind == 's' else [struct.pack('<Q', v)]
                    if kind == 'i':
                        forms.append(struct.pack('<d', float(v)))
                    for b in forms:
                        f.write('"%s"\n' % ''.join('\\x%02x' % c for c in b[:60]))
        return path

    def replay_path(self, tag):
        return os.path.join(self.replays, '%s-%s.txt' % (self.pid, tag))

    # -------------------------------------------------------------- building
    def sources(self):
        """The library's source files, as its own build system lists them."""
        if self._sources is None:
            b = os.path.join(self.work, 'cmake')
            rc, out = run(['cmake', '-S', REPO, '-B', b, '-G', 'Ninja', '-DBUILD_TESTS=OFF',
                           '-DCMAKE_POLICY_VERSION_MINIMUM=3.5', '-DCMAKE_EXPORT_COMPILE_COMMANDS=ON',
                           '-DCMAKE_CXX_COMPILER=g++', '-DCMAKE_CXX_COMPILER_WORKS=1',
                           '-DCMAKE_CXX_FLAGS=-include cstdint'], timeout=120)
            files = []
            try:
                with open(os.path.join(b, 'compile_commands.json')) as f:
                    for e in json.load(f):
                        p = os.path.normpath(os.path.join(e['directory'], e['file']))
                        if p not in files:
                            files.append(p)
            except (OSError, ValueError):
                files = []
            if rc != 0 or not files:
                files = sorted(glob.glob(REPO + '/src/**/*.cpp', recursive=True))
            self._sources = files
        return self._sources

    def compile_all(self, jobs):
        """jobs: list of (command, what).  Raises Broken when one fails."""
        def one(j):
            rc, out = run(j[0], timeout=600)
            return j, rc, out
        with ThreadPoolExecutor(JOBS) as ex:
            for j, rc, out in ex.map(one, jobs):
                if rc != 0:
                    raise Broken('cannot compile %s:\n%s\n%s' % (j[1], ' '.join(j[0]), out[-4000:]))

    def build(self, harness, flavours, defs='', prelude=None, lib_defs='', tag='', extra_link=''):
        """Build the harness in the given flavours; returns {flavour: binary}."""
        srcs = self.sources()
        jobs, links, bins = [], [], {}
        inc = ['-I' + os.path.join(REPO, 'include'), '-I' + HARNESS]
        for fl in flavours:
            cxx, flags, link = FLAVOURS[fl]
            lib = 'san' if fl == 'fuzz' else fl         # one library serves both
            libflags = FLAVOURS[lib][1].split()
            d = os.path.join(self.work, 'obj-' + lib + tag)
            objs = []
            os.makedirs(d, exist_ok=True)
            for i, s in enumerate(srcs):
                o = os.path.join(d, '%d-%s.o' % (i, os.path.basename(s)))
                objs.append(o)
                cmd = [cxx, '-std=c++14', '-fPIC', '-w', '-include', 'cstdint'] + libflags + lib_defs.split()
                if prelude:
                    cmd += ['-include', prelude]
                cmd += ['-I' + os.path.join(REPO, 'include'), '-c', s, '-o', o]
                if not any(j[0] == cmd for j in jobs):
                    jobs.append((cmd, s))
            ho = os.path.join(self.work, '%s-%s%s.o' % (os.path.basename(harness), fl, tag))
            hcmd = [cxx, '-std=c++17', '-w', '-include', 'cstdint'] + flags.split() + defs.split()
            if fl == 'fuzz':
                hcmd += ['-fsanitize=fuzzer-no-link', '-DPBT_FUZZ']
            hcmd += inc + ['-c', os.path.join(HARNESS, harness), '-o', ho]
            jobs.insert(0, (hcmd, harness))
            out = os.path.join(self.work, '%s-%s%s' % (os.path.splitext(harness)[0], fl, tag))
            lflags = [f for f in flags.split() if f.startswith('-fsanitize') and 'fuzzer-no-link' not in f]
            links.append(([cxx] + lflags + link.split() + [ho] + objs + ['-o', out, '-pthread'] + extra_link.split(), out))
            bins[fl] = out
        t = time.time()
        self.compile_all(jobs)
        self.compile_all(links)
        log('built %s [%s] in %.1f s' % (harness, ' '.join(flavours), time.time() - t))
        return bins

    # --------------------------------------------------------------- running
    def pbt(self, binary, flavour, scale=1.0, only=None, budget=None, workers=None, meta='', env=None, stall=40, sweeps=True, wrap=(), tag=None):
        """Run all generated cases and sweeps of a harness binary."""
        tag = (tag or flavour) + (('-' + only) if only else '')
        out = os.path.join(self.work, 'stats-%s.json' % tag)
        rep = self.replay_path(tag)
        if os.path.exists(rep):
            os.unlink(rep)
        err = os.path.join(self.work, 'err-' + tag)
        os.makedirs(err, exist_ok=True)
        if budget is None:
            budget = 3000 if self.thorough else max(15, min(240, 480 - (time.time() - self.t0)))    # in case everything is slow
        cmd = list(wrap) + [binary, 'run', '--seed', str(self.seed), '--tier', self.tier, '--workers', str(workers or JOBS),
               '--scale', str(scale), '--budget', str(budget), '--out', out, '--replay', rep, '--errdir', err,
               '--stall', str(stall), '--sweeps', '1' if sweeps else '0']
        if only:
            cmd += ['--only', only]
        e = dict(ENV)
        e.update(env or {})
        rc, text = run(cmd, timeout=budget * 2 + 600, env=e)
        if text.strip():
            log(text.strip())
        try:
            st = json.load(open(out))
        except (OSError, ValueError):
            st = {}
        st['phase'] = 'generated cases%s, %s build%s' % (' and sweeps' if sweeps else '', flavour, ' under ' + wrap[0] if wrap else '')
        self.phases.append(st)
        if rc == 1:
            with open(rep, 'a') as f:
                f.write('property %s\nflavour %s\n%s' % (self.pid, flavour, meta))
            raise Violation(text.strip(), rep)
        if rc != 0:
            raise Broken('%s ended with %s: %s' % (' '.join(cmd), rc, text[-2000:]))
        log('%s%s: %d evaluations, %d non-trivial, %.1f s' % (flavour, ' under ' + wrap[0] if wrap else '', st.get('evaluations', 0), st.get('nontrivial', 0), st.get('wall_s', 0)))
        return st

    def fuzz(self, bins, subs, seconds, runs=100000000, max_len=64, procs=None, meta=''):
        """Coverage-guided search with libFuzzer; subs get the processes in turn."""
        procs = procs or JOBS
        t0 = time.time()
        ps = []
        for i in range(procs):
            sub = subs[i % len(subs)]
            d = os.path.join(self.work, 'fuzz%d' % i)
            os.makedirs(os.path.join(d, 'corpus'))
            env = dict(ENV, PBT_SUB=sub)
            cmd = [bins['fuzz'], '-seed=%d' % (self.seed * 1000 + i + 1), '-max_total_time=%d' % seconds, '-runs=%d' % runs,
                   '-max_len=%d' % max_len, '-use_value_profile=%d' % (1 - i % 2 if procs > 1 else 1), '-len_control=20', '-timeout=20',
                   '-rss_limit_mb=3000', '-artifact_prefix=' + d + '/', '-print_final_stats=1', '-verbosity=0']
            if self.dictionary():
                cmd.append('-dict=' + self.dictionary())
            cmd.append(os.path.join(d, 'corpus'))
            f = open(os.path.join(d, 'log'), 'w')
            ps.append((subprocess.Popen(cmd, env=env, stdout=f, stderr=subprocess.STDOUT, cwd=d, start_new_session=True), d, sub))
        execs = corpus = 0
        per = {}
        found = None
        try:
            for p, d, sub in ps:
                try:
                    rc = p.wait(timeout=max(1, seconds + 120 - (time.time() - t0)))
                except subprocess.TimeoutExpired:
                    rc = None
                with open(os.path.join(d, 'log'), errors='replace') as f:
                    text = f.read()
                m = re.search(r'number_of_executed_units:\s*(\d+)', text)
                n = int(m.group(1)) if m else 0
                execs += n
                per[sub] = per.get(sub, 0) + n
                corpus += len(os.listdir(os.path.join(d, 'corpus')))
                art = [a for a in glob.glob(d + '/*') if re.search(r'/(crash|timeout|oom)-', a)]
                if art and found is None:
                    found = (sub, art[0], text)
        finally:
            for p, d, sub in ps:
                if p.poll() is None:
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except OSError:
                        pass
                    p.wait()
        st = {'phase': 'coverage-guided (libFuzzer, ASan+UBSan)', 'evaluations': execs, 'executions_by_target': per,
              'inputs_with_new_coverage': corpus, 'wall_s': round(time.time() - t0, 1)}
        self.phases.append(st)
        log('fuzz: %d executions, %d inputs with new coverage, %.1f s' % (execs, corpus, time.time() - t0))
        if found:
            sub, art, text = found
            rep = self.replay_path('fuzz')
            err = os.path.join(self.work, 'err-bytes')
            os.makedirs(err, exist_ok=True)
            rc, out = run([bins['san'], 'bytes', '--sub', sub, '--file', art, '--replay', rep, '--errdir', err], timeout=300)
            log(out.strip())
            if rc == 1:
                with open(rep, 'a') as f:
                    f.write('property %s\nflavour san\n%s' % (self.pid, meta))
                raise Violation(out.strip(), rep)
            self.notes.append('libFuzzer stopped on an input that does not fail on its own: ' + text[-600:])
            log(self.notes[-1])
        return st


# ------------------------------------------------------------------ evidence
def write_evidence(ctx, level, rule, violations, assumptions, extra=None):
    ev = sum(p.get('evaluations', 0) for p in ctx.phases)
    dn = sum(p.get('distinct_hashed', 0) + p.get('distinct_enumerated', 0) for p in ctx.phases)
    samples = []
    for p in ctx.phases:
        for n, s in p.get('subs', {}).items():
            for x in s.get('samples', [])[:2]:
                samples.append('%s: %s' % (n, x))
        samples += p.get('samples', [])[:6]
    cov = {'evaluations': ev, 'distinct_nontrivial': dn, 'rule': rule, 'samples': [x if len(x) <= 800 else x[:800] + ' ... (%d characters in all)' % len(x) for x in map(str, samples[:40])] or ['none: the run ended before a sample was kept'],
           'phases': ctx.phases}
    if extra:
        cov.update(extra)
    if ctx.notes:
        cov['notes'] = ctx.notes
    e = {'property': ctx.pid, 'tier': ctx.tier, 'seed': ctx.seed, 'level': level, 'coverage': cov,
         'assumptions': assumptions, 'wall_s': round(time.time() - ctx.t0, 2), 'violations': violations}
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, '.%s.%d' % (ctx.pid, os.getpid()))
    with open(tmp, 'w') as f:
        json.dump(e, f, indent=1)
    os.replace(tmp, os.path.join(d, ctx.pid + '.json'))


def known_findings(pid):
    """Lines 'KNOWN property=<id> ...' of the committed file; 'fixed:' lines suppress nothing."""
    out = []
    try:
        with open(os.path.join(VERIF, 'known-findings.txt')) as f:
            for l in f:
                m = re.match(r'known: property=(\S+) (.*)', l.strip())
                if m and m.group(1) == pid:
                    out.append(m.group(2))
    except OSError:
        pass
    return out


def main(argv):
    import checks
    if not argv or argv[0] not in checks.CHECKS:
        print('usage: check.py %s [--replay FILE]' % '|'.join(checks.CHECKS))
        return 2
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    try:
        seed = int(os.environ.get('VERIF_SEED', '1')) or 1
    except ValueError:
        seed = 1
    seed = abs(seed) % (1 << 31) or 1
    chk = checks.CHECKS[pid]
    ctx = Context(pid, tier, seed)
    ctx.constants()
    try:
        if '--replay' in argv:
            return checks.replay(ctx, chk, os.path.abspath(argv[argv.index('--replay') + 1]))
        try:
            chk['run'](ctx)
        except Violation as v:
            write_evidence(ctx, 'exploration', chk['rule'], 1, chk['assume'])
            log('VIOLATION property=%s replay=%s' % (pid, v.replay))
            return 1
        for k in known_findings(pid):
            log('KNOWN-FINDING: property=%s %s' % (pid, k))
        write_evidence(ctx, 'exploration', chk['rule'], 0, chk['assume'])
        log('OK property=%s tier=%s seed=%d wall=%.1fs' % (pid, tier, seed, time.time() - ctx.t0))
        return 0
    except Broken as b:
        log('CHECK-ERROR property=%s: %s' % (pid, b))
        return 2
    finally:
        if not os.environ.get('LEXI_KEEP'):
            ctx.close()
