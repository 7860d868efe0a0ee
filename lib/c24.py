"""C24: generated calls under locales compiled for the purpose."""
from engine import *

# name, source, character map: radix characters, grouping and encodings of all kinds
LOCALES = [('de_DE.utf8', 'de_DE', 'UTF-8'), ('fr_FR.utf8', 'fr_FR', 'UTF-8'), ('ps_AF.utf8', 'ps_AF', 'UTF-8'), ('de_CH.utf8', 'de_CH', 'UTF-8'), ('hi_IN.utf8', 'hi_IN', 'UTF-8'),
           ('tr_TR.iso88599', 'tr_TR', 'ISO-8859-9'), ('de_DE.iso88591', 'de_DE', 'ISO-8859-1'), ('ru_RU.koi8r', 'ru_RU', 'KOI8-R'), ('ar_EG.utf8', 'ar_EG', 'UTF-8'), ('ja_JP.eucjp', 'ja_JP', 'EUC-JP'),
           ('en_US.utf8', 'en_US', 'UTF-8'), ('fa_IR.utf8', 'fa_IR', 'UTF-8'), ('pt_BR.iso88591', 'pt_BR', 'ISO-8859-1')]


def locales(ctx):
    d = os.path.join(ctx.work, 'locales')
    os.makedirs(d)
    made = []

    def one(l):
        rc, out = run(['localedef', '--no-archive', '-c', '-i', l[1], '-f', l[2], os.path.join(d, l[0])], timeout=120)
        return os.path.isfile(os.path.join(d, l[0], 'LC_NUMERIC'))
    if shutil.which('localedef'):
        with ThreadPoolExecutor(JOBS) as ex:
            made = [l[0] for l, ok in zip(LOCALES, ex.map(one, LOCALES)) if ok]
    if not made:
        ctx.notes.append('no locale could be compiled: C++ locales of our own and C.utf8 only')
        log(ctx.notes[-1])
    return {'LOCPATH': d, 'C24_LOCALES': ' '.join(made)}, made


def use(ctx):
    """The locales for whatever this check runs."""
    env, made = locales(ctx)
    ENV.update(env)
    return made


def go(ctx):
    env, made = locales(ctx)
    bins = ctx.build('c24.cpp', ['fast', 'san', 'fuzz'])
    log('locales: ' + ' '.join(made))
    st = ctx.pbt(bins['fast'], 'fast', env=env)
    st['locales'] = made
    ENV.update(env)                     # for libFuzzer and the shrinking of what it finds
    ctx.fuzz(bins, ['formatting', 'texts', 'fractions', 'across'], 300 if ctx.thorough else 10, max_len=64)


def replay(ctx, path, meta):
    env, made = locales(ctx)
    fl = meta.get('flavour', 'fast')
    bins = ctx.build('c24.cpp', [fl])
    rc, out = run([bins[fl], 'replay', '--file', path, '--errdir', ctx.work], timeout=900, env=dict(ENV, **env))
    log(out.strip())
    if rc == 1:
        log('VIOLATION property=%s replay=%s' % (ctx.pid, path))
    return rc


go.replay = replay
