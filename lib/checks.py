"""One entry per property: how its check runs, and what its evidence says."""
import json, os, sys
from engine import *

CHECKS = {}


def add(pid, run, rule, assume=()):
    CHECKS[pid] = {'run': run, 'rule': rule, 'assume': list(assume)}


def standard(harness, flavours, fuzz=None, fuzz_s=12, max_len=64, scales=None):
    """Generated cases and sweeps in some flavours, then libFuzzer."""
    def go(ctx):
        need = [f for f in flavours]
        if fuzz:
            for f in ('san', 'fuzz'):
                if f not in need:
                    need.append(f)
        bins = ctx.build(harness, need)
        for f in flavours:
            ctx.pbt(bins[f], f, scale=(scales or {}).get(f, 1.0))
        if fuzz:
            ctx.fuzz(bins, fuzz, 300 if ctx.thorough else fuzz_s, max_len=max_len)
    go.harness = harness
    return go


def replay(ctx, chk, path):
    meta = {}
    with open(path, errors='replace') as f:
        for l in f:
            k, _, v = l.rstrip('\n').partition(' ')
            meta.setdefault(k, v)
    fl = meta.get('flavour', 'san')
    go = chk['run']
    if hasattr(go, 'replay'):
        return go.replay(ctx, path, meta)
    bins = ctx.build(go.harness, [fl])
    return replay_binary(ctx, bins[fl], path)


def replay_binary(ctx, binary, path, env=None, wrap=()):
    rc, out = run(list(wrap) + [binary, 'replay', '--file', path, '--errdir', ctx.work], timeout=900, env=dict(ENV, **(env or {})))
    log(out.strip())
    if rc == 1:
        log('VIOLATION property=%s replay=%s' % (ctx.pid, path))
    return rc


GEN = 'Cases are drawn by the generators in harness/gen.hpp from VERIF_SEED; '

add('C01', standard('c01.cpp', ['fast'], fuzz=['any_integer', 'raw_integer'], max_len=32),
    GEN + 'all 8-, 16- and 32-bit values are swept, 64-bit values are generated with decimal and binary structure. '
    'Non-trivial: the value has at least five digits, or belongs to a sweep. Distinct: swept values, plus hashes of the first 400000 '
    'non-trivial generated cases of each worker and sub-property.',
    ['g++ 13 and clang 18 on x86-64, LP64', 'the oracle is repeated division by ten'])

add('C02', standard('c02.cpp', ['fast'], fuzz=['any_integer', 'raw_integer'], max_len=32),
    GEN + 'all 8- and 16-bit values are swept in eight spellings, blocks of 32-bit values sampled (all of them when thorough), 64-bit values '
    'generated with decimal and binary structure and 0 to 600 leading zeros. Non-trivial: at least three digits, leading zeros or a plus sign.',
    ['the oracle spells the value by repeated division', 'texts spell values of the requested type; others are covered by C03'])

add('C03', standard('c03.cpp', ['fast'], fuzz=['number_then_junk', 'junk_around', 'raw_text'], max_len=64),
    GEN + 'all texts of up to five characters over an 18-letter alphabet and all one- and two-byte texts are swept. '
    'Non-trivial: at least two bytes.',
    ['the oracle is a prefix parser of its own, with std::from_chars and exact integers for values',
     'texts whose prefix is a hexadecimal, infinity or NaN spelling of the C library, and out-of-range numbers, are only required not to throw'])

add('C04', standard('c04.cpp', ['fast'], fuzz=['any_double', 'raw_double'], max_len=32),
    GEN + 'all 2047 exponents are swept with structured mantissas, short decimals with their neighbours, and doubles whose boundaries lie next to '
    'short decimals are found by a Euclid-like search. Non-trivial: not zero.',
    ['std::from_chars reads correctly; when it disagrees, exact integer arithmetic (Boost cpp_int) decides'])

add('C05', standard('c05.cpp', ['fast'], fuzz=['any_double', 'raw_double'], max_len=32),
    GEN + 'all exponents and short decimals are swept, and doubles next to short decimals are searched for. Non-trivial: not zero.',
    ['digits equal to the shortest closest ones of std::to_chars are right; others are judged with exact integers against the margins in the statement'])

add('C06', standard('c06.cpp', ['fast'], fuzz=['any_double', 'raw_double', 'digits_at_magnitude'], max_len=32),
    GEN + 'all sign and exponent patterns, the neighbours of the powers of ten where the layout changes, and all decimal exponents are swept. '
    'Non-trivial: not zero.', ['the layout is rebuilt from the digits and exponent read from the text; which digits are right is C04 and C05'])

add('C07', standard('c07.cpp', ['fast'], fuzz=['any_float', 'any_long_double', 'raw_long_double'], max_len=32),
    GEN + 'blocks of 65536 floats are sampled (all 2^32 when thorough), long doubles generated at and around midpoints of doubles and at the ends of the range. '
    'Non-trivial: not zero.', ['long double is the 80-bit format', 'rounding to double is done with integers of our own'])

add('C08', standard('c08.cpp', ['fast'], fuzz=['any_numeral', 'double_midpoints', 'float_midpoints', 'range_ends', 'double_rounding'], max_len=96),
    GEN + 'numerals of 1 to 1500 digits, exact expansions of midpoints between neighbouring floats of each type and texts a hair beside them, '
    'and the ends of the ranges, spelled in varied ways. Non-trivial: every generated numeral.',
    ['exact integer arithmetic (Boost cpp_int) decides unless std::from_chars agrees', 'the rounding mode is to nearest'])

add('C09', standard('c09.cpp', ['fast'], fuzz=['any_value', 'raw_value', 'any_double', 'raw_double'], max_len=32),
    GEN + '29 types (integers, enumerations over all underlying types, stream positions, char, bool, null) and float, double, long double. '
    'Non-trivial: at least two digits, or a non-zero float.', ['long doubles are formatted with the precision of double, so they are read back as double'])

add('C10', standard('c10.cpp', ['fast'], fuzz=['edited_literals', 'raw_text', 'long_texts'], max_len=40),
    GEN + 'all texts at edit distance one of a literal, all case changes, all texts of up to two bytes and all four- and five-letter words over the '
    'letters of the literals are swept. Non-trivial: the text is not a literal.', ['the default literals; configured ones are C19'])

add('C11', standard('c11.cpp', ['fast'], fuzz=['any_text', 'raw_text'], max_len=300),
    GEN + 'all texts of up to three bytes, and every byte at three positions of texts of 1 to 300 bytes, are swept. '
    'Non-trivial: at least two bytes.', ['a byte-wise model of the documented set: all of ASCII below 0x7f but letters and digits'])

add('C12', standard('c12.cpp', ['fast'], fuzz=['any_text', 'raw_text'], max_len=300),
    GEN + 'all texts of up to three bytes, and every byte at three positions of texts of 1 to 300 bytes, are swept. '
    'Non-trivial: at least two bytes.', ['a byte-wise model and a strict decoder of JSON strings; hexadecimal digits may have either case'])

add('C13', standard('c13.cpp', ['fast'], fuzz=['any_value', 'any_float', 'raw_value'], max_len=32),
    GEN + '24 types and three float types; all exponents and 16-bit patterns are swept. Non-trivial: at least two digits, or a non-zero float.',
    ['the number grammar of RFC 8259', 'NaN and infinities are only required to have equal forms'])

add('C14', standard('c14.cpp', ['fast'], fuzz=['any_value', 'any_float', 'raw_value'], max_len=32),
    GEN + 'objects are built on memory with generated contents, between guard bytes. Non-trivial: at least two digits, or a non-zero float.',
    ['texts of integers, characters, booleans and null are known to the model; of floats, that the text is the whole number'])

C15_SUBS = ['int_objects', 'float_objects', 'enum_objects', 'char_objects', 'base_objects', 'members', 'extractors', 'bool_objects']
add('C15', standard('c15.cpp', ['fast', 'san'], fuzz=C15_SUBS, max_len=400, scales={'san': 0.1}),
    GEN + 'histories of up to 40 operations over up to 7 objects and a vector; memory of destroyed objects is overwritten and freed. '
    'Non-trivial: the history copies, moves or assigns.', ['AddressSanitizer sees uses of memory that is gone in the sanitized builds'])


def c16(ctx):
    c24.use(ctx)
    bins = ctx.build('c16.cpp', ['fast'])
    ctx.pbt(bins['fast'], 'fast')
    bins = ctx.build('c16.cpp', ['tsan'], defs='-DTSAN', tag='t')
    rc, out = run([bins['tsan'], 'list'], timeout=60)
    if rc != 0:
        ctx.notes.append('ThreadSanitizer does not start here (%s); threads ran without it only' % out.strip()[-200:])
        log(ctx.notes[-1])
        return
    ctx.pbt(bins['tsan'], 'tsan', workers=4)


def c16_replay(ctx, path, meta):
    c24.use(ctx)
    fl = meta.get('flavour', 'fast')
    bins = ctx.build('c16.cpp', [fl], defs='-DTSAN' if fl == 'tsan' else '')
    return replay_binary(ctx, bins[fl], path)


c16.replay = c16_replay
add('C16', c16,
    GEN + 'histories of up to 200 calls of 36 kinds, drawn from small pools of related arguments, with objects kept alive and errno in any state, each '
    'result compared with the same call made alone in a new process; histories of 300000 calls; threads in new processes, on arguments of their own and on shared constant objects, '
    'also under ThreadSanitizer. Non-trivial: at least two calls.',
    ['interleavings of threads are those the scheduler happens to produce; ThreadSanitizer sees unsynchronised accesses in any of them'])

VALGRIND = ['valgrind', '-q', '--exit-on-first-error=yes', '--error-exitcode=76', '--trace-children=yes']
C17_FUZZ = ['numbers', 'raw_numbers', 'any_text', 'raw_text', 'big_integers']


def c17(ctx):
    c24.use(ctx)
    bins = ctx.build('c17.cpp', ['san', 'fuzz'])
    ctx.pbt(bins['san'], 'san')
    ctx.fuzz(bins, C17_FUZZ, 300 if ctx.thorough else 12, max_len=200)
    if not shutil.which('valgrind'):
        ctx.notes.append('valgrind is not installed; undefined bytes were not looked for')
        return
    bins = ctx.build('c17.cpp', ['fast'], defs='-DMEMCHECK', tag='m')
    ctx.pbt(bins['fast'], 'fast', scale=0.02, sweeps=False, wrap=VALGRIND, stall=200, tag='memcheck')


def c17_replay(ctx, path, meta):
    c24.use(ctx)
    fl = meta.get('flavour', 'san')
    bins = ctx.build('c17.cpp', [fl], defs='-DMEMCHECK' if fl == 'fast' else '')
    return replay_binary(ctx, bins[fl], path, wrap=VALGRIND if fl == 'fast' else ())


c17.replay = c17_replay
add('C17', c17,
    GEN + 'every input is put in a heap block of exactly its size, and every result is read in full; exponents, decimal exponents and short texts are swept. '
    'Non-trivial: at least two bytes, or a number of at least two digits.',
    ['AddressSanitizer and UndefinedBehaviorSanitizer of clang 18 see the accesses at -O1; valgrind sees decisions on undefined bytes at -O2'])

import c18
add('C18', c18.go,
    'Programs are generated from VERIF_SEED (lib/c18.py), 60 calls each: a type of 29 integer names, enumerations, characters, booleans, floats, null, stream '
    'positions, strings and arrays; a way to hold the value; a function; compiled with g++ and clang++ as C++14, 17 and 20. '
    'Non-trivial: every item (one call with its declarations); distinct: by the seed of the item.',
    ['the texts expected come from a model of the forms in Python', 'floats are dyadic fractions, whose digits are not in question'])

import c19
add('C19', c19.go,
    'Configurations of the six literals are generated from VERIF_SEED (lengths 0 to 63, 0 to 29 for floats; any bytes but null; prefixes of each other; '
    'some left as they are); the library is built with each, and generated values and texts near the literals are formatted and extracted. '
    'Non-trivial: every case; distinct: by text or value within a configuration.',
    ['true and false are configured differently', 'a compilation result is reused when the preprocessed source is the same'])

add('C20', standard('c20.cpp', ['fast'], scales={'fast': 0.5}, fuzz=['histories', 'differences', 'decimals', 'products', 'shifts'], max_len=300),
    GEN + 'histories of up to 40 operations over three big integers, operands with runs of zeros and ones; all pairs of five-word values over four words, '
    'all powers of five and two in range are swept. Non-trivial: at least one operation.',
    ['Boost cpp_int is the model', 'an object whose operation threw is not used any more'])

add('C22', standard('c22.cpp', ['fast'], fuzz=['any_double', 'raw_bits', 'extreme_exponents'], max_len=32, fuzz_s=8),
    GEN + 'every sign and exponent with all mantissas of up to three bits set or cleared is swept, and the neighbours of every power of two of the pattern. '
    'Non-trivial: every pattern.', ['the fields of the pattern decide'])

add('C25', standard('c25.cpp', ['fast'], fuzz=['doubles', 'products', 'ties', 'normals'], max_len=32, fuzz_s=10),
    GEN + 'every exponent is swept with structured significands, every power of ten, and products are generated at and next to the middle between two results. '
    'Non-trivial: not zero.',
    ['128-bit integers and Boost cpp_int are the model', 'significands to normalize have up to 53 bits (54 as boundaries), as those of doubles have; powers are asked from 0 to 308'])

import c23
add('C23', c23.go,
    'Translation units are generated from VERIF_SEED (lib/c23.py): headers in random order and number, between standard headers, with uses of what the included '
    'headers declare; one to four units, of either compiler and any of three standards, are linked with the library and run. Every header is also compiled alone in '
    'all configurations. Non-trivial: every unit; distinct: by its seed.',
    ['GCC 13 and Clang 18 with libstdc++'])

import c24
add('C24', c24.go,
    GEN + 'calls of 36 kinds are made in the C locale and again under one of 15 C locales (setlocale of all or one category, uselocale), C++ locales (named, or with '
    'punctuation of our own) and, for formatting, the four rounding modes; every byte around numbers and every character is swept in every locale. '
    'Non-trivial: every case.', ['the locales are compiled from the sources of the system with localedef', 'the rounding mode is to nearest when text is extracted'])

import c21
add('C21', c21.go,
    GEN + 'twenty-three builds of the library (two compilers, four optimisation levels, patterns in uninitialised variables, unsigned char, and the code paths of other platforms, chosen by '
    'taking away or defining the macros they test) are linked into one program and given the same inputs. Non-trivial: every case.',
    ['the paths of other platforms run on x86-64, with stand-ins for the intrinsics of Microsoft\'s compiler', 'where long is taken to have 32 bits, only longs that fit are formatted',
     'significands to normalize have up to 53 bits'])


def c26(ctx):
    env, made = c24.locales(ctx)
    bins = ctx.build('c26.cpp', ['fast'], defs='-fno-builtin', lib_defs='-O0')   # -O2 does away with some requests
    st = ctx.pbt(bins['fast'], 'fast', env=env)
    st['locales'] = made


def c26_replay(ctx, path, meta):
    env, made = c24.locales(ctx)
    bins = ctx.build('c26.cpp', ['fast'], defs='-fno-builtin', lib_defs='-O0')   # -O2 does away with some requests
    return replay_binary(ctx, bins['fast'], path, env=env)


c26.replay = c26_replay
add('C26', c26,
    GEN + 'every call is made with all memory first, to count its requests, and then once for each request refused, alone and with all later ones. '
    'Non-trivial: every call; evaluations count the attempts with a request refused.',
    ['malloc and its relatives are replaced in the test program; operator new of libstdc++ calls malloc', 'calls that ask for more than 40 blocks have the first 40 refused'])


def c28(ctx):
    c24.use(ctx)
    bins = ctx.build('c28.cpp', ['fast'], defs='-fno-builtin', lib_defs='-O0')
    ctx.pbt(bins['fast'], 'fast', workers=max(1, JOBS // 2))


def c28_replay(ctx, path, meta):
    c24.use(ctx)
    bins = ctx.build('c28.cpp', ['fast'], defs='-fno-builtin', lib_defs='-O0')
    return replay_binary(ctx, bins['fast'], path)


c28.replay = c28_replay
add('C28', c28,
    GEN + 'texts of 1 kB to 8 MB (100 MB when thorough) made of runs of short units, with heads and tails of numbers, are given to 18 operations in a thread with a stack of 128 kB; every byte a million times is swept; half of them in locales with other radix characters. '
    'Non-trivial: every text.',
    ['bounds: 0.5 s and 400 ns a byte of processor time (about fifty times what the library takes unoptimised), 1 MB and 64 bytes a byte of memory at the peak, 128 kB of stack'])


import c27
add('C27', c27.go,
    'Programs are laid out from VERIF_SEED (lib/c27.py): units that make calls in static constructors and destructors of three priorities, constructor and destructor functions, '
    'exit handlers, threads and thread_local objects before, during and after main; the files of the library between them in any order, in an archive, a shared library or a plug-in; '
    'two compilers, two optimisation levels, four ways to end. Each makes the same 230 calls, on values that follow from a seed. Evaluations: stages, each compared with main. Non-trivial: every stage.',
    ['GCC 13 and Clang 18 with glibc and a shared libstdc++'])


def c29(ctx):
    c24.use(ctx)
    bins = ctx.build('c29.cpp', ['fast'], defs='-fno-builtin', lib_defs='-O0')
    st = ctx.pbt(bins['fast'], 'fast')
    if 'no steps: ' in json.dumps(st):
        raise Broken('this machine does not step through code')


add('C29', c29,
    GEN + 'a call is run one instruction at a time, by the trap flag of the processor, and the handler of the trap makes other calls: after every instruction, after every eighth on average, or after one. '
    'Evaluations: calls made in the handler. Non-trivial: every case; half have an interrupting call of the kind of the interrupted one, with another value.',
    ['requests for memory are served by an allocator of the harness that may be interrupted', 'calls that throw are left out', 'what the library sets up at the first call is set up before'])


def c30(ctx):
    env, made = c24.locales(ctx)
    bins = ctx.build('c30.cpp', ['fast'], lib_defs='-O0')
    for sub in ('first_calls', 'single_calls', 'sequences'):            # the first must find the library unused
        st = ctx.pbt(bins['fast'], 'fast', env=env, only=sub)
    st['locales'] = made


def c30_replay(ctx, path, meta):
    env, made = c24.locales(ctx)
    return replay_binary(ctx, ctx.build('c30.cpp', ['fast'], lib_defs='-O0')['fast'], path, env=env)


c30.replay = c30_replay
add('C30', c30,
    GEN + 'the state of the process (locales, rounding mode and control words, signal mask and handlers, environment, standard streams and their format, open files, directory, umask, limits, timers, threads, '
    'errno for formatting, rand and strtok) is set at random, and compared before and after one call or up to nine; output goes to a file that must stay empty; calls that change what threads share (setlocale, setenv, chdir, sigaction) are noted while the library runs. Non-trivial: every case.',
    ['flags of floating-point exceptions that have occurred, and errno after extraction, may change'])

import c31
add('C31', c31.go,
    'Programs are generated from VERIF_SEED (lib/c31.py): 10 to 40 names, taken from the sources of the library, the standard library and common use, are declared as functions, variables, types, templates, '
    'enumerators, namespaces and macros, before and after the headers; what cannot stand beside the standard headers alone is taken out first. Evaluations: names declared. Non-trivial: every one.',
    ['the public headers (not those in detail)', 'macros of the program come after the headers', 'names that begin with LEXI_ belong to the library'])
