"""Writes MANIFEST.json."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
 'C01': ('exhaustive sweeps of 8/16/32-bit values, generated 64-bit values, libFuzzer; oracle: division by ten', 'All 8-, 16- and 32-bit values are decided; 64-bit ones are sampled with decimal and binary structure.'),
 'C02': ('generated numerals and sweeps, libFuzzer; round trip with an own speller', 'All 8- and 16-bit values in eight spellings; wider values sampled (all 32-bit ones when thorough).'),
 'C03': ('grammar-based generated texts, exhaustive short texts, libFuzzer; oracle: an own prefix parser', 'All texts of up to five characters over the alphabet of numbers; longer ones sampled.'),
 'C04': ('generated and searched hard doubles, sweeps, libFuzzer; round trip through std::from_chars and exact integers', 'Doubles are sampled, with a search for those whose boundaries are hardest. Trusts std::from_chars only where it agrees.'),
 'C05': ('generated and searched hard doubles, libFuzzer; oracle: shortest digits of std::to_chars, exact-integer margins', 'Doubles are sampled. The margin in the statement is that of Grisu2.'),
 'C06': ('generated doubles at layout changes, sweeps, libFuzzer; oracle: layout rebuilt from digits', 'Every exponent is swept, mantissas are sampled.'),
 'C07': ('generated floats and long doubles, blocks swept, libFuzzer; metamorphic relation to the text of the double', 'Floats: all 2^32 when thorough, a sample of blocks when quick. Long doubles are sampled around midpoints.'),
 'C08': ('generated numerals at midpoints and range ends, libFuzzer; oracle: exact integer arithmetic', 'Texts are sampled where rounding is hardest. glibc does the conversion today.'),
 'C09': ('generated values of 32 types, libFuzzer; round trip', 'All values of small types; wider ones sampled.'),
 'C10': ('exhaustive texts near literals, generated texts, libFuzzer; oracle: equality', 'All texts at edit distance one and all case changes; longer texts sampled.'),
 'C11': ('exhaustive short texts, generated texts, libFuzzer; oracle: byte-wise model and inverse', 'All texts of up to three bytes, every byte at the start, middle and end of longer ones; others sampled.'),
 'C12': ('exhaustive short texts, generated texts, libFuzzer; oracle: strict JSON decoder (round trip)', 'All texts of up to three bytes, every byte at the start, middle and end of longer ones; others sampled.'),
 'C13': ('generated values, libFuzzer; metamorphic relation of three forms, JSON grammar', 'Sampled values of 27 types, all small ones.'),
 'C14': ('generated values in dirty guarded memory, libFuzzer; differential between views and entry points', 'Sampled values; every entry point for each.'),
 'C15': ('stateful model-based histories of object operations under ASan and plain, libFuzzer; reference model', 'Histories of up to 40 operations are sampled.'),
 'C16': ('stateful histories and threads, differential against fresh processes, ThreadSanitizer', 'Histories are sampled; schedules are those of the machine, with ThreadSanitizer to see races in them.'),
 'C17': ('generated inputs and libFuzzer under ASan, UBSan and valgrind memcheck', 'Sampled inputs; sees what the sanitizers and memcheck see.'),
 'C18': ('generated programs, compiled by two compilers and run; oracle: a model of the lexical forms', 'Programs are sampled over types, holders, functions and standards.'),
 'C19': ('generated configurations and inputs; oracle: the configured literals', 'Configurations are sampled.'),
 'C20': ('stateful model-based histories and sweeps, libFuzzer; reference model Boost cpp_int', 'Histories of up to 40 operations are sampled; all powers of two and five in range.'),
 'C21': ('differential testing of 15 builds over generated inputs', 'Paths of other platforms are reached on x86-64 by choosing their macros, with stand-ins for intrinsics.'),
 'C22': ('generated bit patterns, sweeps, libFuzzer; oracle: fields of the pattern', 'Every sign and exponent with mantissas of few bits; other mantissas sampled.'),
 'C23': ('generated include orders and translation units, compiled, linked and run', 'Every header alone in all configurations; orders are sampled. GCC 13 and Clang 18 with libstdc++.'),
 'C24': ('generated calls under generated locales and rounding modes; differential with the C locale', '13 compiled locales and generated C++ locales; calls are sampled.'),
 'C25': ('generated operands, sweeps, libFuzzer; oracle: 128-bit and Boost integers', 'Every exponent and power of ten; significands sampled, with products next to ties.'),
 'C26': ('fault injection: generated calls with every request for memory refused; oracle: the same call with memory', 'All fault points of sampled calls.'),
 'C27': ('generated programs that make calls at all stages of their lives; differential with main', 'Programs and link orders are sampled.'),
 'C28': ('generated long texts in a small thread, with processor time and memory measured; oracle: linear bounds', 'Texts up to 8 MB (100 MB when thorough) in shapes of runs; the bounds have tenfold headroom or more.'),
 'C29': ('generated pairs of calls, one interrupting the other after every instruction (single-stepping); oracle: each alone', 'Calls are sampled; all instructions of each are interrupted.'),
 'C30': ('generated calls in generated states of the process; invariant: the state before and after, empty output', 'Sampled calls and states; the state that the statement lists.'),
}
sys.path.insert(0, os.path.join(HERE, 'lib'))
m = {'version': 1,
     'setup_cmd': 'sh -c "g++ --version && clang++ --version && cmake --version && python3 --version"',
     'checks': [{'property': p, 'quick_cmd': 'VERIF_TIER=quick python3 check.py ' + p, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p,
                 'evidence_file': 'evidence/%s.json' % p, 'technique': t, 'level': 'exploration', 'level_note': n} for p, (t, n) in NOTES.items()],
     'not_applicable': [],
     'notes': 'Every check builds the library from the sources in /repo, in /verif/work, with no hooks. "python3 check.py <id> --replay FILE" repeats a reported failure.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
