#!/usr/bin/env python3
"""Writes properties.jsonl (the statements live here, the file is committed)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}})

p("C01", "Integer formatting writes the exact decimal of every value of every type",
  "Formatting a value of any of the ten integer types (signed and unsigned char, short, int, long, long long) yields its exact decimal numeral: a minus sign if and only if it is negative, no leading zeros, no plus sign. This holds for every value of the type, its minimum and maximum included.",
  ["inputs"], "all 2^8, 2^16, 2^32 and 2^64 values of the ten integer types",
  "The tests format the value 1 only; by gcov they execute 13% of the lines of the digit writer.",
  ["src/detail/itoa.cpp", "src/int.cpp", "include/lexi/int.hpp"],
  [("u32toa/i32toa/u64toa/i64toa digit-pair tables and magnitude branches", "src/detail/itoa.cpp"), ("constructors per type, 32/64-bit long selection", "src/int.cpp")],
  ["lexi::lexi(v)", "lexi::string(v)", "FormatInt(v).string()"])
p("C02", "Extracting a decimal integer gives exactly that value",
  "For every integer type and every value of it, extracting that type from a decimal numeral of the value yields the value: with or without leading zeros (the base is always ten), and with a leading '-' for negative or an optional '+' for other values.",
  ["inputs"], "all values of the ten integer types, all their decimal spellings with leading zeros and signs",
  "The tests extract 5, -1, 102 and 0 only; extremes, leading zeros and plus signs are never tried.",
  ["src/int.cpp", "include/lexi/int.hpp", "include/lexi/lexi.hpp"],
  [("ExtractInt parses base 10 into unsigned long long, conversions narrow it per type", "src/int.cpp")],
  ["lexi::lexi<T>(text)", "lexi::Extract<T>()(text)", "T(ExtractInt(text))"])
p("C03", "Numbers are extracted from the numeric prefix of any text, without failing",
  "Extracting an integer or floating-point type from any text never throws: leading white space is skipped, the longest prefix that is a decimal number of that kind decides the value, and whatever follows it is ignored. Text with no such prefix, empty text included, extracts as zero. (For floats, texts that begin with a hexadecimal, infinity or NaN spelling of the C library are outside this property, beyond not throwing.)",
  ["inputs"], "all byte strings, also with embedded nulls, signs without digits, incomplete exponents and non-ASCII bytes; numbers within the range of the type",
  "Only the empty string is tested, for one type.",
  ["src/int.cpp", "src/float.cpp"],
  [("strtoull / strtof / strtod / strtold without end pointer or error check", "src/int.cpp, src/float.cpp")],
  ["lexi::lexi<T>(text) for all numeric T"])
p("C04", "A formatted double reads back as the same double",
  "For every finite double, the formatted text is a decimal numeral whose correctly rounded (nearest, ties to even) double is the value that was formatted (for negative zero: zero).",
  ["inputs"], "all 2^64 - 2^53 finite double bit patterns",
  "The tests try 16 doubles.",
  ["src/detail/dtoa.cpp", "src/detail/diyfp.cpp", "src/float.cpp"],
  [("Grisu2 over normalized boundaries and cached powers of ten", "src/detail/dtoa.cpp"), ("normalizedBoundaries, 64x64 multiplication", "src/detail/diyfp.cpp")],
  ["lexi::lexi(double)", "FormatFloat(double)"])
p("C05", "A formatted double has as few digits, and as close, as Grisu2 guarantees",
  "The text of a finite non-zero double has at most 17 significant digits and no superfluous trailing ones. Within the interval of numbers that round to the value, less a margin of 2^-60 of it at both ends, no decimal with fewer significant digits exists and no decimal with as many is nearer to the value (distances compared up to 2^-59 of it).",
  ["inputs"], "all finite non-zero doubles",
  "Sixteen expected strings say nothing about the digits chosen for other values; on the original tree the last digit was rounded with memory behind a table for most doubles, and the tests passed.",
  ["src/detail/dtoa.cpp", "src/detail/diyfp.cpp"],
  [("generateDigits stops at the first prefix inside the interval; grisuRound moves it to the nearest", "src/detail/dtoa.cpp")],
  ["lexi::lexi(double)"])
p("C06", "Floats are laid out as JavaScript does, with a radix point in integral values",
  "Finite values from 1e-6 up to but not including 1e21 in magnitude are written positionally with at least one digit on both sides of the point (integral values end in '.0'); others in scientific form, one leading digit, a point only if more digits follow, 'e', and a decimal exponent without plus sign or leading zeros. Both zeros give '0.0', negating a non-zero value only prepends '-', and every NaN gives 'NaN', the infinities 'Infinity' and '-Infinity'.",
  ["inputs"], "all double bit patterns, NaN payloads and signs included",
  "The tests see one value per layout and none on the boundaries of 1e21 and below 1e-6 with many digits.",
  ["src/detail/dtoa.cpp", "src/float.cpp", "src/detail/ieee754.cpp"],
  [("prettify and writeExponent choose and write the layout", "src/detail/dtoa.cpp"), ("FormatFloat::format handles the special values", "src/float.cpp")],
  ["lexi::lexi(double)", "FormatFloat(double).string()"])
p("C07", "float and long double format as the double they equal or round to",
  "Formatting a float gives the text of the double with the same value, so that text extracted as float gives the float back. Formatting a long double gives the text of that value rounded to double (nearest, ties to even): 'Infinity' or '-Infinity' if it is beyond the range of double.",
  ["inputs"], "all 2^32 floats; all long doubles, among them midpoints between doubles and values outside the range of double",
  "Only zero is tested for float and long double.",
  ["src/float.cpp", "src/detail/dtoa.cpp"],
  [("all constructors go through one function that narrows to double", "src/float.cpp")],
  ["lexi::lexi(float)", "lexi::lexi(long double)", "lexi::lexi<float>(text)"])
p("C08", "Extracted floats are the text's exact value, correctly rounded to the type",
  "Extracting float, double or long double from a decimal numeral (digits, optional fraction, optional exponent with e or E and sign) gives the exact value of the numeral rounded once to that type, to nearest with ties to even; overflow gives infinity, underflow the nearest subnormal or zero. 'NaN', 'Infinity' and '-Infinity' give those values.",
  ["inputs"], "all decimal numerals of any length and exponent, for three target types",
  "No test extracts a float. On the original tree values were rounded twice, so that for one in about 400000 doubles the text that Lexi itself writes was read back as another double.",
  ["src/float.cpp", "include/lexi/float.hpp"],
  [("one conversion per target type from the original text", "src/float.cpp")],
  ["lexi::lexi<float>(text)", "lexi::lexi<double>(text)", "lexi::lexi<long double>(text)"])
p("C09", "Formatting and extracting are inverse for every supported type",
  "For every supported type and every value, extracting the type from the formatted text returns the value: null, booleans, characters (all 256), the ten integer types, enumerations over any underlying type, stream positions, float and double (NaN as some NaN, negative zero as zero). The text of a long double that is exactly a double extracts, as double, as that value.",
  ["inputs", "programs"], "all values of all supported types, enumerations of all underlying types",
  "The tests never feed formatted output to extraction.",
  ["include/lexi/lexi.hpp", "include/lexi/enum.hpp", "src/bool.cpp", "src/char.cpp", "src/null.cpp", "src/int.cpp", "src/float.cpp"],
  [("Format and Extract dispatch on the same traits", "include/lexi/lexi.hpp")],
  ["lexi::lexi<T>(lexi::lexi(v))", "Extract<T>()(Format()(v).string())"])
p("C10", "Booleans and null are extracted from their exact literals only",
  "Extracting a boolean succeeds for exactly 'true' and 'false', and null for exactly 'null': any other text, differing in case, length, surrounding space or an embedded null byte, throws std::runtime_error. Extracting a char gives the first byte of any non-empty text and throws std::runtime_error for empty text.",
  ["inputs"], "all byte strings",
  "One rejected text per type is tested; the one for null is commented out.",
  ["src/bool.cpp", "src/null.cpp", "src/char.cpp", "include/lexi/detail/define.hpp"],
  [("comparison of the whole std::string with the literal", "src/bool.cpp, src/null.cpp"), ("LEXI_ASSERT throws", "include/lexi/detail/define.hpp")],
  ["lexi::lexi<bool>(text)", "lexi::lexi<std::nullptr_t>(text)", "lexi::lexi<char>(text)"])
p("C11", "Escaping puts a backslash before every ASCII non-alphanumeric byte",
  "Escaping a string or character inserts one backslash before each byte below 0x7f that is not an ASCII letter or digit, null and the backslash itself included, and copies every other byte unchanged, in order and at any length. Dropping those backslashes restores the text.",
  ["inputs"], "all byte strings of any length; all 256 characters",
  "Four characters and no string longer than one byte are tested.",
  ["src/detail/string.cpp", "src/char.cpp", "include/lexi/lexi.hpp"],
  [("range tests per byte", "src/detail/string.cpp")],
  ["lexi::escape(text)", "lexi::escape(char)", "FormatChar(c).escape()"])
p("C12", "Strings and characters become JSON string literals that decode to themselves",
  "Converting a string or character to a JSON literal yields a double-quoted JSON string that decodes to exactly the original bytes: quote, backslash, backspace, form feed, newline, return and tab as two-character escapes, every other byte below 0x20 as \\u00XX, and all other bytes unchanged, at any length.",
  ["inputs"], "all byte strings of any length; all 256 characters",
  "Five characters are tested.",
  ["src/detail/string.cpp", "src/char.cpp", "include/lexi/lexi.hpp"],
  [("switch over the byte, hex digits for control characters", "src/detail/string.cpp"), ("the surrounding quotes", "src/char.cpp, include/lexi/lexi.hpp")],
  ["lexi::jsonify(text)", "lexi::jsonify(char)", "FormatChar(c).jsonify()"])
p("C13", "Non-string values become bare JSON tokens equal to their plain text",
  "For null, booleans, integers, enumerations, stream positions and floats, the escaped form and the JSON form both equal the plain formatted text. For all of these except NaN and infinities that text is a valid JSON token (null, true, false, or a number of the JSON grammar).",
  ["inputs"], "all values of all non-character types",
  "The tests compare one value per type, and some of them call the wrong function.",
  ["src/bool.cpp", "src/null.cpp", "src/int.cpp", "src/float.cpp", "include/lexi/lexi.hpp"],
  [("escape() and jsonify() members return string()", "src/int.cpp, src/float.cpp, src/bool.cpp, src/null.cpp")],
  ["lexi::jsonify(v)", "lexi::escape(v)"])
p("C14", "All views of a formatted value agree",
  "For every formatter and value, size and length are the number of characters of the text, data and c_str point to the same null-terminated characters, and string and the conversion to std::string give them as a string, whatever memory the object was built in. The free functions (lexi, string, escape, jsonify) and the type-detecting formatter give the same texts as the formatter objects.",
  ["inputs"], "all values of all types, objects built on memory with arbitrary previous contents",
  "The tests look at string() nearly always, never at size, data or the terminator.",
  ["src/bool.cpp", "src/char.cpp", "src/null.cpp", "src/int.cpp", "src/float.cpp", "include/lexi/lexi.hpp"],
  [("first/last pointers and terminators written by the digit writers", "src/int.cpp, src/float.cpp, src/detail/dtoa.cpp")],
  ["size()", "length()", "data()", "c_str()", "string()", "operator std::string", "free functions"])
p("C15", "Formatter objects are values: copies are independent of their source",
  "After any sequence of constructing, copying, moving, assigning (to itself too), swapping and destroying formatter objects, every live object still shows the text it was last given, and its views point to memory that is still alive. Changing or destroying one object never affects another. Extractor objects likewise keep their value when copied, or when the text they were built from changes or is gone.",
  ["histories"], "all sequences of these operations over objects of all formatter types",
  "No test copies a formatter. On the original tree copies of integer and float formatters pointed into their source.",
  ["include/lexi/int.hpp", "include/lexi/float.hpp", "src/int.cpp", "src/float.cpp"],
  [("copy constructor and assignment re-anchor the pointers", "src/int.cpp, src/float.cpp")],
  ["views of all live objects after every operation"])
p("C16", "Results depend on the arguments only: no history, no interference of threads",
  "A call's result does not depend on calls made before it, on how many there were, on other live objects, or on calls other threads make at the same time. Distinct objects, and one object through its const functions, may be used from distinct threads without synchronisation and without data races.",
  ["histories", "schedules"], "all call sequences, and all interleavings of calls on distinct objects in several threads",
  "The tests make each call once, in one thread.",
  ["src/detail/itoa.cpp", "src/detail/dtoa.cpp", "src/detail/string.cpp", "src/float.cpp", "src/int.cpp"],
  [("no mutable static state: tables are const, buffers are members or locals", "src/")],
  ["results of all functions, compared with models and with single-threaded runs; data races seen by ThreadSanitizer"])
p("C17", "No input makes the library touch memory outside its buffers or run into UB",
  "For every value formatted and every text extracted, escaped or converted, the library reads and writes only memory it owns and executes no undefined behaviour: formatted numbers fit the sizes the library declares for its buffers, and reading a text stops at its end.",
  ["inputs"], "all values and all texts, including the longest outputs and texts without a terminator inside the numeral",
  "The tests run without sanitizers. On the original tree formatting most doubles read behind a table, unnoticed.",
  ["src/detail/itoa.cpp", "src/detail/dtoa.cpp", "include/lexi/detail/fmt.hpp", "src/detail/string.cpp", "src/float.cpp"],
  [("INTEGER_SIZE and FLOAT_SIZE", "include/lexi/detail/fmt.hpp"), ("table indices bounded by digit counts", "src/detail/dtoa.cpp, src/detail/itoa.cpp")],
  ["AddressSanitizer and UndefinedBehaviorSanitizer; guard bytes around objects and buffers"])
p("C18", "Type detection picks the right lexical form for every C++ type",
  "For any program, the generic functions treat bool as literal, char as character, signed char and unsigned char and the wider integers as numbers, enumerations (scoped or not, any underlying type) as the number they hold, float types as floats, nullptr as null, stream positions as offsets, and string objects, classes derived from them, C strings, and character arrays as text passed through unchanged; whether the argument is const, volatile, a reference or a literal makes no difference. Every such program compiles.",
  ["programs", "inputs"], "all programs applying the generic functions to these types, including user-defined enumerations and string classes",
  "The tests instantiate a dozen cases with literals.",
  ["include/lexi/lexi.hpp", "include/lexi/detail/type.hpp", "include/lexi/enum.hpp"],
  [("trait-based overloads of Format, Extract and the free functions", "include/lexi/lexi.hpp, include/lexi/detail/type.hpp")],
  ["lexi::lexi(v)", "lexi::string(v)", "lexi::escape(v)", "lexi::jsonify(v)", "lexi::lexi<T>(text)"])
p("C19", "Configured literals are used exactly as configured",
  "A build that overrides the spellings of true, false, null, NaN, Infinity or -Infinity (of any length; at most 29 characters for the last three) formats exactly these spellings, complete, null-terminated and with the right size, and extracts booleans and null from exactly these spellings. Nothing else changes.",
  ["configurations", "inputs"], "all sets of six configured literals",
  "Only the default configuration is ever built. On the original tree other lengths than the default ones gave wrong sizes or overran buffers.",
  ["include/lexi/detail/define.hpp", "src/bool.cpp", "src/null.cpp", "src/float.cpp"],
  [("LEXI_TRUE, LEXI_FALSE, LEXI_NULL, LEXI_NAN, LEXI_INFINITY, LEXI_NEGATIVE_INFINITY", "include/lexi/detail/define.hpp")],
  ["all formatter views and extraction in builds with generated literals"])
p("C20", "Big-integer arithmetic is exact or refuses",
  "Every sequence of big-integer operations (from a 64-bit value or a decimal string, assignment, adding and multiplying by 32- and 64-bit values, multiplying by powers of five, shifting left, absolute difference, comparison, equality) gives the mathematically exact result as long as values stay within 3328 bits. Beyond that an operation is exact or throws std::runtime_error; so does a non-digit in a decimal string and the difference of equal values.",
  ["histories", "inputs"], "all operation sequences and operands",
  "No test executes a line of this code (0% by gcov). On the original tree shifts by multiples of 64 and borrows out of an all-ones digit were wrong.",
  ["src/detail/bigint.cpp", "include/lexi/detail/bigint.hpp"],
  [("carry loops, normalised digit count, capacity checks", "src/detail/bigint.cpp")],
  ["count()", "digit(i)", "compare()", "operator==", "isZero()"])
p("C21", "All platform-specific code paths give the same results",
  "The compiler- and platform-specific implementations (128-bit multiplication or its portable replacement, bit scanning or its portable replacement, 32-bit long, MSVC intrinsics) and all optimisation levels give the same text for every value and the same extended-precision and big-integer results.",
  ["configurations", "inputs"], "all values, in builds that select each of the alternative implementations",
  "The tests run one build; the other paths are never compiled.",
  ["src/detail/diyfp.cpp", "src/detail/bigint.cpp", "src/int.cpp", "include/lexi/detail/architecture.hpp"],
  [("#if branches for GNUC/x86-64, MSVC/AMD64 and others", "src/detail/diyfp.cpp, src/detail/bigint.cpp, src/int.cpp")],
  ["outputs of differently configured builds on the same generated inputs"])
p("C22", "Floating-point classification agrees with IEEE 754 on every bit pattern",
  "For every double bit pattern the classification helpers tell exactly: NaN or not, infinite (either sign), positive infinity, negative infinity, finite, zero (either sign), and positive (sign bit clear).",
  ["inputs"], "all 2^64 double bit patterns",
  "The tests reach them with one NaN and the two infinities, through formatting.",
  ["src/detail/ieee754.cpp", "include/lexi/detail/ieee754.hpp"],
  [("masks over the bit pattern", "src/detail/ieee754.cpp")],
  ["isNan, isInf, isInfinity, isNegativeInfinity, isFinite, isZero, isPositive"])
p("C23", "Every public header can be included on its own, in any order, in any number",
  "A program that includes any subset of the headers, in any order, alone or before and after standard headers, in several translation units, compiles as C++14, C++17 and C++20 with GCC and Clang and links with the library, with no definition missing or duplicated.",
  ["programs", "configurations"], "all include sequences, two compilers, three language levels",
  "Each test file includes one header after a flag that force-includes <cstdint>. On the original tree int.hpp did not compile without it.",
  ["include/lexi"],
  [("#pragma once, includes of each header", "include/lexi")],
  ["exit status of compiler and linker; output of the linked program"])
p("C24", "Results do not depend on the process locale or the rounding mode",
  "Whatever the C and C++ locales in force (radix character, digit grouping, encoding), formatting writes the same text and extracting the same text gives the same value as in the C locale, so numbers written under one locale are read under any other. Formatting doubles and integers does not depend on the floating-point rounding mode either.",
  ["configurations", "inputs"], "all locales, rounding modes and values",
  "The tests run in the C locale. On the original tree extraction used the locale's radix character.",
  ["src/float.cpp", "src/int.cpp", "src/detail/dtoa.cpp"],
  [("own digit writers; '.' replaced by the locale's radix before conversion", "src/detail/dtoa.cpp, src/float.cpp")],
  ["all functions after setlocale, std::locale::global and fesetround"])
p("C25", "Extended-precision helpers match exact arithmetic",
  "The helpers under float conversion are exact: a double decomposes into its significand and exponent, normalisation and the boundaries (midpoints to the neighbouring doubles) keep their values, the product of two 64-bit significands is rounded to the nearest in its upper 64 bits, subtraction is exact, and powers of ten from 0 to 308 are the correctly rounded doubles.",
  ["inputs"], "all positive doubles, all pairs of significands, all exponents",
  "They are only reached through the formatting of sixteen values; the powers of ten never.",
  ["src/detail/diyfp.cpp", "src/detail/pow.cpp"],
  [("DiyFp constructor, normalize, normalizedBoundaries, operator*; table of powers", "src/detail/diyfp.cpp, src/detail/pow.cpp")],
  ["f and e of results; pow10(n)"])

p("C26", "A call that is refused memory throws bad_alloc and leaves nothing behind",
  "When any request for memory made inside a call of the library is refused, the call either still gives its right result or throws std::bad_alloc: it does not crash, end the program, throw anything else or give another result. It leaks nothing, its arguments and the objects involved keep their values, and the same call succeeds once there is memory again.",
  ["faults", "inputs"], "all calls, all points at which a request for memory is refused",
  "The tests never run out of memory.",
  ["src/detail/string.cpp", "src/float.cpp", "src/char.cpp", "include/lexi/lexi.hpp"],
  [("own character buffers in formatters; std::string everywhere else", "include/lexi, src/detail/string.cpp")],
  ["result or exception of a call with its n-th request refused; blocks left; arguments; the call again"])
p("C27", "Results are the same at every stage in the life of a program",
  "Formatting, extracting and the helpers give the same results when called before main (in constructors of static objects, in any order of linking), in main, in threads, in plug-ins loaded and unloaded at run time, and after main (in destructors of static and thread_local objects and in exit handlers), and objects made at one stage stay good at the later ones, whether the library is linked as objects, as an archive or as a shared library.",
  ["programs", "histories"], "all programs, link orders, stages from the first constructor to the last destructor",
  "The tests make their calls in main only, in one program with one link order.",
  ["src/detail/itoa.cpp", "src/detail/dtoa.cpp", "src/detail/pow.cpp", "src/bool.cpp", "src/null.cpp", "src/float.cpp"],
  [("tables and literals are constants that need no run-time initialisation", "src")],
  ["results of a fixed set of calls made at each stage, compared with those in main"])
p("C28", "Time and memory are linear in the text, and the stack is bounded",
  "Escaping, converting to JSON, copying and extracting take time and memory at most proportional to the length of the text, and a stack of bounded size, however long the text and whatever is in it (runs of one character, of zeros, of spaces, of characters to be escaped): megabytes of untrusted text are handled in seconds, on a small thread stack.",
  ["inputs"], "all texts",
  "The longest text of the tests has 24 characters.",
  ["src/detail/string.cpp", "src/int.cpp", "src/float.cpp", "include/lexi/lexi.hpp"],
  [("one pass over the text with a reserved destination; strtoull, strtod", "src/detail/string.cpp, src/int.cpp, src/float.cpp")],
  ["processor time, peak memory and stack of a call on a text of up to 8 MB"])

p("C29", "A call may be interrupted by other calls at any instruction",
  "Calls on one thread may overlap: when a signal handler makes calls of the library (formatting, copying formatters, escaping, converting to JSON, extracting, big integers) after any instruction of another call, both give the results they give alone, and so do later calls. There is no scratch memory shared between calls, per thread or for the process. This is apart from the memory allocator, calls that throw, and what is set up at the first call of a kind.",
  ["schedules", "inputs"], "all pairs of calls, all instructions at which one interrupts the other",
  "The tests make one call after the other.",
  ["src", "include/lexi"],
  [("all scratch memory is local or in the object", "src/detail/dtoa.cpp, src/detail/itoa.cpp, src/float.cpp, src/int.cpp, src/detail/string.cpp")],
  ["results of a call that is stepped through, and of the calls made in the trap handler"])
p("C30", "A call changes nothing in the process but its result",
  "Formatting, escaping, extracting and the helpers, whether they return or throw, and whether it is the first call or a later one, leave the state of the process as they found it: C and C++ locales (global and of the thread), rounding mode and floating-point control words, signal mask and handlers, environment, standard streams and their format, open files, working directory, limits, timers, threads, rand and strtok. They write nothing to the standard output or error. Formatting and escaping leave errno alone as well.",
  ["inputs", "histories", "configurations"], "all calls in all states of the process",
  "The tests look at results only.",
  ["src/float.cpp", "src/int.cpp", "src/detail/dtoa.cpp", "src/bool.cpp", "include/lexi"],
  [("pure functions over their arguments; the radix is found with snprintf, no locale is set", "src/float.cpp")],
  ["the state listed, before and after; bytes written to the standard output and error"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, (x['id'], len(x['title']))
        f.write(json.dumps(x) + '\n')
