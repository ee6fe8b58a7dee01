"""Rows of DESIGN.md's property table: (executed and watched, oracle, reach and bounds). See tools/gen_design.py."""
ROWS = {
"C01": ("add, sub, mul, div, inverse, sqrt, compound/commuted/negated forms on operands with hostile limb patterns", "exact MPFR arithmetic", "operand digits 1..101 (plus guard digits), exponents over the whole range, cancellation at every digit; all three engines"),
"C02": ("all operators on pairs of special values; operations whose results approach or cross the exponent limits; step-by-step walks", "special-value table; sign and log10 of the exact result", "within ~20 decades of the limits either answer is accepted"),
"C03": ("programs of 30 random copy/move/swap/alias/increment steps over five objects; containers and algorithms", "shadow model holding every object's value as text; all objects compared after each step", "histories of bounded length"),
"C04": ("all relational operators and predicates on pairs and triples with differences in any digit, spelling, sign, exponent", "MPFR comparison of the exact values", "NaN ordering not judged"),
"C05": ("400+ mixed operators for 18 built-in types in both orders, at the limits of each type", "same operation on the exactly converted value, and MPFR", "-"),
"C06": ("constructors from and conversions to all built-in types, next to integers, ties and limits", "MPFR rounding to double/long double, exact integer truncation", "subnormals and NaN-to-integer not judged"),
"C07": ("integer/decimal part, floor, ceil, fmod, frexp, ldexp, order", "exact MPFR parts", "numbers leaving < 9 fraction digits not judged"),
"C08": ("texts from the grammar (up to thousands of digits), mutated and random texts, streams of several tokens", "independent recogniser of the grammar + MPFR value", "inf/nan words not judged"),
"C09": ("numbers x random stream states", "independent formatter on the exact decimal value", "ties either way"),
"C10": ("write, read, write again in all formats", "digit equality and MPFR reading of the text", "-"),
"C12": ("exp/log/pow/root family, special paths, domain edges, range limits", "MPFR functions at 3x precision", "two digits + one argument ulp"),
"C13": ("trigonometric family incl. reductions of large arguments and neighbours of k pi/2", "MPFR functions at 3x precision", "poles approached to 1e-20"),
"C14": ("hyperbolic family incl. tiny arguments and overflow edges", "MPFR functions at 3x precision", "two digits + one argument ulp"),
"C15": ("all constants at 101 and 1090 digits; programs that use constants; drawn consequences of numeric_limits", "MPFR constants, mpmath digits for Khinchin/Glaisher, text comparison before/after", "complete list of constants"),
"C16": ("gamma family for real and integer arguments incl. table ends, poles, type limits; identities on the library's own results", "MPFR gamma, exact products, recurrence and reflection", "two digits + argument ulps; loss ~ log10 n for large n"),
"C17": ("real and integer zeta next to all algorithm switches, Bernoulli numbers and tables of all sizes", "MPFR zeta; Bernoulli numbers from zeta(2n)", "arguments in [-1e4, 1e40]; three digits + argument ulps"),
"C18": ("all hypergeometric functions with up to 4+4 parameters, terminating, tiny, cancelling and slowly converging series", "series summed in MPFR through term ratios at 3x precision; exp for 0F0", "up to 9000 terms; scale = sum of absolute terms"),
"C19": ("prime tables of many sizes, factorization of 32-bit integers of all kinds, sequences of j^x sharing one memo", "independent sieve, trial division, MPFR pow", "up to 700000 primes (thorough), all of uint32 for factors"),
"C20": ("all complex operators with complex, real, integer and aliased operands; value operations; texts; the generic template on built-in types", "complex arithmetic over MPFR; independent recogniser of the text grammar; std::complex", "parts of all scales up to a quarter of the exponent range"),
"C21": ("all complex elementary functions over the plane, on axes, cuts and next to branch points; identities; built-in types", "cancellation-free formulas over MPFR at 3x precision; std::complex", "two digits + argument ulps; either side on a cut"),
"C22": ("complex gamma, Pochhammer, zeta, j^s", "own Stirling series, product, Borwein sum over MPFR", "three digits + argument ulps; zeta to |Im| 400"),
"C23": ("every public call with hostile arguments, call sequences on a pool of shared objects, hostile texts and stream states, tables and utilities", "AddressSanitizer, UBSan, LSan, libstdc++ debug mode, valgrind memcheck; CPU limit; classification of every result", "8000+ calls per backend and tool (quick); CPU 60 s per case family"),
"C24": ("plans of calls (44 kinds covering the functions, complex functions, utilities and generic functions) for 2 to 8 threads, each plan in a fresh process so that every table meets its first use", "ThreadSanitizer; text of the results of the same plan run in sequence", "5000+ plans (quick); 101 and 1020 digits"),
"C11": ("the monitors of C01-C10, C12-C18, C20-C22, built at 30 to 10400 digits (quick), to 20000 (thorough)", "the same oracles at the chosen precision", "14 settings on the native engine, 3 on the others (quick); functions to 400 digits; products to 8.3 million digits"),
"C25": ("number<e_float> with expression templates on and off: built-in operands of 13 types, expressions with aliased targets, text, rounding and scaling, fmod, functions, numeric_limits, Boost.Math constants, tgamma, erf", "MPFR at three times the precision; text of the plain e_float", "140000+ programs per backend (quick)"),
"C26": ("root finders, derivative, trapezoid rule, interpolation, functors, casts, dynamic array, timer", "closed-form answers over MPFR; std::vector model with element and storage accounting; ASan", "57000+ problems per backend (quick)"),
"C27": ("the generic functions for float, double, long double, e_float and a wrapper type that forces the generic algorithms", "MPFR", "60000+ arguments per backend (quick); 50, 101, 300 digits; integer powers over all 64-bit exponents"),
"C28": ("drawn sequences of calls (the 44 kinds of C24 and 12 more: conversions both ways, reading, writing under random formats, casts, generic complex reading, Boost numbers), each sequence in a fresh process with a locale in force from the start or changed between the calls: C++ facets with other points, separators and groups; named locales for C and C++, for C only, for one thread only", "the same sequence in the classic locale, results compared as text or bits", "17000+ sequences (quick); 6 facets and 8 named locales (compiled by the check; facets only where localedef is missing); 101 digits"),
"C29": ("drawn sequences of calls (the 44 kinds of C24) made by a static object that is constructed before every object of the library, in its constructor and again in its destructor after main, each sequence in a fresh process", "the same sequence inside main, results compared as text; AddressSanitizer in a second build", "8000+ processes (quick); the destructor repeats what the constructor did"),
"C30": ("drawn calls (the 60 kinds of C24, C28 and four of its own that keep their objects) as the first use in a fresh process while operator new fails at drawn points (one, a run, every m-th, all from one on), then the same call and another one with memory back", "the same calls in a process without failures, results compared as text; LeakSanitizer and AddressSanitizer in a second build", "6 failure patterns per call, 4300 + 720 calls (quick); std::terminate is accepted; malloc inside GMP and MPFR is not made to fail"),
}
