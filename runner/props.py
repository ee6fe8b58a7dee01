"""The properties: text, anchors, and what each check assures (see gen_meta.py)."""
B3 = "all three arithmetic engines (native, GMP, MPFR)"
FUN = "the tests compare a few hundred fixed points per function with stored tables, only at 101 digits"
EFX, GMP, MPFR = "e_float/efx/e_float_efx.cpp", "e_float/gmp/e_float_gmp.cpp", "e_float/mpfr/e_float_mpfr.cpp"
BASE = "e_float/e_float_base.cpp"
EL = "functions/elementary/"
TR = "Trusts GNU MPFR (as oracle, 3x the precision), the compiler and the decimal output path (itself decided by C09/C10)."
NOT_APPLICABLE = []
NOTES = ("Every check runs runner/vrun.py, which rebuilds the library and the monitors from /repo's working tree (content-addressed object cache in /verif/build), "
         "shards deterministic cases over 8 processes, attributes crashes and hangs to a case and writes evidence/<id>.json. See DESIGN.md.")
PROPS = [
dict(id="C01", title="Arithmetic is correct to the full working precision",
  statement="For every pair of finite operands, addition, subtraction, multiplication, division, inverse and square root return the exact result with a relative error below ten to the minus digits10, relative to the operands' magnitude where a sum cancels rounded inputs. Results that are exactly representable in the working precision (integers, exact quotients, perfect squares, x-x) are exact, and compound, commuted and negated forms agree.",
  q="every operand pair: limb-boundary and random digit patterns, carries and borrows of any length, cancellation at any digit, exponent gaps of any size, on "+B3,
  why="the arithmetic tests use a handful of literal operands; a wrong carry, borrow, shift or missing iteration only shows on specific limb patterns",
  files=[EFX, GMP, MPFR, "e_float/e_float.cpp"], mech=[("add/sub/mul/div, inverse, sqrt of each engine", EFX), ("engine wrappers", GMP), ("engine wrappers", MPFR)],
  note="Exploration: ~10^5 (quick) generated operations per run on three engines, every result compared with exact MPFR arithmetic. "+TR),
dict(id="C02", title="Infinity, NaN, overflow and underflow follow one consistent rule",
  statement="Operations on infinities and NaN give the mathematically expected special value: NaN propagates, indeterminate forms are NaN, infinity dominates with the right sign, a finite number over infinity is zero. A finite result whose magnitude exceeds the representable range becomes an infinity of the right sign, one below the range becomes zero, and every result safely inside the advertised range is finite and correct.",
  q="every pair from {NaN, infinities, zero, finite} under every operator, and every operand pair whose result lies near or beyond the exponent limits, including step-by-step walks across the limits, on "+B3,
  why="the overflow tests cross each limit once along one path; special values reach each operator, operand order and engine only through a few literals",
  files=[EFX, GMP, MPFR, BASE, "e_float/e_float.cpp"], mech=[("special-value branches of add/sub/mul/div, inv, sqrt", EFX), ("overflow checks", GMP), ("signed-integer helpers", BASE)],
  note="Exploration. Results within about 20 decades of the limits may legitimately already be infinite/zero (engine granularity); the sign of zero is not judged; ordered comparison of NaN is not judged. "+TR),
dict(id="C03", title="Numbers behave as regular independent values",
  statement="Copying, moving, swapping, self-assignment, in-place operators with aliased operands and increment/decrement have value semantics: afterwards every object holds exactly the value a by-value model predicts and no other object has changed. Assigning to a moved-from object restores it fully, a copy compares equal to its original, and operands and library constants are never modified by an operation or a const function.",
  q="every history of copies, moves, swaps, aliased compound operations and increments over a pool of numbers including special values, and standard containers/algorithms over numbers, on "+B3,
  why="unit tests never execute histories of operations on shared objects, and aliasing only shows on an object other than the one just written",
  over=["inputs", "histories", "configurations"],
  files=["e_float/efx/e_float_efx.h", EFX, "e_float/gmp/e_float_gmp.h", GMP, "e_float/mpfr/e_float_mpfr.h", MPFR, "utility/util_dynamic_array.h", "e_float/e_float.h"], mech=[("copy/move constructors and assignment of each engine", GMP), ("dynamic array storage of the native engine", "utility/util_dynamic_array.h")],
  technique="runtime monitoring: random operation histories on real objects, every object compared after every step with a shadow model of its value",
  note="Exploration: every history has 30 steps over 5 objects; all objects are compared after each step. A moved-from object is only assigned to or destroyed. "+TR),
dict(id="C04", title="Comparisons form a consistent total order matching the numeric values",
  statement="For all numbers that are not NaN, the relational operators and compare agree with the mathematical order of the values, are mutually consistent, antisymmetric and transitive, and do not depend on how a value was spelled or computed; NaN equals nothing. The classification predicates (zero, one, integer, negative, positive, finite, infinite, NaN) are true exactly for the values they name.",
  q="every pair and triple of numbers: equal values reached along different paths, numbers differing in one digit anywhere, sign/zero/infinity combinations, exponent neighbours, on "+B3,
  why="the tests compare a few literal pairs; a comparison that ignores one limb or mishandles a sign passes them all",
  files=[EFX, GMP, MPFR, BASE, "e_float/e_float.cpp", "e_float/e_float_functions.h"], mech=[("cmp and predicates of each engine", EFX), ("relational operators", "e_float/e_float.cpp")],
  note="Exploration. "+TR),
dict(id="C05", title="Operations with built-in numbers equal those with the converted number",
  statement="Every arithmetic, compound-assignment and comparison operator between a high-precision number and any built-in integral or floating-point type, in either operand order, gives the result obtained by first converting the built-in value exactly. This includes the minimum and maximum values of each type, zero, negative values, and infinities or NaN of the floating-point types.",
  q="every value of all built-in arithmetic types (18 types) against every number, through every operator in both operand orders, on "+B3,
  why="there are over 400 operator/type/order combinations with separate small-operand fast paths; the tests use small literals only",
  files=["e_float/e_float.h", "e_float/e_float.cpp", BASE, EFX, GMP, MPFR], mech=[("operator overloads", "e_float/e_float.h"), ("single-limb multiply/divide and integer helpers", EFX), ("signed helpers", BASE)],
  note="Exploration. "+TR),
dict(id="C06", title="Conversions from and to built-in types are exact or correctly rounded",
  statement="Converting any finite normal built-in floating-point value or integer to a high-precision number and back returns the identical value, and the number equals the built-in value to full precision. Converting a number to a floating-point type gives the nearest value to within one unit in the last place, or infinity/zero outside the range; converting to an integer truncates toward zero and saturates at the limits.",
  q="every value of float, double, long double and the integer types, and every number converted to them: neighbours of integers, ties, type limits, values of any magnitude, on "+B3,
  why="the tests convert a handful of literals, none of them at type limits, ties or just below an integer",
  files=[EFX, GMP, MPFR, BASE, "e_float/e_float_base.h", EL+"elementary_math.cpp"], mech=[("constructors from built-in types, extract_*", EFX), ("native_float_parts", "e_float/e_float_base.h"), ("extract_*", MPFR), ("extract_*", GMP)],
  note="Exploration. Subnormal built-in values flush to zero by design and are not judged; the (mantissa, exponent) constructor is documented as an estimate and judged to 14 digits. "+TR),
dict(id="C07", title="Integer and fraction parts, floor, ceil, fmod and scaling are exact",
  statement="Integer part, fraction part, floor and ceil of any number are the exact ones (the parts sum to the number, floor and ceil bracket it within one), and each result is an ordinary usable number. The remainder has the sign of the dividend, is smaller than the modulus and is exact for integers; splitting into a binary mantissa in [1/2,1) and exponent, and scaling by powers of two, reproduce the number; the decimal order is right.",
  q="every number: any number of integer and fraction digits, just below/above integers and powers of ten, limb-aligned points, any magnitude; every dividend/modulus pair, on "+B3,
  why="the tests take integer parts and remainders of a few moderate numbers; off-by-one errors occur only next to integers or at limb boundaries",
  files=[EFX, GMP, MPFR, EL+"elementary_math.cpp"], mech=[("extract_integer_part, extract_decimal_part", EFX), ("floor, ceil, fmod, ldexp, frexp", EL+"elementary_math.cpp")],
  note="Exploration. Numbers so large that less than nine digits remain for the fraction are not judged (integers of any size are); the order of the binary engines is an estimate and judged to one. "+TR),
dict(id="C08", title="Decimal text is read as the number it denotes, anything else as NaN",
  statement="Every well-formed decimal text (optional sign, digits with optional point, optional exponent, surrounding blanks, any length, leading or trailing zeros) is read as the denoted value, correct to working precision and exact when it fits; values beyond the exponent range become infinity or zero. Every malformed text yields NaN, never a crash or an arbitrary number; extraction from a stream consumes exactly one token, and on malformed input sets the fail state and leaves the target unchanged.",
  q="every text: generated from the grammar with digit counts up to thousands, exponents of any size, compensating exponents, and mutations/random strings outside the grammar, on "+B3,
  why="the set of texts is unbounded; the tests read well-formed literals with typical layouts",
  files=[EFX, GMP, MPFR, BASE], mech=[("rd_string of each engine", EFX), ("scan_string, stream extraction", BASE)],
  note="Exploration. The words inf/nan and the extra notations of the MPFR parser are not judged. "+TR),
dict(id="C09", title="Output obeys the stream format and is correctly rounded",
  statement="Writing a number to a stream prints the correctly rounded digits in the layout requested by the stream state (scientific, fixed or default; precision, showpoint, showpos, uppercase, width, fill, adjustment), with the documented exponent padding and zero extension beyond the available digits. Carries through nines adjust the exponent, specials print as inf/nan, and the width is consumed while the rest of the stream state is unchanged.",
  q="every number under every combination of float field, precision (including zero and beyond the available digits), width, fill and flags, on "+B3,
  why="the tests format pi and powers of ten under a few states; rounding carries, small numbers and unusual precisions are combinations they do not sample",
  files=[BASE, EFX, GMP, MPFR], mech=[("wr_string, wr_string_scientific, wr_string_fixed", BASE), ("get_output_string", EFX), ("get_output_string", GMP), ("get_output_string", MPFR)],
  note="Exploration. Ties may round either way; the choice between fixed and scientific in the default field may use the exponent before or after rounding. "+TR),
dict(id="C10", title="Numbers survive a round trip through text",
  statement="Writing any finite number with all its digits and reading it back gives a number equal up to the last printed digit, in every float field, and in the native engine the text is a fixed point of that round trip. A text of at most digits10 significant digits comes back digit for digit, and a built-in double passes unchanged through text and number.",
  q="every finite number, including computed ones with guard digits, of any magnitude inside the range; every decimal text up to digits10 digits, on "+B3,
  why="the tests read and write a few constants; losing or adding a digit depends on digit patterns, exponent alignment and rounding",
  files=[BASE, EFX, GMP, MPFR], mech=[("get_output_string", EFX), ("rd_string", EFX), ("get_output_string", GMP), ("rd_string", MPFR)],
  technique="runtime monitoring: write/read/write histories of the real code, compared with each other and with an MPFR reading of the text",
  note="Exploration. "+TR),
dict(id="C12", title="Exponential, logarithm, power and root functions are correct",
  statement="For every argument, exp, log, log10, log to any base, log1p, pow, pow2, sqrt, cbrt and the n-th roots return the mathematical value to within two decimal digits of the working precision, also where the result is tiny, near one, or computed by a special path (integer exponents, table values, series near the origin). Arguments on the boundary or outside of the domain, infinities and NaN give the defined special value, and the result overflows or underflows only when the mathematical value leaves the range.",
  q="every argument (pair): the whole exponent range, neighbours of one, of powers and of path-switching points, exact powers, negative bases with integer exponents, exponents beyond 64 bits, on "+B3,
  why=FUN,
  files=[EL+"elementary_trans.cpp", EL+"elementary_math.cpp", EL+"elementary_hyper_g.cpp", EFX, GMP, MPFR], mech=[("exp, log, pow, rootn", EL+"elementary_trans.cpp"), ("sqrt, inverse", EFX), ("engine's own functions", MPFR)],
  note="Exploration. The allowance includes what a one-digit change of the argument's last digit does to the value. Roots of negative numbers are NaN by documented design. "+TR),
dict(id="C13", title="Trigonometric functions and their inverses are correct",
  statement="For every argument, sin, cos, sincos, tan, cot, sec, csc, asin, acos, atan and atan2 return the mathematical value to within two decimal digits of the working precision, relative to the value and to the effect of the argument's last digit, with the correct sign and quadrant. Inverse functions return the principal branch, arguments outside of the domain give NaN, and infinities give the limiting value where one exists.",
  q="every argument: tiny, near multiples of pi/2, large enough to lose digits in reduction, domain edges approached from both sides, all quadrants of atan2 with extreme ratios, on "+B3,
  why=FUN,
  files=[EL+"elementary_trig.cpp", EL+"elementary_hyper_g.cpp", "functions/constants/constants.cpp", MPFR], mech=[("argument reduction, series, Newton iterations", EL+"elementary_trig.cpp")],
  note="Exploration. Poles of tan, cot, sec and csc are approached to 1e-20 only. "+TR),
dict(id="C14", title="Hyperbolic functions and their inverses are correct",
  statement="For every argument, sinh, cosh, sinhcosh, tanh, asinh, acosh and atanh return the mathematical value to within two decimal digits of the working precision, also for tiny arguments where the defining formula cancels, near the domain edges and for arguments whose result approaches the limits of the range. They are odd or even as mathematics demands, give NaN outside of the domain and the limiting value at infinities.",
  q="every argument: tiny to extreme, the switch-over points of the algorithms, domain edges approached from both sides, on "+B3,
  why=FUN,
  files=[EL+"elementary_trans.cpp", EL+"elementary_hyper_g.cpp", MPFR], mech=[("sinh ... atanh", EL+"elementary_trans.cpp")],
  note="Exploration. "+TR),
dict(id="C15", title="Constants and numeric_limits describe the number type truthfully",
  statement="Every predefined constant has the value its name says, exactly where it is representable and otherwise to the full precision, and no program changes it or the object it lives in. The numeric limits are consistent with each other and with the arithmetic: all finite numbers lie within lowest and max, positive ones are at least min, epsilon is visible next to one, numbers of digits10 digits are distinguished, infinity and NaN are what they claim.",
  q="all 50 constants at 101 and at more than 1000 digits (computed pi), every sequence of operations that uses constants, every number against the limits, on "+B3,
  why="the tests print a few constants; a wrong digit late in a 1100-digit literal or a limit that does not match the arithmetic stays unnoticed",
  over=["inputs", "histories", "configurations"],
  files=["functions/constants/constants.cpp", "e_float/e_float.h", "e_float/e_float.cpp", BASE], mech=[("constants", "functions/constants/constants.cpp"), ("numeric_limits", "e_float/e_float.h"), ("value_max, value_min", BASE)],
  note="Exploration over the complete list of constants (Khinchin and Glaisher against digits computed with mpmath). "+TR),
dict(id="C16", title="Gamma, factorial, binomial and Pochhammer functions are correct",
  statement="For every real argument away from the poles, gamma (also through gamma_near_n) returns the mathematical value to within two digits of the working precision plus what the last digit of the argument is worth; at the poles it is not finite. Factorials, double factorials, binomial coefficients and Pochhammer symbols agree with their definition for every argument whose value (and factorials or gamma values involved, when there are 50 or more factors) is representable, and results beyond the range become infinite or zero.",
  q="every argument: tiny, integers, half integers, next to poles, around table ends and algorithm switches, up to the limits of the argument types, on "+B3,
  why="the tests use a short regular grid of arguments, none next to poles, beyond the tables or at the limits of the integer types",
  files=["functions/gamma/gamma.cpp", "functions/gamma/factorial.cpp", "functions/gamma/factorial2.cpp", "functions/gamma/pochhammer.cpp", "functions/gamma/gamma_util.cpp", "functions/tables"], mech=[("gamma", "functions/gamma/gamma.cpp"), ("factorial, binomial", "functions/gamma/factorial.cpp"), ("double factorial", "functions/gamma/factorial2.cpp"), ("Pochhammer", "functions/gamma/pochhammer.cpp")],
  note="Exploration. binomial(n, k) with k > n is NaN by design and not judged; real binomials are judged where no gamma function involved has a pole. "+TR),
dict(id="C17", title="Riemann zeta and Bernoulli numbers are correct",
  statement="For every real argument other than one, the Riemann zeta function returns the mathematical value to within three digits of the working precision plus what the last digit of the argument is worth: in the critical strip, next to one and to zero, at and near negative integers, for large and infinite arguments, and identically for integer and real argument types. Bernoulli numbers and tables of them are correct for every index, and become infinite only beyond the range.",
  q="every real argument in [-1e4, 1e40] next to all algorithm switches, every 32-bit integer argument, every Bernoulli index and table size, on "+B3,
  why="the tests use a short list of arguments; the function switches between five algorithms whose borders the tests do not approach",
  files=["functions/zeta/zeta.cpp", "functions/integer/bernoulli_b.cpp", "functions/integer/prime.cpp", "utility/util_power_j_pow_x.cpp", "functions/tables"], mech=[("zeta: reflection, product of primes, alternating series, simple forms", "functions/zeta/zeta.cpp"), ("Bernoulli numbers", "functions/integer/bernoulli_b.cpp"), ("j^x through prime factors", "utility/util_power_j_pow_x.cpp")],
  note="Exploration. Beyond -1e4 only integers of 32 bits are judged. "+TR),
dict(id="C18", title="Hypergeometric functions equal the sum of their series",
  statement="For all parameters and arguments where the series converges within the iteration limit (entire series, |x| below about 0.95 for radius-one series, every terminating series), hypergeometric_0f0, 0f1, 1f0, 1f1, 2f0, 2f1 and pfq return the sum to full precision relative to the largest terms of the series. The general form agrees with the particular ones, and a series that does not converge gives NaN, never a wrong number.",
  q="all real parameters (lower ones away from nonpositive integers), terminating cases, zero, tiny and large arguments, any number of parameters up to four each, on "+B3,
  why="the tests evaluate these series only inside other functions and at a few points; a wrong update of one Pochhammer factor or stop rule shows on particular parameters only",
  files=[EL+"elementary_hyper_g.cpp"], mech=[("series loops and stop rules", EL+"elementary_hyper_g.cpp")],
  note="Exploration. Precision is judged relative to the sum of the absolute terms (the functions sum the series as documented). "+TR),
dict(id="C19", title="Primes, prime factorizations and sums of powers are exact",
  statement="For every count n, prime(n) lists exactly the first n primes in order. For every 32-bit integer, prime_factors lists exactly its prime factors, each once, with their multiplicities (zero and one listed as themselves), and integers raised to a common real power through that factorization equal the power of the integer to the working precision, for every order and repetition of the calls.",
  q="every table size, every 32-bit integer incl. squares and products of primes near the table end, every sequence of calls sharing the memo of prime powers, on "+B3,
  why="the tests use these functions only inside the zeta function; a composite listed as prime or a wrong memo entry shows at few integers only",
  files=["functions/integer/prime.cpp", "functions/integer/prime_factor.cpp", "utility/util_power_j_pow_x.cpp"], mech=[("sieve and generator", "functions/integer/prime.cpp"), ("factorization", "functions/integer/prime_factor.cpp"), ("memoised powers", "utility/util_power_j_pow_x.cpp")],
  note="Exploration. Integers are drawn next to primes, their squares and products as well as uniformly. "+TR),
dict(id="C20", title="Complex numbers: arithmetic, value operations and text are correct",
  statement="For all finite complex operands whose squares are representable, every operator (with complex, real or integer operands, binary, compound or applied to itself) and abs, norm, arg, conj, proj, polar and integer powers give the mathematical value to the working precision, and equality compares both parts. Texts of the forms u, (u) and (u,v) are read to exactly their parts, malformed texts set failbit, leave the number unchanged and are put back, and output is written as (re,im) in the format of the stream. The generic complex template does the same as std::complex for the built-in types.",
  q="every pair of parts of all scales, every alias of operands, every integer type, every text, on "+B3+" and float, double, long double",
  why="the tests use one pair of operands per operator and never look at conj, proj, compound operators or malformed text",
  over=["inputs", "histories", "configurations"],
  files=["e_float/e_float_complex.h", "e_float/detail/e_float_detail_pown_template.h"], mech=[("complex<e_float> and the generic template", "e_float/e_float_complex.h"), ("integer powers", "e_float/detail/e_float_detail_pown_template.h")],
  note="Exploration. Mixed operations between complex types of different component types do not compile and are not part of the claim. "+TR),
dict(id="C21", title="Complex elementary functions are correct on the whole plane",
  statement="For every complex argument (with representable squares), sqrt, log, log10, exp, pow, the trigonometric and hyperbolic functions and their inverses give the principal value to within two digits of the working precision, relative to the value and to what the last digits of the parts of the argument are worth: for tiny and huge arguments, on the axes, near the branch points and close to the cuts (on a cut, the value of either side). Identities tying the functions together hold, and the generic template agrees with std::complex.",
  q="every complex argument and exponent, on "+B3+" and for float and double",
  why="the tests use about 20 arguments per function, all of size one and inside one quadrant",
  files=["e_float/e_float_complex.h", EL+"elementary_trans.cpp", EL+"elementary_trig.cpp"], mech=[("complex functions", "e_float/e_float_complex.h")],
  note="Exploration. tan, tanh, log, atan and atanh are judged relative to the modulus, the others in each part. "+TR),
dict(id="C22", title="Complex gamma, Pochhammer and zeta functions are correct",
  statement="For every complex argument away from the poles, gamma, the Pochhammer symbols and the Riemann zeta function return the mathematical value to within three digits of the working precision relative to the modulus and to what the last digits of the argument are worth; the recurrence and symmetry of gamma hold on the library's own results. Powers of integers with complex exponents through prime factors equal the power, in every order of calls.",
  q="gamma for real parts to 400 and imaginary parts to 1e4, zeta for real parts to 1000 and imaginary parts to 400, every count of factors to 700, on "+B3,
  why="the tests use a short regular grid in one region; the left half plane, the neighbourhood of real integers and the switches of the algorithms are not sampled",
  files=["functions/gamma/gamma.cpp", "functions/gamma/pochhammer.cpp", "functions/zeta/zeta.cpp", "utility/util_power_j_pow_x.cpp"], mech=[("complex gamma", "functions/gamma/gamma.cpp"), ("complex zeta", "functions/zeta/zeta.cpp"), ("j^s", "utility/util_power_j_pow_x.cpp")],
  note="Exploration. The oracle is an own Stirling series and Borwein sum in MPFR, better than 150 digits. "+TR),
dict(id="C23", title="No call corrupts or leaks memory, hangs or has undefined behaviour",
  statement="For every argument of every public function, constructor, conversion, operator, reader and writer (including NaN, infinities, zeros, the limits of the range, extreme integers, precisions, widths and format flags, and every text), the call returns, without an access outside an object, a read of an uninitialised value, a leak, an out-of-range container access or undefined integer or conversion behaviour. Every number it returns is exactly one of finite, infinite or NaN.",
  q="every call with hostile arguments, every sequence of operations on shared objects, on "+B3+" and at a precision that uses the FFT multiplication",
  why="the tests call functions with benign arguments only and are built without sanitizers; a read past a table or a signed overflow stays silent",
  over=["inputs", "histories", "configurations"],
  files=["e_float/efx/e_float_efx.cpp", "e_float/e_float_base.cpp", "e_float/gmp/e_float_gmp.cpp", "e_float/mpfr/e_float_mpfr.cpp", "functions/", "utility/"], mech=[("the whole library under ASan, UBSan, LSan, checked containers and memcheck", "functions/")],
  technique="runtime monitoring: AddressSanitizer, UndefinedBehaviorSanitizer, LeakSanitizer, libstdc++ debug containers and valgrind memcheck over hostile call sequences",
  note="Exploration. Trigonometric functions of arguments beyond 1e40000 on MPFR are left out: MPFR itself needs unbounded time there. Values are judged by the other properties."),
dict(id="C24", title="Threads working on their own numbers do not disturb each other",
  statement="When several threads use the library at the same time, each on its own numbers, from the very first call in the process on, every thread gets exactly the results it would get alone, and no call accesses shared state of the library without synchronisation.",
  q="every set of calls on 2 to 8 threads, every interleaving incl. the first use of every table and constant, on "+B3+" and at a precision with computed constants",
  why="the tests are single-threaded; a race in the first use of a table shows on some schedules only",
  over=["schedules", "histories", "configurations"],
  files=["functions/constants/constants.cpp", "functions/integer/prime.cpp", "functions/integer/prime_factor.cpp", "functions/zeta/zeta.cpp", "utility/util_power_j_pow_x.cpp", "e_float/efx/e_float_efx.cpp"], mech=[("tables and constants built on first use", "functions/constants/constants.cpp"), ("prime tables", "functions/integer/prime.cpp"), ("memo of logarithms", "utility/util_power_j_pow_x.cpp")],
  technique="runtime monitoring: ThreadSanitizer with one forked process per plan, and an offline comparison of the results with a sequential run of the same plan",
  note="Exploration. Only schedules that occurred are judged; a race detector flags unsynchronised accesses even where the schedule was benign. GMP and MPFR themselves are not instrumented."),
dict(id="C11", title="The guarantees hold at every precision setting",
  statement="For every number of decimal digits a user may configure (30 and upward, with small sizes, sizes next to changes of the internal number of limbs, some hundreds and thousands of digits, including those at which multiplication switches to the fast Fourier transform), arithmetic, comparison, conversion, text input and output, constants and the elementary, gamma, zeta, hypergeometric and complex functions keep the guarantees stated for the default precision, at the accuracy of that precision, with no constant, series length, iteration count or threshold tied to one precision.",
  q="every configured precision from 30 digits to 20000, with the inputs of the other properties, on "+B3,
  why="the tests are built at one precision (101 digits); a digit count, iteration limit or table that only fits that precision stays unseen",
  over=["inputs", "configurations"],
  files=["e_float/e_float_base.h", "e_float/efx/e_float_efx.cpp", "e_float/gmp/e_float_gmp.cpp", "e_float/mpfr/e_float_mpfr.cpp", "functions/", "utility/util_digit_scale.cpp"], mech=[("digit counts and tolerances", "e_float/e_float_base.h"), ("elementary functions", EL+"elementary_trans.cpp"), ("gamma", "functions/gamma/gamma.cpp"), ("FFT multiplication", "e_float/efx/e_float_efx.cpp")],
  note="Exploration. Quick: 30, 200, 300 digits on all engines, 38, 50, 75, 145, 400, 1000, 5200 and 10400 on the native one; thorough adds 31, 77, 150, 390, 500, 2000 on all and 4990, 7001, 20000. Gamma coefficients are given to 400 digits and constants to 1100, so gamma, zeta and complex functions are judged up to 400 digits. "+TR),
dict(id="C25", title="The Boost.Multiprecision binding behaves like a Boost number",
  statement="A boost::multiprecision::number over the e_float backend, with expression templates on or off, gives for every operand (also of every built-in type, in both orders, and when the target of an expression is one of its operands) the mathematical result to the precision of e_float; comparison, sign, rounding functions, fmod (sign of x, magnitude below |y|), frexp, ldexp, scalbn, classification, conversion to built-in types and the elementary functions agree with those of the mathematical value. Its text is the text of the e_float, str() with no digit count gives all digits and reads back to the same number, and numeric_limits describes it (lowest is minus max).",
  q="every operand pair, built-in type, expression shape, precision and format, on "+B3,
  why="the Boost test drivers evaluate a few special functions at a few points; operators with built-in operands, aliasing, text and most functions of the binding are never exercised",
  over=["inputs", "configurations"],
  files=["libs/math/include/boost/math/bindings/e_float.hpp"], mech=[("backend class and eval_* functions", "libs/math/include/boost/math/bindings/e_float.hpp")],
  note="Exploration with Boost 1.83. asinh, acosh, atanh, cbrt, log2, tgamma and erf are Boost's own algorithms over the binding (six digits allowed). long long exponents of ldexp/frexp do not compile and are out of reach. "+TR),
dict(id="C26", title="The numerical utilities compute what they promise",
  statement="For every continuous function with a change of sign on the interval, bisection reports success and a root within the tolerance, and without a change of sign it reports failure; Newton-Raphson reports success exactly when it converged inside the interval, with the root within the tolerance; the numerical derivative has a sixth-order error, the recursive trapezoid rule converges to the integral within the tolerance (also when the integral is zero), linear interpolation is exact at and between the points and constant outside. Casts between text and numbers keep the value, the series functors sum the series, and the dynamic array behaves like a vector, constructing, destroying and releasing every element exactly once.",
  q="every problem of these kinds with a known answer, every sequence of array operations, on "+B3,
  why="no test uses most of these templates (several did not even compile); only a few of the examples do",
  over=["inputs", "histories", "configurations"],
  files=["utility/"], mech=[("root finders", "utility/util_find_root_bisect.h"), ("Newton-Raphson", "utility/util_find_root_newton_raphson.h"), ("derivative", "utility/util_function_derivative.h"), ("trapezoid rule", "utility/util_trapezoid.h"), ("interpolation", "utility/util_interpolate.h"), ("dynamic array", "utility/util_dynamic_array.h")],
  note="Exploration. The initial term of alternating_sum is left at its default. "+TR),
dict(id="C27", title="The generic functions are correct for every number type",
  statement="The generic sqrt, rootn, log, pown, fabs, frexp10, predicates and constants (pi, ln 2) give, for float, double, long double, e_float and for any other number type with the arithmetic operators, text conversion and numeric_limits, the mathematical value to the precision of that type, and NaN outside the domain.",
  q="every positive argument and index, for the built-in types, e_float and an unknown wrapper type, at 50, 101 and 300 digits, on "+B3,
  why="no test includes these headers",
  over=["inputs", "configurations"],
  files=["generic_functions/"], mech=[("generic elementary functions", "generic_functions/elementary/generic_functions_elementary.h"), ("generic constants", "generic_functions/constants/generic_functions_constants.h")],
  note="Exploration. The generic Euler constant of an unknown type is documented as missing and not judged. "+TR),
  dict(id='C28', title='Results and texts do not depend on the locale of the program', statement='Whatever locale the program chooses for C++ (std::locale::global), for C (setlocale) or for a thread (uselocale), with any decimal point, digit separator and digit grouping, before the first use of the library or at any moment in between, every construction, conversion, arithmetic operation, function, constant, text input and text output of e_float, complex<e_float>, the utilities, the generic functions and the Boost number gives the same value and the same characters as in the classic locale.',
    q='every sequence of calls, with the locale chosen or changed at any point of it, for any point, separator and grouping, on all three arithmetic engines (native, GMP, MPFR)', why='all tests run in the classic locale; a helper stream or C function that takes the locale of the program gives correct numbers there and silently wrong ones elsewhere', over=['inputs', 'histories', 'configurations'], files=['e_float/e_float_base.cpp', 'e_float/efx/e_float_efx.cpp', 'e_float/gmp/e_float_gmp.cpp', 'e_float/mpfr/e_float_mpfr.cpp', 'e_float/e_float_complex.h', 'utility/util_lexical_cast.h', 'utility/util_numeric_cast.h', 'generic_functions/'], mech=[('reading and writing numbers', 'e_float/efx/e_float_efx.cpp'), ('GMP number text', 'e_float/gmp/e_float_gmp.cpp'), ('MPFR number text', 'e_float/mpfr/e_float_mpfr.cpp'), ('text of integers', 'utility/util_lexical_cast.h'), ('numbers of text', 'utility/util_numeric_cast.h')],
    note='Exploration. Six facets and eight named locales of the C library. Locales whose digits or letters are not those of ASCII cannot arise in the narrow streams of the library.'),
  dict(id='C29', title='The library can be used before main and after main', statement='Every construction, operation, function, constant, table and text conversion may be used by the constructor of a static object before main begins, in whatever order the object files are linked, and what such a constructor used may be used again by the destructor of its object after main has ended. The results are those of the same calls inside main, and no use is made of objects not yet constructed or already destroyed.',
    q='every sequence of calls as the first use in the process, before main and again after main, on all three arithmetic engines (native, GMP, MPFR)', why='all tests call the library inside main, where every static object exists; an object that is constructed too late or destroyed too early stays unseen', over=['histories', 'programs', 'inputs'], files=['e_float/', 'functions/constants/', 'functions/tables/', 'functions/integer/', 'utility/util_power_j_pow_x.cpp'], mech=[('constants on first use', 'functions/constants/constants.cpp'), ('tables on first use', 'functions/integer/prime.cpp'), ('logarithms of integers', 'utility/util_power_j_pow_x.cpp'), ('precision of the MPFR engine', 'e_float/mpfr/e_float_mpfr.cpp')],
    note='Exploration. A destructor is only judged for what its own constructor used: the objects behind other calls are constructed later and so, by the language, gone earlier.'),
  dict(id='C30', title='A failed memory allocation is reported and does no lasting damage', statement='When operator new fails during a construction, an assignment, an operation, a function, a constant, a table, a conversion or an input or output of text, the call either ends with the exception std::bad_alloc (or the program ends through std::terminate), or it gives the right result all the same: a failed allocation never shows up as a wrong number or a wrong text. Afterwards, with memory available again, the same call and every other call give the right results, the objects that took part can be given new values and be destroyed, and no memory has been lost.',
    q='every call, every choice of failing allocations (one, several, all from one on) and every call made afterwards, on all three arithmetic engines (native, GMP, MPFR)', why='no test makes an allocation fail, so what a half-finished construction, table or conversion leaves behind is never seen', over=['fault_sequences', 'inputs', 'histories'], files=['e_float/', 'functions/', 'utility/util_dynamic_array.h', 'utility/util_numeric_cast.h', 'utility/util_lexical_cast.h'], mech=[('reading a number from text', 'e_float/mpfr/e_float_mpfr.cpp'), ('conversions through text', 'e_float/efx/e_float_efx.cpp'), ('tables and constants on first use', 'functions/constants/constants.cpp'), ('storage of the limbs', 'utility/util_dynamic_array.h')],
    note='Exploration. Failures of malloc inside the GMP and MPFR libraries (which end the program by design) are not injected.'),
]
