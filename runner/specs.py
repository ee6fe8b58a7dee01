import sys
Unit = (sys.modules.get("__main__").Unit if hasattr(sys.modules.get("__main__"), "Unit") else __import__("vrun").Unit)
ALL = ("efx", "gmp", "mpfr")
def three(*srcs, **kw):
    return lambda: [Unit(b, srcs, **kw) for b in ALL]
SPECS = {}
SPECS["C01"] = dict(units=three("m_C01.cpp", scale=10),
    rule="a case is one operation on operands drawn from hostile digit/exponent patterns; non-trivial when an oracle decision was made; distinct by operand text",
    must_hit=["C01.add:pair:cancel", "C01.mul:pair:nines", "C01.sub:exact-zero", "C01.sqrt:perfect-square"])
SPECS["C02"] = dict(units=three("m_C02.cpp", scale=8),
    rule="a case is one operation (or short program) on special values or on operands near the exponent limits; distinct by operands and operation",
    must_hit=["C02.pair:-> nan", "C02.edge:sum beyond max", "C02.pair:-> inf", "C02.range:-> overflow", "C02.range:-> underflow", "C02.range:-> finite near the limits", "C02.range:walk overflow", "C02.range:walk underflow"])
SPECS["C03"] = dict(units=three("m_C03.cpp", scale=8),
    rule="a case is a random program of 30 copy/move/swap/arithmetic steps over five objects, all objects compared with their model after every step; distinct by program text",
    must_hit=["C03.program:self-move", "C03.program:self-assign", "C03.program:move-assign", "C03.program:member-swap", "C03.program:aliased compound", "C03.program:post-decrement"])
SPECS["C04"] = dict(units=three("m_C04.cpp", scale=10),
    rule="a case is an operand pair (or one operand) judged by all relational operators/predicates; distinct by operands",
    must_hit=["C04.order:one digit", "C04.order:spelling", "C04.order:nines", "C04.predicates:integer"])
SPECS["C05"] = dict(units=three("m_C05.cpp", scale=10),
    rule="a case is one built-in value of one of 18 types against one e_float, through all operators in both orders; distinct by both operands and the type",
    must_hit=["C05.integral:integral", "C05.floating:floating", "C05.integral:exact"])
SPECS["C06"] = dict(units=three("m_C06.cpp", scale=10),
    rule="a case is one built-in value converted to e_float and back, or one e_float converted to the built-in types; distinct by value",
    must_hit=["C06.from_double:integral", "C06.to_floating:double", "C06.to_floating:long double", "C06.to_integer:saturated"])
SPECS["C07"] = dict(units=three("m_C07.cpp", scale=10),
    rule="a case is one number taken apart by integer/decimal part, floor, ceil, fmod, frexp, ldexp; distinct by operands",
    must_hit=["C07.parts:integer", "C07.parts:large with fraction", "C07.parts:below one", "C07.scale3:power in range", "C07.fmod:integers", "C07.fmod:multiple"])
SPECS["C08"] = dict(units=three("m_C08.cpp", scale=10),
    rule="a case is one decimal text (or one stream of texts) generated from the documented grammar or by mutating it; distinct by text",
    must_hit=["C08.valid:exact", "C08.valid:zero", "C08.long:more digits than the precision", "C08.long:compensated exponent", "C08.range:overflow", "C08.range:underflow", "C08.range:in range", "C08.malformed:malformed", "C08.malformed:well formed", "C08.stream:several values"])
SPECS["C09"] = dict(units=three("m_C09.cpp", scale=10),
    rule="a case is one number written under one randomly drawn format state (float field, precision, width, fill, adjustment, showpos, showpoint, uppercase); distinct by number and state",
    must_hit=["C09.format:scientific", "C09.format:fixed", "C09.format:default", "C09.format:nines", "C09.format:tie", "C09.computed:quotient"])
SPECS["C10"] = dict(units=three("m_C10.cpp", scale=10),
    rule="a case is one number written and read back (or one text read and written back); distinct by number and format",
    must_hit=["C10.roundtrip:scientific", "C10.roundtrip:fixed", "C10.roundtrip:default", "C10.digits10:digits10"])
SPECS["C12"] = dict(units=three("m_C12.cpp", scale=4),
    rule="a case is one call of exp, log, log10, loga, log1p, pow, pow2, sqrt, cbrt, rootn or rootn_inverse judged against MPFR at three times the precision; distinct by arguments",
    must_hit=["C12.exp:integer", "C12.exp:large", "C12.log:near one", "C12.log:huge or tiny", "C12.pow:near one", "C12.root:extreme", "C12.explimit:inside", "C12.powhuge:exponent beyond 64 bits"])
SPECS["C13"] = dict(units=three("m_C13.cpp", scale=5),
    rule="a case is one call of sin, cos, sincos, tan, cot, sec, csc, asin, acos, atan or atan2 judged against MPFR; distinct by arguments",
    must_hit=["C13.sincos:near multiple of pi/2", "C13.sincos:large", "C13.asin:near one", "C13.asin:tiny", "C13.atan:extreme", "C13.atan2:y<0 x<0"])
SPECS["C14"] = dict(units=three("m_C14.cpp", scale=6),
    rule="a case is one call of sinh, cosh, sinhcosh, tanh, asinh, acosh or atanh judged against MPFR; distinct by arguments",
    must_hit=["C14.sinhcosh:tiny", "C14.sinhcosh:large", "C14.asinh:extreme", "C14.acosh:near one", "C14.atanh:near one"])
SPECS["C15"] = dict(units=lambda: [Unit(b, ["m_C15.cpp"]) for b in ALL] + [Unit(b, ["m_C15.cpp"], digits=1090) for b in ALL],
    rule="a case is one library constant, one drawn consequence of numeric_limits, or one program that uses the constants and then re-reads them all; distinct by name/program",
    must_hit=["C15.constant:pi", "C15.constant:glaisher", "C15.stable:program", "C15.limits:part 4"])
SPECS["C16"] = dict(units=three("m_C16.cpp", scale=3),
    rule="a case is one call of gamma, gamma_near_n, factorial, factorial2, binomial or pochhammer judged against MPFR or exact products; distinct by arguments",
    must_hit=["C16.gamma:near integer", "C16.gamma:tiny", "C16.gamma:pole", "C16.factorial:series", "C16.factorial2:type limit", "C16.binomial:few of many", "C16.pochhammer:integer x"])
SPECS["C17"] = dict(units=three("m_C17.cpp"),
    rule="a case is one call of riemann_zeta, bernoulli or bernoulli_table judged against MPFR; distinct by arguments",
    must_hit=["C17.zeta:near one", "C17.zeta:near zero", "C17.zeta:product switch", "C17.zeta:huge", "C17.zeta_int:type limit", "C17.bernoulli:series", "C17.table:tiny table"])
SPECS["C18"] = dict(units=three("m_C18.cpp", scale=1.5),
    rule="a case is one call of a hypergeometric function judged against the series summed by the oracle at three times the precision; distinct by parameters and argument",
    must_hit=["C18.0f1:large x", "C18.1f1:polynomial", "C18.2f1:x near the circle", "C18.pfq:long series", "C18.1f1:cancelling"])
SPECS["C19"] = dict(units=three("m_C19.cpp", scale=6),
    rule="a case is one count of primes, one factored integer, or one sequence of integers raised to a common power; distinct by arguments",
    must_hit=["C19.prime:table end", "C19.prime:generated", "C19.factors:prime square", "C19.factors:large prime or near", "C19.j_pow_x:real power"])
SPECS["C20"] = dict(units=three("m_C20.cpp", scale=3),
    rule="a case is one pair of complex numbers put through all operators, one text read or written, or one operation with integers; distinct by operands",
    must_hit=["C20.arith:any scales", "C20.arith:equal magnitudes", "C20.pown:power to 2e6", "C20.read:(u,v)", "C20.malformed:random", "C20.generic:long double"])
SPECS["C21"] = dict(units=three("m_C21.cpp", scale=5),
    rule="a case is one complex argument (and exponent) of one function; distinct by argument",
    must_hit=["C21.log:near +-1", "C21.asin:extreme", "C21.atanh:tiny", "C21.acosh:real axis", "C21.exp:near multiples of pi/2", "C21.sqrt:imaginary axis", "C21.generic:float"])
SPECS["C22"] = dict(units=three("m_C22.cpp", scale=4),
    rule="a case is one complex argument of one function; distinct by argument",
    must_hit=["C22.gamma:near a real integer", "C22.gamma:large imaginary part", "C22.zeta:critical line", "C22.zeta:left half plane", "C22.zeta:near the pole", "C22.pochhammer:switch"])
MONS = ["m_C%02d.cpp" % i for i in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 26, 27)]
MEMCHECK = ["valgrind", "-q", "--error-exitcode=77", "--exit-on-first-error=yes", "--leak-check=no"]
def c23():
    return [Unit(b, ["m_C23.cpp"], cpu=10) for b in ALL] + \
           [Unit(b, MONS + ["m_C23.cpp"], flavour="asan", scale=0.1, cpu=100, faults_only=True, tf=5) for b in ALL] + \
           [Unit(b, MONS + ["m_C23.cpp"], flavour="vg", scale=0.004, cpu=200, faults_only=True, wrap=MEMCHECK, tf=10) for b in ALL] + \
           [Unit("efx", ["m_C01.cpp", "m_C07.cpp", "m_C08.cpp"], digits=d, flavour="asan", scale=0.005, cpu=200, faults_only=True, tf=5) for d in (30, 5200)] + \
           [Unit("efx", ["m_fft.cpp"], digits=150000, flavour="asan", scale=0.5, cpu=200, faults_only=True, tf=5)]
SPECS["C23"] = dict(units=c23, rule="a case is one generated call (or short program) of any part of the library, under ASan+UBSan+LSan with checked containers, or under memcheck; distinct by arguments", must_hit=["C23.texts:kind 2", "C23.array:tracked", "C23.format:output threw", "C23.real2:rootn", "C23.complex:gamma", "C22.zeta:left half plane", "C09.format:scientific"])
SPECS["C24"] = dict(units=lambda: [Unit(b, ["m_C24.cpp"], flavour="tsan", scale=0.6, cpu=120) for b in ALL] + [Unit(b, ["m_C24.cpp"], scale=1.5, cpu=120, label=b + "-plain") for b in ALL] + [Unit(b, ["m_C24.cpp"], digits=1020, flavour="tsan", scale=0.1, cpu=120) for b in ALL],
    rule="a case is a drawn plan of calls for 2 to 8 threads, run in a fresh process in parallel and in another one in sequence, results compared as text; distinct by plan",
    must_hit=["C24.first:zeta", "C24.first:factors", "C24.first:j_pow_x", "C24.first:constants", "C24.mix:complex zeta", "C24.first:quadrature", "C24.first:generic", "C24.first:large table index"])
_C11 = ["m_C01.cpp", "m_C02.cpp", "m_C04.cpp", "m_C05.cpp", "m_C06.cpp", "m_C07.cpp", "m_C08.cpp", "m_C09.cpp", "m_C10.cpp", "m_C12.cpp", "m_C13.cpp", "m_C14.cpp", "m_C15.cpp"]
_C11f = ["m_C16.cpp", "m_C17.cpp", "m_C18.cpp", "m_C20.cpp", "m_C21.cpp", "m_C22.cpp"]
def c11():
    big = ["m_C01.cpp", "m_C02.cpp", "m_C03.cpp", "m_C04.cpp", "m_C07.cpp", "m_C08.cpp", "m_C10.cpp"]
    us = [Unit("efx", ["m_fft.cpp"], digits=8300000, cpu=400)]
    us += [Unit(b, _C11 + (_C11f if d < 1000 else []), digits=d, scale=0.1 if d < 200 else 0.03, cpu=60, tier=None if b == "efx" or d in (30, 200, 300) else "thorough") for b in ALL for d in (30, 50, 200, 300, 1000)]
    us += [Unit("efx", big, digits=d, scale=0.02, cpu=100) for d in (5200, 10400)]
    us += [Unit("efx", ["m_C01.cpp", "m_C08.cpp", "m_C12.cpp", "m_C13.cpp", "m_C14.cpp", "m_C16.cpp"], digits=d, scale=0.05, cpu=60) for d in (38, 75, 128, 145, 256, 400)]
    us += [Unit(b, _C11 + _C11f, digits=d, scale=0.05, cpu=60, tier="thorough") for b in ALL for d in (31, 77, 150, 390)]
    us += [Unit(b, _C11, digits=d, scale=0.01, cpu=100, tier="thorough") for b in ALL for d in (500, 2000)]
    us += [Unit("efx", ["m_fft.cpp"], digits=20000000, scale=1, cpu=1500, shards=4, tier="thorough")]
    us += [Unit("efx", big, digits=d, scale=0.003, cpu=200, tier="thorough") for d in (4990, 7001, 20000)]
    return us
SPECS["C11"] = dict(units=c11,
    rule="a case is one operation, function call, conversion or text on one of the precision settings; distinct by setting and operands",
    must_hit=["C01.mul:pair:nines", "C08.valid:exact", "C10.roundtrip:scientific", "C12.log:near one", "C13.sincos:near multiple of pi/2", "C16.gamma:tiny", "C17.zeta:near one", "C21.log:near +-1", "C11.fft:more than three million digits"])
SPECS["C25"] = dict(units=three("m_C25.cpp", scale=6),
    rule="a case is one boost::multiprecision::number (expression templates on or off) program: built-in operands, expressions with aliased targets, text, rounding and scaling, functions, or numeric_limits and Boost.Math; distinct by operands",
    must_hit=["C25.builtin:equal", "C25.fmod:multiple", "C25.parts:64-bit ldexp", "C25.parts:integer", "C25.limits:part 5"])
SPECS["C26"] = dict(units=lambda: [Unit(b, ["m_C26.cpp"], scale=4) for b in ALL] + [Unit("efx", ["m_C26.cpp"], flavour="asan", only="C26.array,C26.functors,C26.casts")],
    rule="a case is one use of a numerical utility on a problem with a known answer, or a random program over dynamic arrays with every element's lifetime tracked; distinct by problem",
    must_hit=["C26.bisect:root at an end", "C26.bisect:no root", "C26.newton:no root", "C26.trapezoid:zero integral", "C26.trapezoid:periodic", "C26.derivative:default step", "C26.array:self move"])
SPECS["C27"] = dict(units=lambda: [Unit(b, ["m_C27.cpp"], scale=8) for b in ALL] + [Unit(b, ["m_C27.cpp"], digits=d, scale=0.3) for d in (50, 300) for b in ALL],
    rule="a case is one argument given to the generic functions of one type (float, double, long double, e_float, or a type the library does not know); distinct by type and argument",
    must_hit=["C27.algo:sqrt", "C27.algo:rootn", "C27.algo:log", "C27.algo:pown", "C27.algo:constants"])
def c28():
    m = sys.modules.get("__main__"); d = (m if hasattr(m, "locales") else __import__("vrun")).locales()
    return [Unit(b, ["m_C28.cpp"], env={"LOCPATH": d}, cpu=200, scale=5, tf=10) for b in ALL]
SPECS["C28"] = dict(units=c28,
    rule="a case is a drawn sequence of calls run once in the classic locale and once with locales drawn for every call, results compared as text; distinct by calls and locales",
    must_hit=["C28.first:facet comma and points by three", "C28.first:facet groups of one", "C28.change:facet comma only", "C28.first:generic complex text", "C28.first:zeta", "C28.first:boost number"])
SPECS["C29"] = dict(units=lambda: [Unit(b, ["m_C29.cpp"], cpu=200, scale=3, tf=10) for b in ALL] + [Unit(b, ["m_C29.cpp"], flavour="asan", cpu=300, scale=0.4, tf=5) for b in ALL],
    rule="a case is a drawn sequence of calls made by a static object's constructor before main (and again by its destructor after main) in a fresh process, results compared with those inside main; distinct by calls",
    must_hit=["C29.before:constants", "C29.both:zeta", "C29.both:factors", "C29.before:large table index", "C29.both:generic"])
SPECS["C30"] = dict(units=lambda: [Unit(b, ["m_C30.cpp"], cpu=600, scale=3, tf=10) for b in ALL] + [Unit(b, ["m_C30.cpp"], flavour="asan", cpu=600, scale=0.5, tf=5) for b in ALL],
    rule="a case is one drawn call with six drawn patterns of failing allocations, each in a fresh process; distinct by call and patterns",
    must_hit=["C30.fail:reported", "C30.fail:one", "C30.fail:all from one on", "C30.fail:reuse", "C30.fail:every allocation", "C30.fail:one constant", "C30.fail:dynamic array", "C30.fail:generic complex text"])
