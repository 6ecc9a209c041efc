#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the statements live here so that they are easy to review and diff)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe or [], hook_needed=hook)))

CI = "src/complex/cartesian_impl.rs"; OPS = "src/complex/ops.rs"; POL = "src/complex/polar_impl.rs"
FX = "src/fixed_impl.rs"; FL = "src/float_impl.rs"; F32 = "src/float_impl/f32_impl.rs"; F64 = "src/float_impl/f64_impl.rs"
INT = "src/int_impl.rs"; TR = "src/trigonometry.rs"; AT = "src/trigonometry/atan.rs"; SQ = "src/trigonometry/sqrt.rs"
FMT = "src/complex/cartesian_impl/num_complex_impl.rs"; MT = "src/traits/math_traits.rs"; TT = "src/traits.rs"; CT = "src/traits/complex_traits.rs"

p("C01", "Cartesian sum, difference and product are the complex ones in every form",
  "For any two cartesian complex numbers whose partial products and result fit the scalar type, every way the library offers to add, subtract or multiply them (operators with the right operand by value, by reference, by mutable reference or as num::Complex, and the free functions) gives the complex sum, difference or product. Sums and differences are exact for integer and fixed scalars; products are off by no more than the scalar's own rounding of the partial products; all forms agree bit for bit.",
  ["inputs"], "all pairs of complex operands over f32, f64, i8..i128/isize and all 112 signed fixed-point types, all operand forms",
  "Doc-tests evaluate one f32 square and a few scalar operations; addition, subtraction and all reference / num::Complex forms are never executed.",
  [CI, OPS], [("mul_cartesian / add / sub free functions", OPS), ("Mul, Add, Sub impl macros per operand form", CI)],
  ["operator results", "complex::add, complex::sub, complex::mul_cartesian"])

p("C02", "Complex division returns the quotient in every form",
  "For any cartesian numerator and non-zero cartesian denominator for which the products, the squared norm and the quotient fit the scalar type, every division form (operator by value, reference, mutable reference, num::Complex, and the free function) gives the complex quotient, so that multiplying it by the denominator gives the numerator back within rounding. All forms agree bit for bit.",
  ["inputs"], "all numerator/denominator pairs over f32, f64, signed integers and all signed fixed-point types, incl. purely real and purely imaginary denominators",
  "No test divides by a complex number at all.",
  [CI, OPS], [("quotient formula (ac+bd)/(c^2+d^2), (bc-ad)/(c^2+d^2)", CI), ("div_cartesian", OPS)],
  ["Cartesian / Cartesian", "Cartesian / num::Complex", "complex::div_cartesian"])

p("C03", "Compound assignment equals the plain operator, over any history",
  "For any history of +=, -=, *= and /= steps with any accepted right operand (cartesian, num::Complex, polar, or a real scalar of any convertible type, by value or reference), the accumulator after every step equals, bit for bit, the result of the corresponding plain operator on the state before the step. In particular real and imaginary part are updated from the old state, and a step that saturates leaves exactly the saturated value.",
  ["histories", "inputs"], "all sequences of compound assignments with generated operands on f32, f64 and fixed-point accumulators",
  "Tests use `+= scalar` once on one value; += / -= / /= with a complex right operand and *= polar are never run, and no sequence is.",
  [CI], [("AddAssign, SubAssign, DivAssign, MulAssign impls", CI)],
  ["accumulator after each step"])

p("C04", "Complex-with-real operations convert the scalar and act componentwise",
  "Adding or subtracting a real scalar of any supported type to a cartesian number changes only the real part, and multiplying or dividing by a non-zero one scales both parts; the result is what first converting the scalar to the complex number's own component type gives. This holds for every pairing of component type and scalar type the library accepts.",
  ["inputs"], "all complex operands x all scalar operands x pairings of component type (f32, f64, fixed) and scalar type (f32, f64, i8..i128, isize, u8..u128, usize, fixed)",
  "Doc-tests use f32 components with one f64 and one f32 scalar; integer and fixed scalars and fixed components are never combined.",
  [CI], [("Add<T1>, Sub<T1>, Mul<T1>, Div<T1> for Cartesian<T2>", CI), ("MixedNumConversion impls", FX + ", " + FL)],
  ["Cartesian op scalar"])

p("C05", "Dividing a complex number by real zero saturates instead of failing",
  "Dividing a cartesian number by a real zero of any type, with the operator, the compound assignment or the free function, gives the scalar type's maximum value in both parts, and dividing a polar number by zero gives maximum magnitude with the angle kept. No such division panics or yields infinity or NaN, whatever the dividend (including zero, negative and extreme dividends, and negative zero as divisor).",
  ["inputs"], "all dividends over f32, f64, signed integers and signed fixed-point types x zeros of every scalar type",
  "No test divides by zero.",
  [CI, OPS, POL], [("zero test before the division", CI), ("div_scalar_cartesian", OPS), ("Div<T> for Polar<T>", POL)],
  ["Cartesian / 0", "Cartesian /= 0", "complex::div_scalar_cartesian", "Polar / 0"])

p("C06", "Polar products and quotients represent the complex product and quotient",
  "Multiplying polar numbers multiplies magnitudes and adds angles, and a product with a zero-magnitude factor is the canonical zero (magnitude 0, angle 0); multiplying or dividing by a real scalar scales only the magnitude. Multiplying polar by cartesian (either order, including *=) gives, as a phasor, the same number as multiplying the two in cartesian form, within rounding.",
  ["inputs"], "all polar operand pairs over f32, f64 and signed fixed-point types, incl. zero magnitudes, scalars of either sign",
  "Polar arithmetic is not tested anywhere.",
  [POL, OPS, CI], [("mul_polar", OPS), ("Mul/Div impls for Polar", POL), ("Mul<Polar>/MulAssign<Polar> for Cartesian", CI)],
  ["Polar * Polar", "Polar * Cartesian", "Cartesian * Polar", "Polar * T", "Polar / T"])

p("C07", "Polar/cartesian conversion denotes the same number and round-trips",
  "Converting a polar number to cartesian form gives (m cos a, m sin a) for any angle, wrapped or not, and converting a cartesian number to polar form gives its magnitude and its argument in [-pi, pi]; converting there and back returns the start within the accuracy of the scalar type's trigonometry and square root. Every route (conversion methods, constructors from cartesian or polar coordinates, free functions, identity conversions) gives the same result.",
  ["inputs"], "all magnitudes, angles and components over f32, f64 and signed fixed-point types for which the squared magnitude is representable",
  "Tests convert two f32 values.",
  [OPS, CI, POL], [("to_polar / to_cartesian", OPS), ("ToPolar, ToCartesian, NewFromPolar, NewFromCartesian", CI + ", " + POL)],
  ["to_polar", "to_cartesian", "new_from_polar", "new_from_cartesian"])

p("C08", "Conjugation negates exactly the imaginary part or the angle",
  "The conjugate of a cartesian number has the same real part and the negated imaginary part, that of a polar number the same magnitude and negated angle; conjugating twice gives the number back, and a conjugate requested in the other representation denotes the same number. For every value, z times its conjugate is the squared magnitude with zero imaginary part (within a resolution step for fixed point).",
  ["inputs"], "all complex values over f32, f64, signed integers and signed fixed-point types, all source/target representations",
  "One f32 value per representation is tested; cross-representation conjugates are not.",
  [CI, POL], [("Conj for Cartesian", CI), ("Conj for Polar", POL)], ["conj()"])

p("C09", "Magnitude and argument are right and all their forms agree",
  "For any cartesian number whose squared magnitude is representable, the magnitude is the square root of re^2+im^2 and the argument is the angle in [-pi, pi] with the quadrant of (re, im), within the accuracy of the scalar type. All accessors (mag, abs, the free function, mixed_abs, arg, ang) and the polar form agree with each other exactly, and mixed_abs has zero imaginary part or angle.",
  ["inputs"], "all complex values over f32, f64 and signed fixed-point types with representable squared magnitude, incl. axis-aligned and diagonal values",
  "Tests look at one f32 value (0.5 at 0.5 rad).",
  [CI, POL, OPS], [("Mag, Arg, MixedAbs", CI + ", " + POL), ("abs", OPS)], ["mag", "abs", "arg", "ang", "mixed_abs"])

p("C10", "Complex exponential is e^re (cos im + i sin im)",
  "For any cartesian argument whose exponential is representable, the complex exponential has magnitude e^re and the phase im: its parts are e^re cos(im) and e^re sin(im) within the accuracy of the scalar type's functions. A zero imaginary part gives the real exponential and a zero imaginary result, exactly for floats, within the type's accuracy for fixed point.",
  ["inputs"], "all arguments over f32, f64 and signed fixed-point types with representable result",
  "The only tests of it fail at this commit (they pin libm digits), so nothing guards it.",
  [CI], [("MixedExp for Cartesian", CI)], ["Cartesian::mixed_exp"])

p("C11", "Complex integer power is repeated multiplication within accuracy",
  "For any fixed-point complex base and small non-negative integer power for which magnitude, angle product and result are representable, the complex integer power approximates the product of that many factors of the base: power 0 gives one, power 1 the base, within the accuracy of the type's square root and trigonometry.",
  ["inputs"], "all bases over the signed fixed-point types and powers 0..=8 with representable intermediates",
  "One base (1+1i), one power (2), one type is tested.",
  [OPS], [("powi", OPS)], ["complex::powi"])

p("C12", "Complex numbers print as sign, real, sign, imaginary, i in every format",
  "For any cartesian number, Display, LowerExp, UpperExp, hexadecimal, octal and binary output is the real part's own rendering, then + or - according to the sign of the imaginary part, then the rendering of the imaginary part's absolute value and `i`, with precision, `+` and `#` flags applied the way num::Complex applies them. Polar numbers print magnitude, the angle sign character and angle; formatting flags either change nothing there or are handed on to both parts.",
  ["inputs", "configurations"], "all values over floats, integers and fixed-point types x format traits x precision/sign/alternate flags",
  "Tests print a handful of f32 values without flags; hex, octal and binary, flags and precision are never used.",
  [FMT, POL], [("write_complex", FMT), ("Display for Polar", POL)], ["format!"])

p("C13", "Real conversions preserve the value or round as the target type does",
  "Converting between any two supported real types gives exactly the same value whenever the target can represent it. Otherwise float to integer truncates toward zero and saturates (NaN gives 0), integer to integer and integer to float follow Rust's cast rules, conversion to fixed point gives a neighbouring representable value (nearest from floats) and fixed point to integer rounds down.",
  ["inputs"], "all values x every ordered pair of {f32, f64, 12 integer types} and every pair of a fixed-point type (all 224) with each of them, both directions",
  "Tests convert one value between f32 and f64 and print two fixed-point values.",
  [FX, FL, INT, TT], [("impl_mixed_num_conversion macros", FX + ", " + FL + ", " + INT)], ["mixed_from_num", "mixed_to_num"])

p("C14", "Conversions into and out of complex types keep what they should",
  "Converting a cartesian number to another component type converts both parts independently; converting a real to a complex type gives that value with zero imaginary part (cartesian) or zero angle (polar), and converting a cartesian to a real type gives exactly the converted real part. Real to complex to real is the identity on values both types represent.",
  ["inputs"], "all values x all pairs of real/complex types for which the library defines the conversion",
  "Two f32/f64 values are tested.",
  [CI, POL, FX, FL], [("MixedNumConversion<Cartesian<T1>> for Cartesian<T2>", CI), ("MixedNumConversion<T2> for Polar<T>", POL), ("MixedNumConversion<Cartesian<T2>> for reals", FX + ", " + FL), ("MixedComplexConversion", CI + ", " + POL)],
  ["mixed_from_num", "mixed_to_num", "mixed_to_complex"])

p("C15", "Constants and limits are correct for every supported type",
  "For every supported real type zero and one are the exact additive and multiplicative identities, the maximum and minimum are the type's own, and pi and tau are the constants rounded to the coarser of the type's resolution and double precision wherever the type can hold them. For complex types zero and one are the identities of complex addition and multiplication.",
  ["configurations", "inputs"], "all 14 primitive types, all 224 fixed-point types (tau only where 2*pi is representable), both complex forms; identities over all operands",
  "Only f32 pi is used in a test; none of the other types' constants are.",
  [FX, FL, INT, CI, POL], [("MixedPi, MixedZero, MixedOne, MixedReal limits", FX + ", " + FL + ", " + INT)], ["mixed_pi", "mixed_tau", "mixed_zero", "mixed_one", "mixed_max_value", "mixed_min_value"])

p("C16", "Sign and absolute value describe the same number consistently",
  "For every non-NaN value of every supported real type whose absolute value is representable, the sign is -1 for negative numbers and +1 otherwise (zero included), sign times absolute value gives the number back, and the absolute value is never negative. For non-zero values exactly one of is-positive and is-negative holds and it agrees with the sign.",
  ["inputs"], "all values of all 14 primitive and 224 fixed-point types",
  "Two values of one fixed-point type are tested.",
  [FX, FL, INT, TR], [("sign", TR), ("MixedAbs, MixedReal", FX + ", " + FL + ", " + INT)], ["mixed_sign", "mixed_abs", "mixed_is_positive", "mixed_is_negative"])

p("C17", "Integer power is repeated multiplication, negative exponents its reciprocal",
  "For every base of every supported real type and every exponent for which the result and the intermediate powers are representable, the integer power equals the exact power for integers (anything to the power 0 is 1) and is within accumulated rounding of it for fixed and floating point. A negative exponent gives the power of the reciprocal (in integer types the truncated one) and terminates promptly. Floating-point bases zero, infinite and NaN follow IEEE powers.",
  ["inputs"], "all bases x exponents of either sign with representable result, over all 14 primitive and 224 fixed-point types",
  "One base and exponent (-2 squared, one fixed type) is tested; no integer type, no negative exponent.",
  [FX, FL, INT, TR], [("powi", TR), ("MixedPowi impls", FX + ", " + FL + ", " + INT)], ["mixed_powi", "trigonometry::powi"])

p("C18", "Phase wrapping lands in [-pi, pi) and changes the angle by whole turns",
  "For every finite angle of every float and signed fixed-point type, the wrapped phase lies in -pi <= x < pi and differs from the argument by a whole number of turns of the type's own pi, exactly for fixed point and within rounding of the argument for floats. A phase already in range is returned unchanged; very large and extreme angles are wrapped like any other.",
  ["inputs"], "all finite values of f32, f64 and all 112 signed fixed-point types",
  "One value of one type is tested.",
  [TR, FX, FL], [("wrap_phase", TR), ("MixedWrapPhase", FX + ", " + FL)], ["mixed_wrap_phase", "trigonometry::wrap_phase"])

p("C19", "Float trigonometric and hyperbolic functions are the mathematical ones",
  "For every f32 and f64 argument, sin, cos, sincos, tan, asin, acos, atan, atan2, sinh, cosh, tanh, asinh, acosh and atanh return the mathematical value to within a few units in the last place, with the IEEE results outside the domain and for signed zeros, infinities and NaN. The paired sine/cosine gives exactly the two separate functions.",
  ["inputs"], "all f32 and f64 bit patterns (and pairs for atan2)",
  "Only one atan value and pi in the complex exponential are touched by tests.",
  [F32, F64], [("delegation to libm", F32 + ", " + F64)], ["mixed_sin ... mixed_atanh"])

p("C20", "Float exponentials, logarithms, roots and rounding are the mathematical ones",
  "For every f32 and f64 argument, exp, exp2, exp10, pow, log, log2, log10, sqrt, cbrt, ceil and floor return the mathematical value (sqrt, ceil and floor exactly rounded, the others to within a few units in the last place), with the IEEE results outside the domain and for signed zeros, infinities and NaN.",
  ["inputs"], "all f32 and f64 bit patterns (and pairs for pow)",
  "Four decibel unit tests touch log10 and exp10 at one value each.",
  [F32, F64], [("delegation to libm", F32 + ", " + F64)], ["mixed_exp ... mixed_floor"])

p("C21", "Decibel conversions are 10/20 log10 and invert each other",
  "For every positive float, the magnitude and power decibel values are 20 log10 x and 10 log10 x, the inverse conversions are 10^(x/20) and 10^(x/10), each within a few units of rounding, and converting back and forth returns the start within the rounding of the decibel value. The magnitude decibel value of x is the power decibel value of x squared. Zero gives minus infinity, negative numbers and NaN give NaN.",
  ["inputs"], "all positive f32 and f64 values (forward), all finite decibel values with representable result (inverse)",
  "Unit tests pin one value per function, f32 only.",
  [FL], [("DbMag, DbPow", FL)], ["mixed_mag2db", "mixed_db2mag", "mixed_pow2db", "mixed_db2pow"])

p("C22", "Fixed-point sine and cosine are accurate for every type and angle",
  "For every signed fixed-point type and every angle, sine and cosine are within a small number of resolution steps (or of double-precision units where those are coarser; growing with the number of fractional bits and of whole turns) of the mathematical value, no angle panics, and the paired form returns exactly the separate sine and cosine, in that order.",
  ["inputs"], "all 112 signed fixed-point types; all angles of 8 and 16 bit types, generated angles up to several hundred radians otherwise",
  "No fixed-point sine or cosine is tested.",
  [FX], [("MixedSin, MixedCos via cordic", FX)], ["mixed_sin", "mixed_cos", "mixed_sincos"])

p("C23", "Fixed-point arcsine and arccosine are accurate on [-1, 1]",
  "For every signed fixed-point type and every argument in [-1, 1], arcsine and arccosine are within a small number of resolution steps (or of double-precision units where those are coarser) of the mathematical value and never panic; they sum to pi/2 within a resolution step.",
  ["inputs"], "all 112 signed fixed-point types x all arguments in [-1, 1]",
  "No fixed-point asin or acos is tested.",
  [FX], [("MixedSin::mixed_asin, MixedCos::mixed_acos", FX)], ["mixed_asin", "mixed_acos"])

p("C24", "Fixed-point arctangents are accurate for every argument without overflow",
  "For every signed fixed-point type, atan of any value and atan2 of any pair except (0, 0) is within a small number of resolution steps, or of double-precision units where those are coarser (plus the effect of rounding the quotient), of the mathematical value, in the right quadrant and within [-pi, pi] up to that accuracy. No operand magnitude or ratio, extreme values included, makes them panic or wrap.",
  ["inputs"], "all 112 signed fixed-point types x all values / all pairs, incl. minimum, maximum, tiny and axis-aligned operands",
  "One fixed-point atan value is tested.",
  [FX], [("MixedAtan", FX)], ["mixed_atan", "mixed_atan2"])

p("C25", "Fixed-point exponential is accurate where the result is representable",
  "For every signed fixed-point type and every argument whose exponential is representable (negative arguments included), the exponential is within a small number of resolution steps (or of double-precision units where those are coarser), scaled by the result, of the mathematical value and does not panic.",
  ["inputs"], "all 112 signed fixed-point types x all arguments down to -200 with representable result",
  "No fixed-point exponential is tested.",
  [FX], [("MixedExp via cordic", FX)], ["mixed_exp"])

p("C26", "NIIRF square root is accurate for every type, and exact at zero",
  "For every non-negative argument of every float, signed and unsigned fixed-point type, the filter square root with two iterations has an error of at most 5e-4 relative to the power of two that normalises the argument (plus the type's resolution on that scale), each further iteration takes that bound to a tenth, zero gives exactly zero, and negative arguments give the root of the absolute value. The general square root of fixed-point types is no less accurate. Neither panics, and multiplying a float argument by 4 exactly doubles the filter root.",
  ["inputs"], "all values of f32, f64, all 224 fixed-point types; also other iteration counts through the free function",
  "Three values of one fixed type are tested; no unsigned type, no float.",
  [SQ, FX, FL], [("niirf: normalise, estimate, denormalise", SQ), ("beta lookup table", SQ), ("MixedSqrt", FX + ", " + F32)], ["mixed_niirf", "mixed_sqrt (fixed)", "trigonometry::sqrt::niirf"])

p("C27", "Polynomial sine and cosine match the functions on the wrapped range",
  "For every float and signed fixed-point type and every x in [-pi, pi], the polynomial sine is within 4e-6 plus a few resolution steps of the sine, and the polynomial cosine, for any x whose quarter-turn shift is representable, of the cosine. The polynomial sine is odd, exactly for floats and within its rounding for fixed point, and no argument in these ranges panics or overflows.",
  ["inputs"], "all x in [-pi, pi] (sine) / any wrapped or unwrapped x (cosine) over f32, f64 and all 112 signed fixed-point types",
  "Two or three f32 values are pinned; the comparison plot asserts nothing; no fixed type is run.",
  [TR], [("sin", TR), ("cos", TR)], ["trigonometry::sin", "trigonometry::cos"])

p("C28", "Polynomial arctangent is accurate in all octants for every type",
  "For every pair of finite operands of a float or signed fixed-point type with representable absolute values, the polynomial atan2 (through the trait or the free function) and the polynomial atan are within 0.29 degrees plus a few resolution steps of the true angle, in the right octant and quadrant, exact on the axes (a negative zero may give either sign of pi), and (0, 0) gives 0. No operand, however small or large, panics.",
  ["inputs"], "all pairs over f32, f64 and all 112 signed fixed-point types, incl. octant boundaries, axes, tiny and near-maximum operands",
  "Three pairs of one type are pinned, all in the first two octants.",
  [AT, FX, F32, F64], [("atan2 octant selection", AT), ("atan", AT), ("mixed_atan2_poly", FX + ", " + F32)], ["mixed_atan2_poly", "trigonometry::atan::atan2", "trigonometry::atan::atan"])

p("C29", "Generic routines do a bounded amount of work on any finite input",
  "Phase wrapping, the polynomial trigonometric functions, the filter square root, polar/cartesian conversion and complex arithmetic finish after a number of scalar operations that is bounded by a small constant times the bit width of the type, for every finite argument and also for infinities and NaN. The integer power needs at most a constant number of operations per unit of the exponent.",
  ["inputs"], "all finite and non-finite f32/f64 arguments and fixed-point arguments, through an instrumented scalar type that counts operations",
  "Tests only run arguments near 1; nothing bounds the loops.",
  [TR, SQ, AT, OPS], [("wrap loops", TR), ("normalisation loops", SQ)], ["operation count of an instrumented scalar"])

p("C30", "Complex and numeric code is exact over any user-supplied scalar type",
  "For any user-defined scalar implementing the library's traits, complex addition, subtraction, multiplication, division, conjugation, scalar operations and integer powers perform exactly the corresponding operation of the complex extension: over exact scalars (rationals, a prime field) all field identities hold exactly, including (a/b)*b = a and distributivity.",
  ["programs", "inputs"], "generated expression trees and operands over exact user-defined scalars",
  "No test uses a scalar type other than f32, f64 and two fixed types.",
  [CI, OPS, TR, POL], [("generic impls bounded by Mixed* traits", CI)], ["results of generic code over test scalars"])

p("C31", "One generic numerical program gives the same answer on every scalar type",
  "Any program written once against the library's traits (arithmetic, conversions, absolute value, sign, phase wrap, trigonometry, square root, complex products and magnitudes) gives, on f32, f64 and every signed fixed-point type with enough range and resolution, results that agree within the accumulated rounding of the coarser type.",
  ["programs", "configurations", "inputs"], "generated straight-line programs and inputs, run over f32, f64 and a spread of fixed-point types",
  "No test runs the same computation over two types except one atan call.",
  [TT, MT, FX, FL, CI], [("trait implementations per type", FX + ", " + FL)], ["program outputs"])

p("C32", "The std feature changes nothing but width padding",
  "Built with and without the std feature the library returns bit-identical results for every operation and identical text for every format without a width; with the feature, a width right-aligns the complete rendering of a cartesian number in that many columns, and without it the width is ignored. The zero flag, the fill and the alignment change nothing.",
  ["configurations", "inputs"], "both feature configurations x generated operations, values and format specifications",
  "The feature is never enabled by the build or the tests.",
  [FMT, "src/lib.rs", "Cargo.toml"], [("cfg(feature = std) in write_complex", FMT)], ["format! with width", "result transcripts of both builds"])

p("C33", "Complex numbers are plain pairs of scalars",
  "Constructors, literals, field assignment, copies and identity conversions keep both parts of a cartesian or polar number bit for bit. Two numbers are equal exactly if both parts are equal by the scalar's own comparison, and ordered by the first part, then the second; a comparison with NaN is unordered. The default has both parts zero. In memory a number is its two scalars in order, without anything before, between or after them.",
  ["inputs"], "all pairs of pairs over every supported scalar type, with equal and neighbouring parts generated on purpose",
  "Tests compare a few results with expected literals; nothing orders, copies or lays out numbers.",
  ["src/complex.rs", CI, POL], [("derives and repr(C)", "src/complex.rs"), ("constructors", CI + ", " + POL)], ["constructors", "comparison operators", "size, alignment and bytes of a number"])

p("C34", "A wider fixed-point type of the same resolution gives the same results",
  "For any two fixed-point types with the same number of fractional bits and different widths, every operation of the library (constants, arithmetic, powers, phase wrap, trigonometry, exponential, roots, polynomials, conversions, complex operations in every representation) on operands both types hold gives, wherever the narrow type gives a result without overflowing, bit for bit the same result in the wide type. Only the values that saturate at the type's own limits differ.",
  ["configurations", "inputs"], "all operands of the narrow type over 50 pairs of signed and 50 pairs of unsigned types",
  "No test runs one computation in two fixed-point types.",
  [FX, TR, AT, SQ, CI, OPS], [("per-type implementations generated by macros", FX), ("generic routines", TR + ", " + AT + ", " + SQ + ", " + OPS)], ["results of every operation in both types"])

p("C35", "Floating-point operations are total and keep NaN visible",
  "For every bit pattern of f32 and f64 (infinities, NaN and subnormals included) no real or complex operation of the library panics, and a NaN operand makes NaN every result that depends on it: both parts of a product, the same part of a sum, magnitude and angle of a conversion. Excepted are pow(1, x) and pow(x, 0), division by zero, which saturates, the polynomial arctangent when one operand is zero, and polar products with a zero (or, from cartesian, vanishing) magnitude, which are the canonical zero.",
  ["inputs"], "all float operands of all real and complex operations",
  "No test passes an infinity or a NaN anywhere.",
  [FL, F32, F64, TR, AT, SQ, CI, OPS, POL], [("float trait implementations", F32 + ", " + F64), ("comparisons in generic routines", TR + ", " + AT + ", " + SQ)], ["results of every float operation"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for r in P:
        f.write(json.dumps(r, ensure_ascii=False) + "\n")
print(len(P))
