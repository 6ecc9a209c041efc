T = "property-based testing: "
C = "Exploration of generated inputs with the overflow-checked build (thorough: also the release build); trusts the harness's references and tolerances. "
NOTE = {
 "C01": (T + "generated operands and forms, exact integer arithmetic as oracle", C + "Exact for integer and fixed scalars, rounding bounds for floats."),
 "C02": (T + "generated operands and forms, exact integer quotient bounds as oracle", C + "Exact bounds from integer arithmetic for integer and fixed scalars."),
 "C03": (T + "stateful generation of assignment histories, plain operators as model", C + "Bitwise comparison after every step."),
 "C04": (T + "generated pairs over all component/scalar pairings, componentwise model", C + "Bitwise comparison."),
 "C05": (T + "generated dividends incl. extremes, saturation oracle", C + "Bitwise comparison."),
 "C22": (T + "all 8/16-bit words and generated wider ones against double-double sine/cosine", C + "Tolerances grow with fractional bits, calibrated from measured maxima."),
 "C23": (T + "all 8/16-bit arguments and generated wider ones against double-double arccosine", C + "Tolerances grow with fractional bits, calibrated from measured maxima."),
 "C24": (T + "all 8-bit pairs, all 16-bit values and generated wider ones against double-double arctangent", C + "Tolerances grow with fractional bits, calibrated from measured maxima."),
 "C25": (T + "all 8/16-bit arguments and generated wider ones against double-double exponential", C + "Tolerances grow with fractional bits and the result, calibrated from measured maxima."),
 "C06": (T + "generated polar operands over all scalars, double-double phasors as oracle", C + "Real scaling is compared bitwise; mixed products as phasors with a rounding bound."),
 "C07": (T + "generated numbers, double-double phasors and round trips as oracle", C + "All routes are compared bitwise with each other."),
 "C08": (T + "generated numbers, negation and norm as oracle", C + "Bitwise for the conjugates; a rounding bound for z times its conjugate."),
 "C09": (T + "generated numbers, double-double magnitude and argument as oracle", C + "Accessors are compared bitwise with each other."),
 "C10": (T + "generated arguments, double-double exponential phasor as oracle", C + "Tolerances composed of those of C22 and C25."),
 "C11": (T + "generated bases and powers, exact repeated multiplication in double-double as oracle", C + "Tolerances composed of those of magnitude, argument and sine."),
 "C12": (T + "generated numbers and format specifications, renderer model over the scalar's own formatting", C + "Text is compared exactly, and with num::Complex where it has the format."),
 "C13": (T + "all pairs of supported types, generated and enumerated words, exact conversion model", C + "Bitwise comparison."),
 "C14": (T + "all pairings of component and scalar types, real conversion as model", C + "Bitwise comparison."),
 "C15": (T + "generated words of every type against identity laws; constants against correctly rounded ones", C + "Exact."),
 "C16": (T + "generated and enumerated words of every type against the sign laws", C + "Exact."),
 "C17": (T + "generated bases and exponents, exact integer powers and double-double powers as oracle", C + "Exact for integers, accumulated rounding bounds otherwise; a watchdog decides promptness."),
 "C18": (T + "all 8/16-bit words, generated wider ones and floats, exact modular arithmetic as oracle", C + "Exact for fixed point, rounding bounds for floats."),
 "C26": (T + "enumerated small words and generated others, exact square root as oracle", C + "The documented error, with one listed finding near four table boundaries."),
 "C19": (T + "permuted enumeration of f32 arguments and generated f32/f64 ones against glibc in double precision", C + "Tolerances of 2 to 4 units in the last place; special values exact."),
 "C20": (T + "permuted enumeration of f32 arguments and generated f32/f64 ones against glibc in double precision", C + "Roots and rounding exact, the others within a few units in the last place."),
 "C21": (T + "generated values against double-precision logarithms and powers, round trips", C + "Rounding bounds composed of those of C20."),
 "C27": (T + "all 8/16-bit words in range, generated wider ones and floats against double-double sine and cosine", C + "4e-6 plus resolution steps."),
 "C28": (T + "all 8-bit pairs and generated others against double-double arctangent", C + "0.29 degrees plus resolution steps; axes and origin exact."),
 "C29": (T + "generated arguments through an instrumented scalar that counts operations", C + "Bounds on the count are fixed numbers with a margin over the measured maxima."),
 "C30": (T + "generated expression trees and operands over rationals and a prime field, the extension field as model", C + "Exact."),
 "C31": (T + "generated straight-line programs, double-double interpreter with running error bounds as reference", C + "Error bounds composed of those of the other properties."),
 "C32": (T + "generated operations and format specifications run in both builds, differential comparison", C + "Bitwise comparison of transcripts."),
 "C33": (T + "generated pairs of pairs over every scalar, the scalar's own comparisons as model", C + "Bitwise comparison."),
 "C34": (T + "differential over 100 pairs of fixed-point types of one resolution, 8-bit pairs and 16-bit words enumerated", C + "Bitwise comparison; only the build that notices overflows decides it."),
 "C35": (T + "generated float operands with infinities and NaN, a dependency table as oracle", C + "Exact."),
}
