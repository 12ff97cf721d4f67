#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (development aid)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, text, why, files, mech, over=("inputs",), note="", tech=""):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, text=text, why=why, files=files, mech=mech, over=list(over), note=note, tech=tech))

RANDOM = "The tests check a few dozen fixed pairs and some files of MPFR results that are not in the repository; 2^512 operand pairs exist and the interesting ones (ties, sticky bits far below the significand, subnormals, carries through word boundaries) are a vanishing share of them."
p("A01", "Addition and subtraction are correctly rounded",
  "For all values x and y, x + y and x - y are the exact sum and difference rounded once to the nearest representable value, ties to even. Overflow gives the infinity of the right sign, subnormal results are exact, an exact zero has the sign IEEE 754 prescribes (+0 for x - x, -0 only for -0 + -0), inf - inf and any NaN operand give NaN.",
  "all pairs of bit patterns", RANDOM, ["src/binops/add.rs", "src/big_uint/mod.rs", "src/big_uint/uint128.rs"],
  [("alignment with a sticky bit, rounding", "src/binops/add.rs: add, sub"), ("special operands", "src/binops/add.rs: add_special, sub_special")])
p("A02", "Multiplication is correctly rounded",
  "For all values x and y, x * y is the exact product rounded once to nearest, ties to even, including products that are subnormal, round up to the smallest normal value, underflow to a zero or overflow to an infinity of the product's sign. 0 * inf and any NaN operand give NaN.",
  "all pairs of bit patterns", RANDOM, ["src/binops/mul.rs", "src/big_uint/uint128.rs"],
  [("512-bit product, rounding of normal and subnormal results", "src/binops/mul.rs")])
p("A03", "Division and reciprocal are correctly rounded",
  "For all values x and y, x / y is the exact quotient rounded once to nearest, ties to even, including subnormal results, underflow and overflow; the reciprocal of x is 1 / x. x / 0 is an infinity of the right sign for non-zero finite or infinite x, 0 / 0 and inf / inf are NaN, x / inf is a signed zero.",
  "all pairs of bit patterns", RANDOM, ["src/binops/div.rs", "src/big_uint/mod.rs", "src/big_uint/uint128.rs", "src/lib.rs"],
  [("long division with remainder as sticky bit", "src/binops/div.rs"), ("256-bit by 128-bit division", "src/big_uint/uint128.rs")])
p("A04", "Remainder is exact and has the sign of the dividend",
  "For all finite x and non-zero y, x % y is exactly x - n*y where n is x / y truncated towards zero, without rounding; it is smaller than y in magnitude and has the sign of x, also if it is zero. x % inf is x for finite x; inf % y, x % 0 and NaN operands give NaN.",
  "all pairs of bit patterns, exponent distances up to the whole exponent range", RANDOM, ["src/binops/rem.rs", "src/big_uint/mod.rs"],
  [("modular reduction of the shifted significand", "src/binops/rem.rs")])
p("A05", "Fused multiply-add rounds exactly once",
  "For all x, y and a, the fused multiply-add of x, y and a is the exact value x*y + a rounded once to nearest, ties to even, no matter how far the addend lies above or below the product, how many bits cancel, or whether operands and result are subnormal. Special operands behave as for an exact product followed by an addition (0*inf and inf - inf give NaN; an exact zero has the sign IEEE 754 prescribes).",
  "all triples of bit patterns", RANDOM, ["src/fused_ops/fma.rs", "src/big_uint/mod.rs"],
  [("512-bit accumulation with sticky bit", "src/fused_ops/fma.rs")])
p("A06", "Square, square-add and sum of squares round exactly once",
  "For all x and y, square is the correctly rounded x*x, square-add the correctly rounded x*x + a, and the sum of squares the correctly rounded x*x + y*y, each with a single rounding to nearest, ties to even, over the whole range including subnormal operands and results and overflow. A NaN operand gives NaN and an infinite operand of a sum of squares gives +inf.",
  "all bit patterns, pairs of them", RANDOM, ["src/fused_ops/sos.rs", "src/fused_ops/fma.rs", "src/lib.rs"],
  [("sum of two 512-bit squares", "src/fused_ops/sos.rs")])
p("A07", "Square root is correctly rounded",
  "For every x >= 0 the square root is the exact root rounded once to nearest, including subnormal x; it is exact for squares of representable values. The root of -0 is -0, of +inf is +inf, of a negative value or NaN is NaN.",
  "all bit patterns", RANDOM, ["src/math/sqrt.rs"], [("Newton iteration and final correction step", "src/math/sqrt.rs")])
p("A08", "Scaling by powers of two is exact or correctly rounded",
  "For all x and n (32 bit), multiplying by 2^n gives exactly x * 2^n or, beyond the range, the infinity of x's sign; dividing by 2^n gives x / 2^n, rounded to nearest, ties to even, if the result is subnormal or zero. Doubling and halving are the case n = 1; zeros, infinities and NaN are returned unchanged.",
  "all bit patterns and all 32-bit shift counts", "The tests scale a handful of values; subnormal operands that become normal, results that drop out of the subnormal range and shift counts near the limits of the exponent and of the integer type are not enumerated.", ["src/lib.rs", "src/big_uint/mod.rs"],
  [("exponent adjustment and subnormal rounding", "src/lib.rs: mul_pow2, div_pow2"), ("rounding division", "src/big_uint/mod.rs: rounding_div_pow2")])
p("B01", "Comparison, min, max and clamp follow the numerical order",
  "Equality and partial order compare numerical values: -0 equals +0, infinities are the extremes, NaN is unordered and unequal to everything. Minimum and maximum return the smaller or larger operand and ignore a single NaN; clamping returns the bound that is exceeded, else the value itself, keeps NaN, and panics if the bounds are NaN or reversed.",
  "all pairs of bit patterns; triples for clamping", "The tests compare a few values, none of them two different negative ones through the operators; order has to hold for all pairs.", ["src/binops/cmp.rs", "src/lib.rs"],
  [("comparison operators", "src/binops/cmp.rs"), ("min, max, clamp", "src/lib.rs: min, max, clamp")],
  note=" Known finding (recorded, not repaired because two tests of the existing suite depend on it): the operators <, <=, >, >= and the partial comparison order two negative values the wrong way round; exactly that reversal is reported as KNOWN-FINDING, anything else as a violation.")
p("B02", "Total order is the IEEE 754 total order",
  "The total comparison is a total order on all bit patterns: negative NaN < -inf < negative finite values < -0 < +0 < positive finite values < +inf < positive NaN, finite values in numerical order. It is antisymmetric and transitive, Equal only for identical bit patterns, and sorting any list by it gives that order.",
  "all pairs and triples of bit patterns; lists of arbitrary values", "The tests compare about a dozen values; totality, antisymmetry and transitivity are statements about all pairs and triples.", ["src/lib.rs"],
  [("mapping of bit patterns to a total order", "src/lib.rs: total_cmp")])
p("B03", "Classification, sign, negation, absolute value and ulp agree with the bits",
  "Every bit pattern belongs to exactly one of zero, subnormal, normal, infinite and NaN and all predicates agree with that classification; the sign predicates, negation and absolute value look at or change nothing but the sign bit. The ulp of a finite value is the distance between adjacent representable values at its exponent (the smallest subnormal for zero and subnormals), and NaN for non-finite values.",
  "all bit patterns", "The tests check one or two members of each class; the class limits (all exponent values, any non-zero fraction for NaN) are not enumerated.", ["src/lib.rs"],
  [("predicates on exponent and fraction bits", "src/lib.rs: classify, is_nan, is_infinite, is_finite, is_subnormal, is_normal"), ("ulp", "src/lib.rs: ulp")])
p("B04", "Rounding to integers is exact in every mode and keeps the sign",
  "For every finite x, truncation, ceiling, floor, rounding half away from zero and rounding half to even return the integer their definition prescribes, with the sign of x if it is zero; values of at least 2^236 in magnitude, zeros, infinities are returned unchanged and NaN stays NaN. The fractional part is x minus its truncation, exactly (the sign of a zero fraction is left open), and splitting returns both.",
  "all bit patterns", "The tests use small decimal literals; halves, their neighbours at every exponent up to 2^237, and values below one half in magnitude are not enumerated.", ["src/lib.rs", "src/big_uint/mod.rs"],
  [("bit masking per exponent", "src/lib.rs: trunc, ceil, floor, round, round_tie_even, fract, split")])
p("B05", "Whatever is not a number is the one NaN",
  "An arithmetic operation, rounding, root, or elementary function gives a NaN exactly when an operand is a NaN or the result is not defined (infinities of opposite sign added, zero times infinity, 0/0, inf/inf, remainder of infinity or by zero, root of a negative value, argument outside the domain of the function); the logarithms also give it at zero and infinity. Whatever is not a number is the one canonical NaN bit pattern (positive, quiet, no payload) whenever no operand is a different NaN pattern. That NaN is unequal to itself, recognised by the NaN predicate, and formats as NaN.",
  "all pairs and triples of bit patterns; special values enumerated", "The tests check a few invalid operations by predicate; each operation has its own paths that produce NaN.", ["src/lib.rs", "src/binops/add.rs", "src/binops/mul.rs", "src/binops/div.rs", "src/binops/rem.rs", "src/fused_ops/fma.rs"],
  [("single NaN constant", "src/lib.rs: NAN"), ("special operand handling", "src/binops, src/fused_ops, src/math")])
p("C01", "Conversion from every integer type is exact and keeps order and sums",
  "Converting any value of any primitive integer type up to 128 bits gives exactly that integer. Hence order, sums and differences of the converted values agree with those of the integers.",
  "all values of u8..u128 and i8..i128, pairs of them", "The tests convert the limits and a few values per type; all bit lengths and sign combinations are not covered.", ["src/conv/from_int.rs"],
  [("normalisation of the integer", "src/conv/from_int.rs")])
p("C02", "Conversion from f32 and f64 is exact",
  "Converting any f32 or f64 gives exactly the same value: normal and subnormal numbers, signed zeros, infinities, and NaN for NaN. Hence arithmetic on converted values whose exact result is an f64 agrees with f64 arithmetic, and the order is preserved.",
  "all bit patterns of f32 and f64", "The tests convert a handful of values; subnormal doubles of every length and special patterns are not enumerated.", ["src/conv/from_float.rs"],
  [("re-biasing and normalisation of subnormals", "src/conv/from_float.rs")])
p("C03", "Bits, bytes and sign-exponent-significand parts round-trip",
  "Conversion to and from the raw bits and to and from big-endian, little-endian and native-endian bytes are inverse to each other for every bit pattern, with the IEEE 754 binary256 layout and the byte orders mirroring each other. For every finite value the parts (sign, exponent, significand) denote exactly the value, and constructing a value from any non-zero parts gives the nearest value, ties to even. Debug output of a finite value shows such parts.",
  "all bit patterns and byte arrays", "The tests convert one or two values in each format.", ["src/lib.rs"],
  [("byte order conversion", "src/lib.rs: to_be_bytes, to_le_bytes, to_ne_bytes and inverse"), ("parts", "src/lib.rs: from_sign_exp_signif, as_sign_exp_signif")])
p("C04", "Parsing decimal literals is correctly rounded",
  "For every valid decimal literal, however many digits it has and however extreme its exponent, parsing returns the representable value nearest to the exact decimal, ties to even, with overflow to infinity and underflow to zero. The sign is kept, also for zero.",
  "all literals: any number of digits, position of the point, leading and trailing zeros, exponents within and beyond the 32-bit range", "The tests parse some dozens of literals; hard cases (decimals within 10^-80 relative distance of a halfway point, digits beyond the first 77 that decide a tie, subnormal results, compensating exponents) need construction.", ["src/conv/from_str/float_repr.rs", "src/conv/from_str/fast_exact.rs", "src/conv/from_str/fast_approx.rs", "src/conv/from_str/slow_exact.rs", "src/conv/from_str/powers_of_five.rs", "src/conv/big_decimal.rs"],
  [("exact and approximate fast paths", "src/conv/from_str/fast_exact.rs, fast_approx.rs"), ("fallback by decimal shifting", "src/conv/from_str/slow_exact.rs, src/conv/big_decimal.rs")])
p("C05", "The literal grammar is that of f64",
  "A string is accepted by parsing iff parsing it as f64 is accepted, with the same meaning of sign, infinity and NaN words (any letter case); everything else, empty strings included, is rejected with the same error as f64 gives. Parsing never panics on any string.",
  "all strings", "The tests try about a dozen malformed strings; chunked digit scanning makes acceptance depend on the position and length of odd characters.", ["src/conv/from_str/float_repr.rs", "src/conv/from_str/common.rs", "src/conv/from_str/mod.rs"],
  [("literal scanner, 8 digits at a time", "src/conv/from_str/common.rs, float_repr.rs")])
p("C06", "Default formatting is the shortest decimal that parses back to the value",
  "For every finite value the default and the scientific output without precision have the fewest significant digits that identify the value among all representable values and, among those, are closest to it (of two equally close, the one with an even last digit). Parsing any such output, or scientific output of at least 73 digits, returns the value, bit for bit.",
  "all finite bit patterns", "The tests print a few values; digit generation depends on the exponent through table entries and on the low bits of the significand, so any exponent may fail alone.", ["src/conv/to_str/dec_repr.rs", "src/conv/to_str/powers_of_five.rs", "src/conv/to_str/mod.rs", "src/conv/to_str/common.rs"],
  [("Ryu-like interval computation", "src/conv/to_str/dec_repr.rs")])
p("C07", "Fixed-point formatting with precision is correctly rounded",
  "For every finite value and every precision p up to 75, formatting with p decimals prints the exact value rounded to p decimals, ties to even, with all integer digits exact and exactly p decimals. The sign of the value is printed also if the digits are all zero.",
  "all finite bit patterns, precisions 0..75", "The tests print some values at some precisions; carries through nines, ties and values whose digits come close to a tie need construction, and large integers have up to 78914 digits.", ["src/conv/to_str/to_fixed_prec.rs", "src/conv/to_str/mod.rs"],
  [("chunked digit generation and rounding", "src/conv/to_str/to_fixed_prec.rs: bin_2_dec_fixed_point")])
p("C08", "Scientific formatting with precision is correctly rounded",
  "For every finite value and every precision p up to 75, scientific formatting prints one non-zero leading digit (zero only for zero), exactly p decimals and the exponent, equal to the exact value rounded to p + 1 significant digits, ties to even. Lower- and upper-case output differ in the exponent mark only.",
  "all finite bit patterns, precisions 0..75", "As for fixed-point output; in addition the decimal exponent has to be right next to every power of ten.", ["src/conv/to_str/to_fixed_prec.rs", "src/conv/to_str/mod.rs"],
  [("decimal exponent and chunked digit generation", "src/conv/to_str/to_fixed_prec.rs: bin_2_dec_scientific")])
p("C09", "Format flags pad and sign output as for built-in floats",
  "Width, fill, alignment, plus sign and zero padding apply to every output as they do to f64: the text without flags, padded to the width on the sides the alignment names (right-aligned by default), zeros inserted after the sign; infinities are padded like numbers, NaN is never signed nor (unlike an f64's) zero-padded. Precisions above 75 panic for finite non-zero values, as documented, and for no other.",
  "all combinations of flags, widths, fills and precisions on arbitrary values, zero, infinities and NaN", "The tests use a few flag combinations on a few values.", ["src/conv/to_str/mod.rs", "src/conv/to_str/formatted.rs"],
  [("padding", "src/conv/to_str/formatted.rs, mod.rs: format_special, format_nan")])
T = "its distance to the exact result is at most 0.501 times the spacing of representable values there"
p("D01", "Logarithms are accurate to half a unit in the last place",
  "For every positive finite x the natural, binary and decimal logarithm are the exact logarithm rounded to nearest, that is "+T+"; log 1 is +0 and logarithms of exact powers of the base are exact. The logarithm of zero, negative values, infinities and NaN is NaN.",
  "all bit patterns", "The tests check a few values; arguments close to one, subnormals, and every exponent are not sampled, and MPFR result files are missing.", ["src/math/log.rs", "src/math/feynman.rs", "src/math/big_float.rs", "src/math/fp509.rs"],
  [("Feynman's algorithm with tables", "src/math/log.rs, src/math/feynman.rs")])
p("D02", "Sine and cosine are accurate to half a unit in the last place",
  "For every finite x the sine and cosine are the exact function rounded to nearest, that is "+T+" (where |x| >= 1 an absolute error of 2^-490 may be added, which has weight only for the few arguments so close to a multiple of pi/2 that the result is below 2^-240), however large x is and however close it is to a multiple of pi/2; the simultaneous function returns the same two values. sin of a signed zero is that zero, results never exceed 1 in magnitude, infinities and NaN give NaN.",
  "all bit patterns", "The tests check some dozens of values; arguments that need thousands of bits of pi for reduction and arguments nearest to multiples of pi/2 need construction.", ["src/math/circular_fns/mod.rs", "src/math/circular_fns/sin.rs", "src/math/circular_fns/cos.rs", "src/math/circular_fns/sin_cos.rs", "src/math/big_float.rs", "src/math/fp509.rs"],
  [("argument reduction with a long 1/pi", "src/math/circular_fns"), ("series evaluation in extended precision", "src/math/fp509.rs, big_float.rs")])
p("D03", "Tangent is accurate to two units in the last place",
  "For every finite x the tangent differs from the exact tangent by at most 2.01 times the spacing of representable values there (it is the quotient of correctly rounded sine and cosine; next to poles and zeros the same absolute error of 2^-490 in sine or cosine may be added), however large x is and however close to a pole or zero. tan of a signed zero is that zero, infinities and NaN give NaN.",
  "all bit patterns", "As for sine and cosine; near the poles small absolute errors of the argument become large.", ["src/math/circular_fns/tan.rs", "src/math/circular_fns/mod.rs"],
  [("quotient of sine and cosine", "src/math/circular_fns/tan.rs")])
p("D05", "Arcsine and arccosine are accurate to half a unit in the last place",
  "For every x in [-1, 1] the arcsine and arccosine are the exact function rounded to nearest, that is "+T+", including arguments next to -1, 0 and 1; results lie in [-pi/2, pi/2] and [0, pi]. Arguments outside, infinities and NaN give NaN; the arcsine of a signed zero is that zero.",
  "all bit patterns", "The tests check a few values; cancellation next to the ends of the domain and tiny arguments are not sampled.", ["src/math/circular_fns/asin_acos.rs", "src/math/big_float.rs"],
  [("reduction to the arctangent of a root", "src/math/circular_fns/asin_acos.rs")])
p("D06", "Arctangent of one and two arguments is accurate and in the right quadrant",
  "For every x the arctangent, and for every pair (y, x) the two-argument arctangent, is the exact function rounded to nearest, that is "+T+", for all magnitudes and ratios including underflow of the ratio, infinities and NaN (which gives NaN). The two-argument result lies in the quadrant of the point (x, y) within [-pi, pi]; only the sign for y = -0 and the result for x = y = 0 are left open.",
  "all bit patterns, all pairs of them", "The tests check a few points per quadrant; extreme ratios and values on the edges of the reduction intervals are not sampled.", ["src/math/circular_fns/atan.rs", "src/math/big_float.rs"],
  [("argument reduction and quadrant selection", "src/math/circular_fns/atan.rs")])
p("D07", "Conversion between degrees and radians",
  "Conversion of any value to radians is x*pi/180 to within 0.501 times the spacing of representable values at the result, conversion to degrees is x*180/pi to within 1.09 times the spacing, including subnormal values and values near the limits of the range. Zeros, infinities and NaN are returned unchanged in class and sign.",
  "all bit patterns", "The tests convert five or six angles.", ["src/lib.rs", "src/math/big_float.rs"],
  [("multiplication by a constant with extra precision", "src/lib.rs: to_degrees, to_radians")])
p("E01", "Published constants are the correctly rounded values",
  "Every mathematical constant (pi and its multiples and fractions, e, roots, the golden ratio, Euler's constant) is the representable value nearest to the exact constant. Every limit of the type (largest and smallest values, epsilon, digit and exponent limits) is what its definition says.",
  "all published constants (enumerated)", "The tests compare a few constants with each other; a wrong low word in a 256-bit constant passes.", ["src/consts.rs", "src/lib.rs"],
  [("constants", "src/consts.rs, src/lib.rs")])
p("E02", "Operator forms agree and histories of operations follow the exact model",
  "All forms of an operator (by value, by reference on either side, assigning) give the same bits. Any sequence of additions, subtractions, multiplications, divisions, remainders, fused operations, roots, scalings, roundings and sign operations on a set of variables gives, after every step, the bits that correctly rounded IEEE 754 arithmetic gives.",
  "all sequences of operations on all starting values", "The tests apply operators to single operands; intermediate results that no one would choose as input (subnormal, carried, cancelled) only arise in histories.", ["src/lib.rs", "src/binops/mod.rs", "src/binops/add.rs", "src/binops/mul.rs", "src/binops/div.rs", "src/binops/rem.rs", "src/fused_ops/fma.rs"],
  [("forwarding of operator forms", "src/binops/mod.rs")], over=("histories", "inputs"))
p("E03", "Generic numeric traits agree with the inherent interface",
  "The generic zero and one, their predicates and generic parsing with radix 10 agree with the constants, comparisons and ordinary parsing for every value and string. Every other radix is rejected with an error.",
  "all bit patterns, all strings, all radices", "The tests check zero and one only.", ["src/num_traits.rs", "src/conv/from_str/mod.rs"],
  [("trait implementations", "src/num_traits.rs")])
p("F01", "Algebraic and monotonicity laws of arithmetic and rounding",
  "Commutativity of +, * and the sum of squares, sign symmetry of all operations, neutral elements, doubling and halving, sqrt(x*x) = |x| without over- or underflow, exactness of differences of close values and of the error terms of sums and products, and the bounds of the rounding functions hold bit for bit. Every correctly rounded operation and rounding function is monotonic in its operands. Remainders are smaller than the divisor and have the dividend's sign.",
  "all pairs and triples of bit patterns", "Laws relate results to each other for all operands; the tests have no law.", ["src/binops/add.rs", "src/binops/mul.rs", "src/binops/div.rs", "src/binops/rem.rs", "src/math/sqrt.rs", "src/fused_ops/fma.rs", "src/lib.rs"],
  [("arithmetic kernels", "src/binops, src/fused_ops, src/math/sqrt.rs")])
p("F02", "Symmetry and identity laws of the circular functions",
  "Sine, tangent, arcsine and arctangent are odd, cosine is even, bit for bit, for every argument; the simultaneous sine and cosine equal the separate ones. Within a few units in the last place sin^2 + cos^2 = 1, tan = sin / cos, the arcsine and arccosine of x add up to pi/2, the arccosines of x and -x to pi, the arctangents of |x| and 1/|x| to pi/2, and atan2(x, 1) is atan x.",
  "all bit patterns", "The tests check few identities at few points.", ["src/math/circular_fns/mod.rs", "src/math/circular_fns/sin.rs", "src/math/circular_fns/cos.rs", "src/math/circular_fns/tan.rs", "src/math/circular_fns/asin_acos.rs", "src/math/circular_fns/atan.rs"],
  [("sign handling and reduction", "src/math/circular_fns")])
p("G01", "No operation panics, hangs or breaks the canonical forms",
  "Every public operation returns for every operand, string and format, without panic, arithmetic overflow or failed assertion, in optimised and in checked builds; only the documented panics remain (precision above 75, clamping with bad bounds, the unimplemented functions). Results that are NaN are recognised as NaN by every predicate and format as NaN.",
  "all bit patterns, strings, shift counts and precisions, in release builds and in builds with overflow checks and debug assertions", "A panic needs one operand combination in 2^512; the tests sample few, and run without overflow checks in release.", ["src/lib.rs", "src/binops/add.rs", "src/big_uint/uint128.rs", "src/math/big_float.rs", "src/conv/from_str/mod.rs", "src/conv/to_str/mod.rs"],
  [("debug assertions and checked arithmetic", "src")], over=("inputs", "configurations"))

TECH = {
 "A": "property-based testing: structured random and enumerated operands against an MPFR reference (bit-exact differential oracle), shrinking",
 "B": "property-based testing: structured random and enumerated bit patterns against an independent model of the IEEE 754 encoding, shrinking",
 "C": "property-based testing: structured random and enumerated values/texts against exact GMP/MPFR decimal conversion and f64 as differential oracle, shrinking",
 "D": "property-based testing: structured random arguments (hard cases constructed) against MPFR with error bound, shrinking",
 "E": "model-based property testing: random histories and enumerated forms/constants against an MPFR model, shrinking",
 "F": "metamorphic property-based testing: algebraic laws over structured random operands, shrinking",
 "G": "robustness fuzzing: structured random operands, strings and formats; oracle: no panic, no failed assertion, no hang, canonical results; shrinking",
}
LEVEL = "Exploration: fixed number of seeded cases per run (counts in the evidence), in a release build and, for a fifth of the cases, in a build with overflow checks and debug assertions; nothing is proved beyond the cases run. Trusts GNU MPFR/GMP and the regenerated decimal tables."
with open(V + "/properties.jsonl", "w") as f:
    for q in P:
        f.write(json.dumps({"id": q["id"], "title": q["title"], "statement": q["statement"],
            "quantifier": {"over": q["over"], "text": q["text"]},
            "why_tests_cant": q["why"],
            "anchors": {"files": q["files"], "mechanism": [{"name": a, "where": b} for a, b in q["mech"]],
                        "observe_at": ["public API of f256"], "hook_needed": None}}, ensure_ascii=False) + "\n")
m = {"version": 1, "setup_cmd": "bash scripts/build.sh", "checks": [], "not_applicable": [],
     "notes": "No hooks: every property is observed through the public API, so /repo carries only fix commits. Known findings and repaired defects: KNOWN_FINDINGS.txt."}
for q in P:
    m["checks"].append({"property": q["id"], "quick_cmd": f"bash scripts/check.sh {q['id']} quick", "thorough_cmd": f"bash scripts/check.sh {q['id']} thorough",
        "evidence_file": f"evidence/{q['id']}.json", "technique": q["tech"] or TECH[q["id"][0]], "level": "exploration", "level_note": LEVEL + q["note"]})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(V + "/MANIFEST.json", "a").write("\n")
