#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements are readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or ["public API"]
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Parsing text is exact and rejects everything else with the right error",
 "A string is accepted exactly when, between optional ASCII whitespace, it is NaN in any letter case or an optional sign, decimal digits with an optional point (at least one digit) and an optional signed exponent; the result is then exactly the written value, with display scale max(0, written fraction digits - exponent). "
 "A blank string is reported as empty, a malformed one as invalid, and a well-formed one whose value reaches 10^131072, whose scale would exceed 16383, or whose exponent is 2^30-1 or more in magnitude as overflow. Parsing never panics.",
 ["inputs"], "every UTF-8 string", "string literals in tests sample a few dozen shapes; digit alignment, exponent shifting and range checks depend on lengths, positions and magnitudes in combination",
 ["src/parse.rs", "src/var.rs", "src/error.rs"], [("from_str/parse_str/parse_decimal", "src/parse.rs"), ("make_result range check and zero stripping", "src/var.rs")], observe=["FromStr for NumericBuf"])
prop("C02", "Displayed text is the exact value at its scale and parses back identically",
 "Formatting a numeric prints exactly its value with exactly `scale` fractional digits, no superfluous leading zeros, a minus sign only for negative non-zero values, and NaN as `NaN`; owned and borrowed numerics print the same. "
 "Parsing that text gives back the same value, the same scale and the same stored bytes.",
 ["inputs"], "every numeric value, including scales larger than the stored digits and the format's extreme weights and scales", "tests print values they have just parsed from nearly the same text",
 ["src/var.rs", "src/num.rs", "src/parse.rs"], [("write", "src/var.rs"), ("Display impls", "src/num.rs")], observe=["Display, FromStr"])
prop("C03", "Addition and subtraction are exact, and fail only on overflow",
 "checked_add and checked_sub return exactly the mathematical sum or difference with scale equal to the larger of the operand scales. "
 "They return None exactly when the magnitude of the exact result reaches 10^131072. With a NaN operand the result is NaN.",
 ["inputs"], "every pair of numerics", "carry, borrow, alignment and cancellation depend on the digit patterns and relative weights of both operands",
 ["src/var.rs", "src/num.rs"], [("add_abs/sub_abs/cmp_abs", "src/var.rs"), ("add_common/sub_common sign dispatch", "src/var.rs"), ("make_result", "src/var.rs")], observe=["Numeric::checked_add, checked_sub"])
prop("C04", "Multiplication is exact, and fails only on overflow",
 "checked_mul returns exactly the mathematical product with scale equal to the sum of the operand scales. "
 "It returns None exactly when that scale exceeds 16383 or the magnitude of the product reaches 10^131072. With a NaN operand the result is NaN.",
 ["inputs"], "every pair of numerics", "delayed carry normalisation only happens for long runs of large digits; tests multiply short operands",
 ["src/var.rs", "src/num.rs"], [("mul_common", "src/var.rs"), ("make_result", "src/var.rs")], observe=["Numeric::checked_mul"])
prop("C05", "Division is correctly rounded at the scale PostgreSQL selects",
 "checked_div returns the mathematical quotient rounded half away from zero to the scale PostgreSQL's numeric division selects (at least 16 significant digits, no less than either operand's scale, at most 1000 fractional digits). "
 "It returns None exactly when the divisor is zero or the result cannot be represented. With a NaN operand the result is NaN.",
 ["inputs"], "every pair of numerics", "quotient-digit correction (add-back) happens for about 3 in 10000 digit positions; rounding ties and scale selection depend on leading digits and weights",
 ["src/var.rs", "src/num.rs"], [("div_common (Knuth D)", "src/var.rs"), ("select_div_scale", "src/var.rs"), ("round_common", "src/var.rs")], observe=["Numeric::checked_div"])
prop("C06", "Truncating division and remainder satisfy the division identity",
 "checked_div_trunc returns the quotient truncated towards zero, as an integer with scale 0; checked_rem returns exactly a - trunc(a/b)*b, with the sign of a (or zero), magnitude below |b| and scale equal to the larger operand scale. "
 "Both return None exactly when the divisor is zero or the result cannot be represented, and NaN with a NaN operand.",
 ["inputs"], "every pair of numerics", "off-by-one quotients appear only for operand pairs near exact multiples, with particular digit patterns",
 ["src/var.rs", "src/num.rs"], [("div_common with round=false", "src/var.rs"), ("mod_common", "src/var.rs")], observe=["Numeric::checked_div_trunc, checked_rem"])
prop("C07", "round, trunc, ceil and floor return the mathematically right neighbour",
 "round and trunc at scale s (s is limited to -1000..1000; negative s rounds before the decimal point) return the nearest multiple of 10^-s, ties away from zero, respectively the nearest one towards zero, with display scale max(s,0); ceil and floor return the least integer not below and the greatest not above the value, with scale 0. "
 "round_mut and trunc_mut give the same as round and trunc; NaN stays NaN. round and ceil/floor panic only when the rounded value reaches 10^131072.",
 ["inputs"], "every numeric and every i32 scale", "rounding position relative to the base-10000 digit boundaries, carry chains through 9999 digits and results that lose or gain a digit are combinatorial",
 ["src/var.rs", "src/num.rs", "src/data.rs"], [("round_common/trunc_common", "src/var.rs"), ("ceil_common/floor_common", "src/var.rs"), ("reserve_rounding_digit", "src/data.rs")], observe=["Numeric::round/trunc/ceil/floor, NumericBuf::round_mut/trunc_mut"])
prop("C08", "Applying a typmod rounds to its scale and reports overflow exactly",
 "Typmod::new(p,s) exists exactly for 1<=p<=1000 and 0<=s<=p, and gives back p and s. Applying it to a number leaves the number rounded half away from zero to scale s and returns true exactly when that rounded magnitude is 10^(p-s) or more; the default typmod changes nothing, and NaN is left as NaN without overflow. "
 "If the rounded value cannot be represented at all, overflow is reported and the number keeps its previous value.",
 ["inputs"], "every numeric and every typmod", "tests apply about a dozen typmods to one value; the overflow test depends on leading decimal digits after rounding carries",
 ["src/var.rs", "src/num.rs", "src/typmod.rs"], [("apply_typmod", "src/var.rs"), ("Typmod::new/extract", "src/typmod.rs")], observe=["NumericBuf::apply_typmod, Typmod"])
prop("C09", "Comparison is the total order of the values, with NaN greatest",
 "Every comparison operation (==, !=, <, <=, >, >=, cmp, partial_cmp) between owned and borrowed numerics in any combination agrees with the order of the exact mathematical values, ignoring scale and storage form; NaN equals NaN and is greater than every other value. Sorting and ordered maps are therefore consistent.",
 ["inputs"], "every pair (and sorted sequence) of numerics", "tests compare a few hand-picked pairs; leading zero digits, unequal lengths and equal prefixes need generated pairs",
 ["src/num.rs", "src/var.rs", "src/ops.rs"], [("cmp", "src/num.rs"), ("cmp_common/cmp_abs", "src/var.rs"), ("PartialEq/PartialOrd/Ord impls", "src/ops.rs")], observe=["Ord/PartialOrd/PartialEq impls"])
prop("C10", "Equal numerics hash equally and have the same normalized text",
 "Numerics that compare equal, whatever their scale, storage form or ownership, feed identical data to any Hasher and have identical normalize() text; numerics that compare different have different normalize() text. "
 "normalize() is the exact value without insignificant trailing fractional zeros or trailing point, and parses back to an equal value.",
 ["inputs"], "every pair of numerics, in every storage form", "hash/equality agreement is quantified over pairs of representations of the same value",
 ["src/num.rs", "src/var.rs"], [("hash", "src/num.rs"), ("normalize", "src/var.rs")], observe=["Hash, Eq, Borrow<Numeric>, normalize"])
prop("C11", "Integer conversions are exact, round half away from zero, and check range",
 "Converting any Rust integer or bool to a numeric gives exactly that value with scale 0. Converting a numeric to an integer type returns the value rounded half away from zero when that fits the type, an out-of-range error when it does not, and an invalid error for NaN; converting an owned, a borrowed or a slice numeric gives the same outcome.",
 ["inputs"], "every value of every integer type; every numeric", "tests convert type bounds and a few small values; rounding into or out of range at the bounds and values with stripped zeros are not covered",
 ["src/convert.rs"], [("from_signed/from_unsigned", "src/convert.rs"), ("into_signed/into_unsigned", "src/convert.rs")], observe=["From/TryFrom impls"])
prop("C12", "Float conversions keep the promised digits and are nearest, with range checks",
 "A finite f32/f64 converts to the decimal obtained by rounding its exact value to 6/15 significant digits, with trailing zeros removed; NaN converts to NaN and infinities are rejected as invalid. "
 "A numeric converts to the nearest f64 or f32 (ties to even), out-of-range magnitudes giving infinity for f64 and an out-of-range error for f32 overflow or underflow to zero; NaN gives NaN.",
 ["inputs"], "every f32/f64 bit pattern; every numeric", "tests use short decimal literals; halfway cases, subnormals and long decimals are not sampled",
 ["src/convert.rs"], [("from_floating", "src/convert.rs"), ("TryFrom<&NumericVar> for f32/f64", "src/convert.rs")], observe=["TryFrom impls for f32/f64"])
prop("C13", "Every numeric produced is a canonical PostgreSQL on-disk image",
 "The bytes of every numeric any operation returns are a well-formed PostgreSQL numeric varlena: the length word (little-endian shifted, or big-endian with the big-endian-varlen feature) equals the slice length, every base-10000 digit is 0..9999 with no leading or trailing zero digit, zero has no digits, positive sign and weight 0, NaN is the bare NaN header, the short header is used exactly when scale <= 63 and weight is within -64..63, and the scale covers every stored digit. "
 "Equal values with equal scales therefore have identical bytes.",
 ["inputs", "configurations"], "every result of every operation, in both byte orders", "tests only check that bytes read back to an equal value; no test looks at the image itself",
 ["src/binary.rs", "src/data.rs", "src/num.rs", "src/var.rs"], [("set_header", "src/data.rs"), ("can_be_short, NumericShort/NumericLong::set_header", "src/binary.rs"), ("strip/make_result", "src/var.rs")], observe=["as_bytes of every result"])
prop("C14", "Any valid stored image reads as the value it encodes",
 "A numeric created from any valid PostgreSQL numeric image - short or long header, the whole range of weights and scales, negative, zero with any scale, NaN with any low header bits, at any byte alignment - has exactly the encoded sign, scale and value in every operation, keeps its bytes through as_bytes, and is never modified. "
 "Copying it (to_owned, clone) preserves the value and the scale.",
 ["inputs", "configurations"], "every valid image in both byte orders", "tests only read images this crate wrote itself, which are always in short form when possible",
 ["src/binary.rs", "src/num.rs"], [("NumericBinary::as_var, weight, dscale, sign", "src/binary.rs"), ("from_bytes_unchecked", "src/num.rs")], observe=["Numeric::from_bytes_unchecked"])
prop("C15", "Serialization round-trips and malformed input is rejected safely",
 "Serializing a numeric and deserializing it returns the same value and scale in human-readable (JSON text) and binary (bincode image) formats, for owned and borrowed numerics, and what is deserialized serializes to the same bytes. "
 "Deserializing text that does not parse, or bytes that are not a valid numeric image (truncated, wrong length word, digits out of range, and so on), returns an error and never panics, crashes or reads out of bounds.",
 ["inputs"], "every numeric; every byte string and text", "tests round-trip one value; malformed input is not tested at all",
 ["src/num.rs"], [("Serialize/Deserialize impls", "src/num.rs")], observe=["serde_json, bincode"])
prop("C16", "Square root is accurate to the last displayed digit",
 "sqrt of a non-negative numeric returns the true root to within the rounding of the last displayed digit (error below 0.51 unit), at the scale PostgreSQL selects: at least 16 significant digits, no less than the operand's scale, at most 1000 fractional digits. sqrt of NaN is NaN and of a negative number panics; it always terminates.",
 ["inputs"], "every non-negative numeric", "Newton iteration start, convergence test and working precision depend on magnitude; tests take about ten roots",
 ["src/var.rs"], [("sqrt/sqrt_common", "src/var.rs"), ("div_fast_common", "src/var.rs")], observe=["Numeric::sqrt"])
prop("C17", "Logarithms are accurate to the last displayed digit",
 "ln, log2, log10 and log(base) of positive numerics return the true logarithm to within the rounding of the last displayed digit (error below 0.55 unit), at the scale PostgreSQL selects. Zero or negative operands panic with the documented message, base 1 panics as a division by zero, NaN gives NaN; nothing else fails.",
 ["inputs"], "every positive numeric and every positive base other than 1", "precision loss occurs for operands near 1, of extreme magnitude, or with nearly equal operands",
 ["src/var.rs"], [("ln_common, estimate_ln_dweight, log_common", "src/var.rs")], observe=["Numeric::ln, log, log2, log10"])
prop("C18", "Exponential is accurate to the last displayed digit",
 "exp(x) returns e^x to within the rounding of the last displayed digit (error below 0.51 unit), at the scale PostgreSQL selects, for every |x| < 6000. It returns None exactly when |x|, as a double, is 6000 or more, and NaN for NaN.",
 ["inputs"], "every numeric", "range reduction and the number of series terms depend on magnitude and scale",
 ["src/var.rs"], [("exp/exp_common", "src/var.rs")], observe=["Numeric::exp"])
prop("C19", "Integer powers and factorials are right to the last displayed digit",
 "pow with an integer exponent returns the exact power rounded to the scale PostgreSQL selects (max(16, operand scale), at most 1000) with an error below 0.51 unit in the last displayed digit, and None when the result is too large to represent; x^0 is 1, 0^n is 0 for n > 0, zero to a negative power panics. factorial(n) is exactly n! (1 for n <= 1) and None for n > 32177.",
 ["inputs"], "every numeric base and integer exponent", "working-precision loss grows with the exponent and depends on the leading digits of the base",
 ["src/var.rs"], [("power_int", "src/var.rs"), ("factorial", "src/var.rs")], observe=["Numeric::pow, NumericBuf::factorial"])
prop("C20", "Non-integer powers are accurate to the last displayed digit",
 "pow of a positive base with a non-integer exponent returns the true power to within the rounding of the last displayed digit (error below 0.51 unit) at the scale PostgreSQL selects, or None when |exp * ln(base)| is 6000 or more (within 0.001 of 6000 either may be returned). The same holds for integer exponents that do not fit in 32 bits, of either base sign, an odd exponent keeping the sign of the base. Zero to a positive power is 0, a negative base with a non-integer exponent panics as documented, NaN^0 and 1^NaN are 1 and every other NaN case is NaN.",
 ["inputs"], "every base and non-integer exponent", "accuracy depends on the product of exponent and logarithm; tests sample a handful of pairs",
 ["src/var.rs"], [("pow/power_common/exp_common/ln_common", "src/var.rs")], observe=["Numeric::pow"])
prop("C21", "Scientific notation denotes exactly the same value",
 "The {:e} and {:E} forms are a significand with one non-zero digit before the point (0 for zero), no insignificant trailing zeros, then e or E and an exponent with sign and at least two digits; they denote exactly the numeric's value and parse back to an equal numeric. NaN prints as NaN.",
 ["inputs"], "every numeric", "exponent and digit counting depend on where the leading and trailing decimal zeros fall in base-10000 digits",
 ["src/var.rs", "src/num.rs"], [("write_sci/select_sci_scale", "src/var.rs")], observe=["LowerExp, UpperExp"])
prop("C22", "Sign operations, predicates and NaN behave as documented",
 "negate, abs, signum, inc and their in-place forms return exactly the mathematical result, keeping the scale (signum has scale 0); is_nan, is_negative, is_positive and scale report exactly the value's NaN-ness, sign and scale; zero, which carries no sign, is not negative and counts as positive. NaN goes through every one of them as NaN, and inc panics only on overflow.",
 ["inputs"], "every numeric", "tests check a few values per function; sign of zero, carry in inc and storage-form independence are not swept",
 ["src/num.rs", "src/var.rs"], [("negate/abs/signum/inc", "src/num.rs")], observe=["Numeric and NumericBuf methods"])
prop("C23", "Every operator form agrees with the checked operation",
 "Each of +, -, *, /, %, unary minus and the compound assignments, for every combination of owned, borrowed and slice operands, gives byte for byte the result of the corresponding checked operation, and panics exactly when that operation fails: with the value-overflow message on overflow, and the divide-by-zero message for a zero divisor. Operands passed by reference are left unchanged, also when the operator panics.",
 ["inputs"], "every operand pair, all operator forms", "about 60 hand-written impls, each tested with at most one pair of values",
 ["src/ops.rs"], [("operator impls", "src/ops.rs")], observe=["std::ops traits"])
prop("C24", "In-place histories equal the functional model; clones are independent",
 "After any sequence of in-place operations (negate_mut, abs_mut, round_mut, trunc_mut, apply_typmod, compound assignments, cloning, replacing), including ones that overflow or panic, a number equals what the corresponding pure operations give step by step, and a failed step leaves it at its previous value and still usable. Clones and the values they were copied from never affect each other.",
 ["histories"], "every sequence of in-place operations on owned numerics", "tests apply one in-place operation to a fresh value; spare-digit and buffer reuse depend on what happened to the buffer before",
 ["src/num.rs", "src/data.rs", "src/var.rs"], [("as_var_owned/into_var buffer hand-over", "src/num.rs"), ("reserve_rounding_digit, offset bookkeeping", "src/data.rs")],
 state=[("NumericBuf.buf/len/offset", "owned digit buffer with header and spare digit", "src/num.rs")], observe=["NumericBuf in-place API"])
prop("C25", "Safe API use never corrupts memory, leaks, or hits undefined behaviour",
 "No sequence of safe API calls (and reading of valid images) makes the crate access memory out of bounds, unaligned, uninitialised or freed, free with the wrong layout, free twice, leak, or otherwise execute undefined behaviour, including when calls panic on overflow or bad arguments.",
 ["inputs", "histories"], "every call sequence, including panicking ones", "unit tests run without any memory checker, and unchecked indexing or bad frees are silent",
 ["src/data.rs", "src/binary.rs", "src/num.rs", "src/var.rs"], [("raw buffer management", "src/data.rs"), ("get_unchecked loops", "src/var.rs"), ("Drop/into_raw_parts", "src/num.rs")], observe=["Miri, AddressSanitizer, checking allocator, standard-library UB checks"])
prop("C26", "Concurrent use gives the same results as sequential use, without races",
 "Numerics can be sent between and shared by threads: any number of threads operating on shared and private numerics at the same time, including the first use in the process, get byte for byte the results of sequential execution, and there are no data races. Results depend only on the operands, not on earlier calls.",
 ["schedules", "histories"], "every interleaving of operations on shared operands; every preceding call history", "all tests are single-threaded",
 ["src/num.rs", "src/data.rs", "src/var.rs"], [("unsafe impl Send/Sync", "src/num.rs, src/data.rs"), ("lazy_static constants", "src/var.rs")], observe=["thread stress, ThreadSanitizer, Miri scheduler"])
prop("C27", "Operations are total: no panic or hang outside the documented cases",
 "On every valid operand each operation terminates within work bounded by operand and result size and either returns or fails in its documented way (None, an error, or the documented panic: round/ceil/floor/inc or an operator overflowing, an operator dividing by zero, sqrt or a logarithm outside its domain, a power outside its domain); no other panic, abort or endless loop occurs, in debug and release builds alike.",
 ["inputs", "configurations"], "every operation on every operand, debug and release builds", "extreme magnitudes and scales, where internal arithmetic could overflow or loops fail to converge, are not tested",
 ["src/var.rs", "src/num.rs", "src/parse.rs", "src/convert.rs"], [("range checks and debug assertions throughout", "src/var.rs")], observe=["every public operation"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
