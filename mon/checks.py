"""What each property's check runs: (variant, units, cases per unit) per tier, and the special checks."""

# the non-triviality rule of each property's cases, for the evidence file
RULES = {
    'C01': 'texts built from a grammar and mutated; non-trivial: accepted literals with a fraction, exponent or many digits, and rejected ones that are nearly literals',
    'C02': 'numerics over digit-group, weight and scale boundaries; non-trivial: more than two base-10000 digits, or NaN',
    'C03': 'operand pairs (independent, related, far apart, carry chains, near the limit); non-trivial: some operand has more than two base-10000 digits',
    'C04': 'operand pairs (dense digits, scale and weight sums at the limit); non-trivial: some operand has more than two base-10000 digits',
    'C05': 'dividend/divisor pairs near multiples, ties and quotient-digit corrections; non-trivial: some operand has more than two base-10000 digits',
    'C06': 'dividend/divisor pairs near exact multiples; non-trivial: some operand has more than two base-10000 digits',
    'C07': 'values at and next to rounding ties for the chosen scale; non-trivial: not NaN',
    'C08': 'values at and next to 10^(p-s) for the chosen typmod; non-trivial: finite non-zero value, or typmod construction',
    'C09': 'pairs related by value, scale, prefix or one digit, and lists sorted; non-trivial: some operand has more than two base-10000 digits',
    'C10': 'equal values in different scales and storage forms, in groups; non-trivial: non-integer scale',
    'C11': 'integers around type bounds and numerics around integer and type bounds; non-trivial: more than two digits',
    'C12': 'floats by bit pattern and numerics at and next to float midpoints; non-trivial: finite non-zero',
    'C13': 'every operation of the other properties, results checked byte for byte against the canonical form; non-trivial as in the property the case comes from',
    'C14': 'images in both header forms at every byte offset; non-trivial: odd offset, NaN, zero or more than one digit',
    'C15': 'round trips, and mutated images and texts; non-trivial: more than two digits, or any malformed image or text',
    'C16': 'radicands by magnitude, near squares, extreme; non-trivial: positive',
    'C17': 'operands by magnitude, near 1, nearly equal; non-trivial: logarithm defined and not trivial',
    'C18': 'exponents by magnitude and scale, near the limits; non-trivial: finite non-zero',
    'C19': 'bases near 1, many-digit bases, exponents by magnitude; non-trivial: base not 0 or 1 in magnitude and exponent not -1, 0, 1',
    'C20': 'pairs chosen by the size of exponent*ln(base); non-trivial: positive base other than 1',
    'C21': 'numerics with leading and trailing decimal zeros anywhere; non-trivial: non-zero with scale or trailing zeros',
    'C22': 'numerics in every form, carries of increment; non-trivial: more than two digits, zero or NaN',
    'C23': 'operand pairs through every operator form (owned/borrowed/mixed/assign/integer/sum/product); every pair is non-trivial',
    'C24': 'random histories of in-place operations with clones; non-trivial: at least two different operations',
    'C25': 'every operation of the other properties, histories and malformed images under memory monitors; non-trivial as in the property the case comes from',
    'C26': 'operations of the other properties run by several threads on shared operands in random orders, cold starts included; non-trivial: an operation that ran while another thread\'s was under way',
    'C27': 'every operation of the other properties and histories, on debug and release builds; non-trivial as in the property the case comes from',
    'C28': 'every precision from -3 to 1005 with every scale from -2 to precision+2, and random and extreme pairs; every pair is non-trivial',
    'C29': 'every operation of the other properties run on debug, release and big-endian builds and compared; non-trivial as in the property the case comes from',
    'C30': 'every operation of the other properties run alone, then twice more in a random order among other calls, and compared; non-trivial as in the property the case comes from',
    'C31': 'numerics written as text, scientific text, JSON and bincode to sinks that fail after every possible byte; non-trivial: not zero',
}

# property -> [(variant, units, cases per unit)]
QUICK = {
    'C13': [('dev', 24, 400), ('dev-be', 16, 300), ('rel', 16, 400)],
    'C14': [('dev', 64, 6000), ('dev-be', 16, 4000)],
    'C15': [('dev', 64, 12000), ('dev-be', 16, 6000)],
    'C16': [('dev', 32, 150), ('rel', 16, 300), ('dev', 32, 8000), ('rel', 16, 8000)],
    'C17': [('dev', 32, 20), ('rel', 32, 40), ('dev', 24, 3000), ('rel', 16, 3000)],
    'C18': [('dev', 32, 500), ('rel', 32, 700), ('dev', 24, 6000), ('rel', 16, 6000)],
    'C19': [('dev', 32, 150), ('rel', 16, 200), ('dev', 24, 6000), ('rel', 16, 6000)],
    'C20': [('dev', 32, 60), ('rel', 32, 100), ('dev', 24, 4000), ('rel', 16, 4000)],
    'C24': [('dev', 64, 3000), ('rel', 16, 3000)],
    'C25': [('dev', 24, 200), ('asan', 24, 150), ('dev', 16, 1200), ('asan', 8, 1000)],
    'C27': [('dev', 32, 300), ('rel', 32, 400)],
    'C28': [('dev', 8, 4000), ('rel', 8, 4000)],
    'C29': [('dev', 40, 500)],
    'C30': [('dev', 24, 400), ('rel', 24, 600)],
    'C31': [('dev', 32, 1500), ('rel', 16, 1500)],
}
DEFAULT_QUICK = [('dev', 64, 12000), ('rel', 24, 12000)]

# thorough: the same mixes again and again with new seeds until the time budget is used
THOROUGH = {
    'C13': [('dev', 16, 400), ('dev-be', 16, 400), ('rel', 16, 400), ('rel-be', 8, 400)],
    'C14': [('dev', 32, 2000), ('dev-be', 16, 2000), ('rel', 16, 2000), ('rel-be', 8, 2000)],
    'C15': [('dev', 32, 2000), ('dev-be', 16, 2000), ('rel', 16, 2000)],
    'C16': [('dev', 16, 100), ('rel', 16, 300), ('dev', 16, 4000), ('rel', 8, 4000)],
    'C17': [('dev', 16, 40), ('rel', 16, 100), ('dev', 16, 3000), ('rel', 16, 3000)],
    'C18': [('dev', 16, 200), ('rel', 16, 400), ('dev', 16, 4000), ('rel', 8, 4000)],
    'C19': [('dev', 16, 100), ('rel', 16, 300), ('dev', 16, 4000), ('rel', 8, 4000)],
    'C20': [('dev', 16, 60), ('rel', 16, 150), ('dev', 16, 3000), ('rel', 16, 3000)],
    'C24': [('dev', 32, 800), ('rel', 16, 800)],
    'C25': [('dev', 16, 300), ('asan', 16, 300)],
    'C27': [('dev', 16, 200), ('rel', 16, 400), ('dev-be', 8, 200)],
    'C28': [('dev', 8, 4000), ('rel', 8, 4000)],
    'C29': [('dev', 24, 300)],
    'C30': [('dev', 16, 300), ('rel', 16, 500)],
    'C31': [('dev', 32, 800), ('rel', 16, 800)],
}
DEFAULT_THOROUGH = [('dev', 48, 2500), ('rel', 16, 2500)]

LEVEL = 'exploration'
THOROUGH_BUDGET = 600
