#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORACLE = 'runtime monitoring: offline checker over recorded events of the real code, '
T = {
    'C01': ORACLE + 'independent grammar and exact decimal arithmetic as oracle, grammar-based and mutated texts',
    'C02': ORACLE + 'independent image decoder and exact decimal text as oracle, with parse-back',
    'C03': ORACLE + 'exact decimal arithmetic as oracle',
    'C04': ORACLE + 'exact decimal arithmetic as oracle',
    'C05': ORACLE + 'exact rational rounding at an independently computed scale as oracle',
    'C06': ORACLE + 'exact rational arithmetic and the division identity as oracle',
    'C07': ORACLE + 'exact decimal rounding as oracle, at and next to ties',
    'C08': ORACLE + 'exact decimal rounding and precision bound as oracle',
    'C09': ORACLE + 'order of exact values as oracle, all ownership combinations, sorted lists',
    'C10': ORACLE + 'recorded hasher input and normalized text compared across representations of equal values',
    'C11': ORACLE + 'exact integer rounding and ranges as oracle, every integer type',
    'C12': ORACLE + 'exact float values and exact midpoints as oracle',
    'C13': ORACLE + 'byte-exact canonical-image checker on every result of every operation, both varlena feature builds',
    'C14': ORACLE + 'exact reading of images in both header forms at every alignment, operand bytes compared before and after each call',
    'C15': ORACLE + 'round trips, and malformed images and texts against an independent image validator',
    'C16': ORACLE + 'high-precision decimal square root as oracle with an error bound in last-digit units',
    'C17': ORACLE + 'high-precision decimal logarithms as oracle with an error bound in last-digit units',
    'C18': ORACLE + 'high-precision decimal exponential as oracle with an error bound in last-digit units',
    'C19': ORACLE + 'exact or high-precision powers and factorials as oracle with an error bound in last-digit units',
    'C20': ORACLE + 'high-precision decimal powers as oracle with an error bound in last-digit units',
    'C21': ORACLE + 'independent grammar of scientific notation and exact value as oracle',
    'C22': ORACLE + 'exact decimal arithmetic as oracle',
    'C23': ORACLE + 'every operator form of one operand pair compared byte for byte with the checked operation and the exact oracle',
    'C24': 'runtime monitoring: recorded histories of in-place operations replayed in an exact functional model, state compared after every step, clones watched',
    'C25': 'sanitizers: Miri, AddressSanitizer, std undefined-behaviour checks in a debug build, a layout-, leak- and content-checking allocator, two memory fills compared',
    'C26': 'ThreadSanitizer and stress: threads on shared operands in random orders and cold starts, each observation compared with sequential execution and the oracle',
    'C27': 'runtime monitoring: panic, abort and CPU-time watch of every operation on debug and release builds against the documented failures',
    'C28': ORACLE + 'every valid precision and scale, and the pairs just outside, against the packing PostgreSQL documents',
    'C29': 'runtime monitoring: differential, the same operations recorded on debug, release, little- and big-endian builds and compared event by event',
    'C30': 'runtime monitoring: differential, the same operations recorded in two orders and repeated, amid failures, and compared event by event',
    'C31': 'runtime monitoring with fault injection: sinks that fail after every possible byte, outcome and written prefix judged',
}
NOTES = {
    'C12': 'Explored, not proved: random bit patterns, exact midpoints of random floats and, always, the midpoints above and below every power of two. Trusts Python decimal/float.',
    'C25': 'Memory errors on executed paths only. Miri interprets a few hundred operations per run (not snprintf, which float-to-numeric calls); the other monitors see tens of thousands.',
    'C26': 'Data races and schedule dependence on the schedules that occurred; the evidence counts operations that overlapped in time and pairs of operations that met.',
    'C27': 'Endless work is decided by a CPU-time limit of 100 s per batch that normally needs a few, confirmed by running the case alone.',
    'C29': 'Compares executions with each other; whether the common answer is right is decided by the other properties. Quick runs compare debug, release and one of the two big-endian builds per batch.',
    'C30': 'Compares executions with each other, over the sequences that were run.',
    'C31': 'Every failure point for outputs up to 120 bytes, about sixty points for longer ones.',
}
DEFAULT = 'Explored, not proved: the oracle is independent of the code (Python integers/decimal and its own image codec) and exact; what is not exercised by the generated and fixed cases is not covered. Trusts Python and the driver\'s thin event recorder.'
m = {
    'version': 1,
    'setup_cmd': 'python3 check.py --setup',
    'checks': [{'property': p, 'quick_cmd': 'python3 check.py %s quick' % p, 'thorough_cmd': 'python3 check.py %s thorough' % p,
                'technique': t, 'level': 'exploration', 'level_note': NOTES.get(p, DEFAULT)} for p, t in T.items()],
    'not_applicable': [],
    'notes': 'No hooks in /repo: every property is observed through the public API. KNOWN_FINDINGS.txt lists the repaired defects.',
}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
