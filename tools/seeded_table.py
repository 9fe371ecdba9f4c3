#!/usr/bin/env python3
"""Prints DESIGN.md's table of planted bugs from seeded/*/meta.json"""
import json, os
# those the check that existed when the bug was written did not catch
MISSED = '''buf-copy-length factorial-bound factorial-no-bound long-header-weight-sign mul-assign-takes negative-zero round-unclamped rounding-leak from-usize-signed ln-base-cache
static-format-buffer sub-alias pow-one-exponent ln-ten-constant'''.split()
d = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'seeded')
print('| bug | check | needs | first |\n|-----|-------|-------|-------|')
for i in sorted(os.listdir(d)):
    m = json.load(open(os.path.join(d, i, 'meta.json')))
    print('| %s | %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '\\|'), 'missed' if i in MISSED else 'caught'))
