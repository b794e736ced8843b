#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md (from seeded/*/meta.json)."""
import glob, json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
print('| planted bug | property | needs | breaks |\n|---|---|---|---|')
for f in sorted(glob.glob(os.path.join(H, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    print('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['property'], m['needs'], m['what_it_breaks']))
