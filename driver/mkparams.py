#!/usr/bin/env python3
"""Writes contracts/UNIT/params.vc: the parameter names the contracts of a unit are written with (REPORT is the extractor's)."""
import json,sys
r=json.load(open(sys.argv[1]))
with open(sys.argv[2],'w') as f:
    f.write('=== params\n')
    for x in r['functions']:
        if x['has_contract'] and x['params'] and x['path'].startswith(sys.argv[3] if len(sys.argv) > 3 else ''): f.write(x['path']+' '+' '.join(x['params'])+'\n')
