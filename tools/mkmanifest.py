#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the lists below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
LEVEL = {'C20': 'exploration'}
TECH = {'C20': 'error contract per function; lane independence (C16, proved) reduces it to one scalar function per build, decided by evaluating the compiled code: binary32 at every argument, binary64 bounded (sampled arguments)'}
NOTES = {'C20': 'Stand-in, not a proof: the real-valued error of the kernels is outside the provers available. binary32 is decided for every argument in the domain (complete); binary64 is bounded: sampled arguments only. Assumed: C library in double/extended precision as the oracle.'}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'contracts', i.lower() + '.hpp')) and i not in NA:
        checks.append({'property': i, 'quick_cmd': f'python3 run.py check {i} --tier quick', 'thorough_cmd': f'python3 run.py check {i} --tier thorough',
                       'technique': TECH.get(i) or 'contract-based deductive verification of the real headers and kernels (symbolic execution of compiler IR, all inputs, SMT-discharged obligations)',
                       'level': LEVEL.get(i, 'proof'),
                       'level_note': NOTES.get(i, 'Every obligation of every contract instance is discharged for all lane values; the instruction-set builds, element types and storage widths instantiated are finite and listed in the evidence. Assumed: clang IR of the same sources, models of the x86 intrinsics, round-to-nearest IEEE arithmetic without contraction, opaque libm.')})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'contracts not written yet')})
json.dump({'version': 1, 'setup_cmd': 'python3 run.py build', 'checks': checks, 'not_applicable': na}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
