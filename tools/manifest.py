#!/usr/bin/env python3
"""Writes MANIFEST.json: the claimed checks and what is not claimed."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl'))]

FIN = 'abstract interpretation of the SSA form with exact finite-domain partitioning, compared with an oracle table for every value'
LOOP = 'abstract interpretation of the SSA form; inductive loop invariants over symbolic sequences (translation homomorphisms), compared with the reference mapping'
CODE = 'symbolic-sequence abstract interpretation of the SSA form with inferred loop invariants; code page homomorphism as the specification'
EFF = 'context-sensitive inclusion-based pointer and effect analysis of the SSA form, from every exported function and method'
TECH = {
 'C01': FIN, 'C02': FIN, 'C03': FIN, 'C04': FIN, 'C05': FIN,
 'C06': 'type-checked constant evaluation compared with a reference table, plus a lint of every name',
 'C07': FIN + '; escape analysis of the returned slices', 'C08': FIN, 'C09': LOOP, 'C10': LOOP,
 'C11': EFF, 'C12': EFF,
 'C13': 'abstract interpretation with run-time-check obligations on every path and ranking measures for every loop',
 'C14': CODE, 'C15': CODE, 'C16': FIN,
 'C17': 'abstract interpretation of a most general client of NewReader over every source and buffer; inductive invariant over histories of Read, code page homomorphism as the specification',
 'C18': 'abstract interpretation of a most general client of NewReader over every source and buffer; inductive invariant over histories of Read, contract of io.Reader as obligations',
 'C19': 'abstract interpretation of Write from an inductive representation invariant, with model inputs at the bounds; code page homomorphism as the specification',
 'C20': CODE, 'C21': CODE,
 'C22': 'type checking, abstract interpretation of the constructors, Transform and Reset, and pointer analysis for shared state',
 'C23': EFF + '; abstract interpretation of Transform for dst',
 'C24': LOOP, 'C25': FIN,
 'C26': 'abstract interpretation of the conversion of every single rune, compared with reference readings',
}
NOTE = 'Decides the property for every input, from the source alone. Assumes: Go semantics as built by x/tools go/ssa (linux/amd64), lengths below 2^48, allocation succeeds, modelled standard library functions behave as documented; trusts the analyser and the reference data (Unicode, the code page, CLDR readings) in analyzer/oracle.'
NA = {
 'C27': 'running time is a runtime quantity: no static cost analysis in reach bounds the amortised cost of append, copy and the caller-supplied Reader and Writer; termination is decided under C13',
}
TODO = 'the check of this property is not built yet'
man = {'version': 1, 'setup_cmd': 'sh tools/run.sh --build', 'checks': [], 'not_applicable': []}
LEVEL = {}
for p in props:
    i = p['id']
    if i in TECH:
        man['checks'].append({'property': i, 'quick_cmd': 'sh tools/run.sh ' + i, 'thorough_cmd': 'sh tools/run.sh ' + i,
            'technique': TECH[i], 'level': LEVEL.get(i, 'proof'), 'level_note': NOTE})
    else:
        man['not_applicable'].append({'property': i, 'reason': NA.get(i, TODO)})
json.dump(man, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(root, 'MANIFEST.json'), 'a').write('\n')
