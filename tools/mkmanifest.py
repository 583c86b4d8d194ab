#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of built checks."""
import json, os
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..')
props=[json.loads(l) for l in open(os.path.join(V,'properties.jsonl'))]
G='property-based testing: '
TECH={
'C01':G+'grammar-based generation and bounded-exhaustive texts against a reference grammar',
'C02':G+'encode/decode round-trip and differential decoding against a reference codec',
'C03':G+'exhaustive chars/words and mutations against a reference table',
'C04':G+'size expressions around the bounds against a range model over byte-unit',
'C05':G+'boundary integers and literal mutations against a reference range model',
'C06':G+'ULP-neighbour and special floats against a reference range/NaN model',
'C07':G+'generated collections against a length model',
'C08':G+'class-alphabet strings (random and bounded-exhaustive) against a reference predicate',
'C09':G+'class-alphabet strings (random and bounded-exhaustive) against a reference predicate',
'C10':G+'print/parse round-trip and exhaustive separator placements against a reference grammar',
'C11':G+'print/parse round-trip and exhaustive separator placements against a reference grammar',
'C12':G+'structured addresses with mutations against a reference parser',
'C13':G+'block-edge addresses against a reference table and cross-validator agreement',
'C14':G+'structured hosts with mutations against a reference parser (IDNA by the idna crate)',
'C15':G+'structured domains with mutations against a reference parser (IDNA by the idna crate)',
'C16':G+'print/parse round-trip of every accepted authority',
'C17':G+'grammar-based and bounded-exhaustive emails against a reference parser',
'C18':G+'part-by-part comparison with a reference parser and print/parse round-trip',
'C19':G+'structured URLs with mutations, differential against the url crate',
'C20':G+'generated JSON documents, differential against serde_json and print/parse round-trip',
'C21':G+'generated phone numbers, differential against the phonenumber crate',
'C22':G+'generated texts, differential against regex and semver',
'C23':G+'hostile input search over all entry points with an agreement oracle',
'C24':G+'serde round-trips in JSON, bincode and a recording format against direct validation',
'C25':G+'wrapper-versus-direct differential over generated inputs',
'C26':G+'generated requests through Rocket and Axum against direct validation',
'C27':G+'generated derive attributes compiled and executed against a verdict model',
'C28':G+'metamorphic comparison across neighbouring option configurations',
'C31':G+'adversarial repetition in frames at growing sizes, judged by processor time and a counting allocator',
'C32':G+'generated histories replayed in other orders and on concurrent threads',
'C33':G+'bounded-exhaustive and mutated texts, host pairs and collections against reference predicates and laws',
'C30':G+'errors of generated rejected inputs against their documented guarantees and the underlying parsers',
'C29':G+'generated feature subsets built and run, differential against the full build',
}
for k in TECH:
    # all but these also run as a search guided by coverage (check.py)
    if k not in ('C26','C27','C29','C31','C32'): TECH[k]=TECH[k].replace(G,'property-based testing and coverage-guided fuzzing: ')
NOTE='Search, not proof: holds on every generated case of the run (counts in the evidence). Trusts the reference model'
built=[]
for p in props:
    b=p['id'].lower()
    if any(os.path.exists(os.path.join(V,x)) for x in (f'harness/src/bin/{b}.rs',f'few/src/bin/{b}.rs',f'web/src/bin/{b}.rs',f'scripts/{b}.py')): built.append(p['id'])
EXTRA=json.load(open(os.path.join(V,'tools','notes.json'))) if os.path.exists(os.path.join(V,'tools','notes.json')) else {}
m=dict(version=1,setup_cmd='bash /verif/setup.sh',
 checks=[dict(property=i,quick_cmd=f'python3 /verif/check.py {i} quick',thorough_cmd=f'python3 /verif/check.py {i} thorough',
   evidence_file=f'evidence/{i}.json',technique=TECH[i],level='exploration',level_note=NOTE+EXTRA.get(i,'.')) for i in built],
 not_applicable=[dict(property=p['id'],reason='The check for this property is not built yet.') for p in props if p['id'] not in built])
json.dump(m,open(os.path.join(V,'MANIFEST.json'),'w'),indent=1); open(os.path.join(V,'MANIFEST.json'),'a').write('\n')
print(len(built),'claimed')
