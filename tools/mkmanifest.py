#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the checks that exist."""
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 'C01': 'property-based round trip (encode then decode) over generated whole files',
 'C02': 'property-based differential: encoder output parsed by an independent strict format reader',
 'C03': 'property-based differential: files from an independent writer decoded and compared',
 'C04': 'model-based history testing of the encoder call styles, results read by the independent reader',
 'C05': 'metamorphic testing of decoder modes over generated files and access schedules',
 'C06': 'structured mutation fuzzing and exhaustive truncation of generated files',
 'C07': 'model-based stateful testing of grain updates, copies and rebuilds',
 'C08': 'model-based stateful testing against Python lists',
 'C09': 'round trip and model-based testing of event payloads',
 'C10': 'property-based differential against an independent layout table',
 'C11': 'property-based differential against exact rational arithmetic',
 'C12': 'property-based differential against an independent per-sample layout model',
 'C13': 'property-based differential against an independent per-pixel conversion model',
 'C14': 'metamorphic and round-trip testing of conversions',
 'C15': 'metamorphic testing: identity and single-mutation detection',
 'C16': 'model-based testing of options and sequence comparison',
 'C17': 'property-based differential against a per-sample PSNR model',
 'C18': 'metamorphic testing of pattern generator queries against exact time arithmetic',
 'C19': 'property-based differential against an independent pixel model',
 'C20': 'property-based differential against an independent sample model',
 'C21': 'property-based conservation and timing model',
 'C22': 'grammar-based H.264 stream generation with an independent bit writer as oracle',
 'C23': 'grammar-based ADTS stream generation with an independent bit writer as oracle',
 'C24': 'model-based stateful testing against io.BytesIO and files',
 'C25': 'model-based testing against bytes',
 'C26': 'end-to-end property-based round trip through the command line tools',
 'C27': 'sampling the published strategies against an independent validity oracle',
}
props = [json.loads(x) for x in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(ROOT, 'harness/checks', i.lower() + '.py')):
        checks.append({
            'property': i, 'quick_cmd': './run.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough ./run.py ' + i,
            'technique': TECH[i], 'level': 'exploration',
            'level_note': 'Held on every generated case of the run (counts, classes and samples in the evidence file); no claim beyond them. '
                          'Trusts CPython, numpy, mediatimestamp, Hypothesis and the oracle described in DESIGN.md; shrunk failures are stored as replay files.'})
    else:
        na.append({'property': i, 'reason': 'The check for this property has not been built yet.'})
m = {'version': 1, 'setup_cmd': './tools/setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'Pure Python: nothing to build. ./run.py --replay <file> re-executes a stored failure. VERIF_SCALE scales the case counts.'}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
