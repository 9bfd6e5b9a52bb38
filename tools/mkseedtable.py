#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {
    'C07-pixel-aspect-shared': 'several grains built from the same metadata are compared',
    'C13-v210-unused-bits': 'v210 pictures with the unused bits of their words set',
    'C15-mapping-only-in-b': 'entries are also added to the second grain only',
    'C15-long-payload-tail': 'payloads up to 70000 bytes',
    'C16-options-shared': 'sequences with excluded differences before others',
    'C17-tiny-difference': 'differences of floating point samples far below a thousandth',
    'C17-zero-threshold': 'absolute limits of 0 and 10 dB',
    'C20-rate-limit': 'up to 5000 samples a grain',
    'C24-long-skip': 'skips, reads and writes beyond any buffer size',
    'C26-skip-reads-once': 'standard input that gives less than asked for; the target "input"',
}
MISSED.update(json.load(open(os.path.join(HERE, 'tools', 'missed.json'))) if os.path.exists(os.path.join(HERE, 'tools', 'missed.json')) else {})


def main():
    rows = ['| Change | What it breaks | Caught by | |', '|---|---|---|---|']
    for n in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
        m = json.load(open(os.path.join(HERE, 'seeded', n, 'meta.json')))
        rows.append('| {} | {} | {} | {} |'.format(n, m['what_it_breaks'].replace('|', '/'), m['property'], 'first missed: ' + MISSED[n] if n in MISSED else ''))
    p = os.path.join(HERE, 'DESIGN.md')
    s = open(p).read()
    s = re.sub('<!-- seeds -->.*<!-- /seeds -->', lambda _: '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->', s, flags=re.S)
    open(p, 'w').write(s)


main()
