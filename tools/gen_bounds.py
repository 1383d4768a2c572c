"""Regenerates BOUNDS.md: every harness case of every property with its bounds (run with python3-vt or the repository's
interpreter from /verif)."""
import importlib
import os
import pkgutil
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
from symx import api
import harness
for m in pkgutil.iter_modules(harness.__path__):
    if m.name.startswith('p_'):
        importlib.import_module('harness.' + m.name)


def rows(ps):
    return ' · '.join('(' + ', '.join('%s=%s' % (k, v) for k, v in p.items()) + ')' for p in ps) or 'no parameters'


with open(os.path.join(HERE, 'BOUNDS.md'), 'w') as f:
    f.write('# Harness cases and their bounds\n\nGenerated by tools/gen_bounds.py. Each case is explored completely (every feasible '
            'path) for each of the listed parameter sets; what the parameters do not mention (values, timestamps, operations, ...) is '
            'symbolic. n: items, k: operations of the history.\n')
    for p in sorted(api.CASES):
        f.write('\n## %s\n' % p)
        for c in api.CASES[p]:
            doc = ' '.join((c.fn.__doc__ or '').split())
            q, t = rows(c.quick), rows(c.thorough)
            f.write('\n- **%s**: %s\n  - quick: %s\n' % (c.name, doc, q))
            f.write('  - thorough: %s\n' % ('the same' if q == t else t))
