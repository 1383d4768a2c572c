"""Regenerates /verif/MANIFEST.json from the properties and the harness modules present."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
}
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in NA:
        na.append(dict(property=i, reason=NA[i]))
    elif os.path.exists(os.path.join(HERE, 'harness', 'p_%s.py' % i.lower())):
        checks.append(dict(property=i, quick_cmd='./check.py %s --tier quick' % i, thorough_cmd='./check.py %s --tier thorough' % i,
            technique='symbolic execution of the real Python code with z3 (bounded, all paths), counterexamples replayed',
            level='model_checking',
            level_note='Every path of the harnessed real code within the stated bounds is explored and every assertion on it decided by z3 '
                       'for all input values of that path; counterexamples are replayed on the unmodified code before being reported. Trusts z3, '
                       'our proxy layer (validated by concrete replay of sampled paths), and the modelling of floats as exact reals; claims '
                       'nothing outside the bounds listed in the evidence.'))
    else:
        na.append(dict(property=i, reason='No check built yet.'))
m = dict(version=1, setup_cmd='/opt/venv/bin/python check.py --selftest', checks=checks, not_applicable=na,
         notes='Checks run with /opt/venv/bin/python (the repository interpreter) plus the z3 bindings of /opt/veriftools/pyvenv. '
               'They read /repo working tree directly; no hooks in /repo are needed.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
