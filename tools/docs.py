"""Writes properties.jsonl and MANIFEST.json from the tables below (run by hand: python3 tools/docs.py)."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []
ARITH = 'exact real arithmetic; '


def prop(id, title, statement, over, text, why, files, mech, note=None, level='proof', technique=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))
    if na:
        NA.append(dict(property=id, reason=na))
    else:
        CHECKS.append(dict(
            property=id, quick_cmd='python3-vt -m fvc.run ' + id,
            thorough_cmd='env VERIF_TIER=thorough python3-vt -m fvc.run ' + id,
            technique=technique or 'contracts on the real code (clang bitcode of /repo/src), obligations generated by '
            'path-wise symbolic execution and discharged by polynomial identity testing, sign calculus and SMT',
            level=level, level_note=note))


CHECKS = []
exec(open(os.path.join(V, 'tools', 'table.py')).read())
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
M = dict(version=1, setup_cmd='python3-vt -c "import fvc.run, contracts.props"', checks=CHECKS, not_applicable=NA,
         notes='No hooks in /repo: the checks compile the sources as they are. Known findings and repairs: '
         'known_findings.json; design, limits and planted changes: DESIGN.md.')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(M, f, indent=1)
    f.write('\n')
try:
    import jsonschema
    s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for p in P:
        jsonschema.validate(p, s)
    jsonschema.validate(M, json.load(open('/root/.vp/MANIFEST.schema.json')))
    print('valid', len(P), 'properties', len(CHECKS), 'checks')
except ImportError:
    pass
