import json, os, importlib, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
NA = {}
exec(open(H + '/tools/not_applicable.py').read())
TECH = {}
exec(open(H + '/tools/techniques.py').read())
checks = []; na = []
for p in props:
    i = p['id']
    if os.path.exists(H + '/rules/%s.py' % i):
        checks.append(dict(property=i, quick_cmd='./check.sh %s quick' % i, thorough_cmd='./check.sh %s thorough' % i, evidence_file='evidence/%s.json' % i,
            technique=TECH.get(i, 'path-sensitive dataflow and typestate rules over the clang AST'), level='other',
            level_note='Static: every listed rule is decided for every construct and every abstract path of the functions it names (loops: none/one generic iteration; helpers in context). Assumes the standard library, boost and compiler behave as documented; what the rules do not name is not covered.'))
    else: na.append(dict(property=i, reason=NA.get(i, 'No sound static argument was built for it within this work; see DESIGN.md.')))
json.dump(dict(version=1, setup_cmd='analyzer/build.sh', checks=checks, not_applicable=na, notes='static analysis of the current sources of /repo; see DESIGN.md'), open(H + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
