"""Write MANIFEST.json from the list of claimed properties."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LEVEL = 'proof'
NOTE = {
}
NA = {}
exec(open(HERE + '/tools/claims.py').read())
props = [json.loads(l)['id'] for l in open(HERE + '/properties.jsonl')]
m = dict(version=1, setup_cmd='python3-vt tools/setup.py', checks=[], not_applicable=[],
         hooks=dict(guard='none', enable='no hooks are needed: the verifier reads the source and '
                    'the run-time evaluation imports the package as it is', source_commits=[]))
for p in props:
    if p in CLAIMS:
        m['checks'].append(dict(
            property=p, quick_cmd='python3-vt check.py %s quick' % p,
            thorough_cmd='python3-vt check.py %s thorough' % p,
            technique=TECHNIQUES.get(p) or 'contracts on the real functions; obligations generated from the Python '
                      'source by symbolic execution with loop rules and invariants, discharged '
                      'by z3/cvc5; failing inputs replayed on the real code',
            level=LEVELS.get(p, 'proof'), level_note=CLAIMS[p]))
    else:
        m['not_applicable'].append(dict(property=p, reason=NOTYET.get(
            p, 'not claimed yet: contracts for these functions are still being written')))
json.dump(m, open(HERE + '/MANIFEST.json', 'w'), indent=1)
