"""regenerate properties.jsonl and MANIFEST.json from spec/props.py"""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
from spec.props import P
NOTE = ('All sizes (cells, nodes, faces, quadrature points, components, conditions) are symbolic, so the verdict covers every mesh and input; '
        'numbers of variables / boundary groups / conditions are the small concrete values named in the evidence. '
        'Trusted: the jfsa interpreter and its models of NumPy, JAX, SciPy and PETSc primitives; arithmetic over the reals, not floating point.')
with open(R + '/properties.jsonl', 'w') as f:
    for p in P:
        f.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
        assert len(p['title']) <= 80, p['title']
        assert p['na'] or os.path.exists(R + '/props/%s.py' % p['id']), p['id']
        assert p['statement'].count('. ') <= 3, p['id']
m = dict(version=1, setup_cmd='python3 -m compileall -q jfsa props spec',
         checks=[dict(property=p['id'], quick_cmd='python3 check.py %s --tier quick' % p['id'],
                      thorough_cmd='python3 check.py %s --tier thorough' % p['id'],
                      evidence_file='evidence/%s.json' % p['id'], technique='static analysis: ' + p['tech'], level='proof',
                      level_note=p['note'] or NOTE) for p in P if not p['na']],
         not_applicable=[dict(property=p['id'], reason=p['na']) for p in P if p['na']])
json.dump(m, open(R + '/MANIFEST.json', 'w'), indent=1)
print(len(P), 'properties', len(m['checks']), 'checks')
