#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from ckbsym/meta.py."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
from ckbsym.meta import META, TECH
from ckbsym.props import ENTRIES
import ckbsym.meta as mm
NA = getattr(mm, 'NOT_APPLICABLE', {})
with open(R + '/properties.jsonl', 'w') as f:
    for k in sorted(set(META) | set(NA)):
        m = META.get(k) or NA[k]
        assert len(m['title']) <= 80, (k, len(m['title']))
        assert m['statement'].count('. ') <= 2, k
        f.write(json.dumps({
            'id': k, 'title': m['title'], 'statement': m['statement'],
            'quantifier': {'over': m['over'], 'text': m['text']},
            'why_tests_cant': m['why'],
            'anchors': {'files': m['files'], 'mechanism': [{'name': a, 'where': b} for a, b in m['mechanism']],
                        **({'state': m['state']} if 'state' in m else {}),
                        'hook_needed': m.get('hook')},
        }) + '\n')
man = {
    'version': 1,
    'setup_cmd': 'cd /verif && python3-vt -m ckbsym.test_expr 1 400',
    'hooks': {'guard': 'none', 'enable': 'no hooks: the harness crate uses only the public API of /repo', 'source_commits': []},
    'checks': [{
        'property': k,
        'quick_cmd': 'cd /verif && python3-vt -m ckbsym.check %s --tier quick' % k,
        'thorough_cmd': 'cd /verif && python3-vt -m ckbsym.check %s --tier thorough' % k,
        'evidence_file': '/verif/evidence/%s.json' % k,
        'technique': TECH,
        'level': 'model_checking',
        'level_note': 'Bounded symbolic execution, exhaustive within: ' + META[k]['bounds'] + ('. Outside: ' + META[k]['outside'] if META[k].get('outside') else '')
    } for k in sorted(ENTRIES)],
    'not_applicable': [{'property': k, 'reason': v['reason']} for k, v in sorted(NA.items())],
    'notes': 'All text is generated by tools/gen.py from ckbsym/meta.py; see DESIGN.md.',
}
json.dump(man, open(R + '/MANIFEST.json', 'w'), indent=1)
