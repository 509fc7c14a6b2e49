#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the notes below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(ROOT + '/properties.jsonl')]
notes = json.load(open(ROOT + '/tools/checks.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if i in notes:
        checks.append(dict(property=i, quick_cmd='./check.sh %s quick' % i, thorough_cmd='./check.sh %s thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique=notes[i]['technique'],
                           level='exploration', level_note=notes[i]['note']))
    else:
        na.append(dict(property=i, reason='its check is not built yet'))
m = dict(version=1, setup_cmd='./setup.sh', hooks=dict(guard='none', enable='the checks build the unmodified working tree of /repo; no hooks were needed', source_commits=[]),
         checks=checks, not_applicable=na,
         notes='Every check is generated-input search (rapid, sharded over 8 processes) against an explicit oracle; see DESIGN.md. VERIF_SEED seeds all choices.')
open(ROOT + '/MANIFEST.json', 'w').write(json.dumps(m, indent=1) + '\n')
print(len(checks), 'checks,', len(na), 'not applicable')
