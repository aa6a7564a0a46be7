#!/usr/bin/env python3
"""Single source of the properties: writes properties.jsonl and MANIFEST.json (checks come from checks.py)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import CHECKS, LEVEL_NOTES
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook='none, only the public interface is used'):
    assert len(title) <= 80, (id, len(title))
    assert statement.count('. ') <= 2, (id, statement.count('. '))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=n, meaning=m) for n, m in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=hook)))


SCH = 'src/threading/scheduler/'
RUN = 'the body of every reaction, where start and end are logged with the message and thread'
exec(open(os.path.join(V, 'bin', 'proplist.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
checks, na = [], []
for x in P:
    i = x['id']
    if i in CHECKS:
        checks.append(dict(property=i, quick_cmd='python3 bin/check.py %s quick' % i, thorough_cmd='python3 bin/check.py %s thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique=CHECKS[i]['technique'], level='exploration',
                           level_note=LEVEL_NOTES[CHECKS[i].get('note', 'default')]))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'The check for this property has not been built yet.')))
m = dict(version=1, setup_cmd='python3 bin/setup.py',
         hooks=dict(guard='NUCLEAR_VERIF', enable='No hooks are needed: every monitor observes the public interface, and the sanitizer, '
                    'controlled scheduler and simulated network builds only add compiler flags and link time symbols.', source_commits=[]),
         checks=checks, not_applicable=na,
         notes='Every check rebuilds the library from the working tree of /repo in the instrumented variants it needs (bin/build.py). '
               'Defects found and repaired are listed in KNOWN_FINDINGS.txt. See DESIGN.md.')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(P), 'properties,', len(checks), 'checks')
