"""The properties: one table, from which properties.jsonl and MANIFEST.json are generated (python3 props.py)."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
P = []
def prop(id, harness, title, statement, over, qtext, why, files, mech, technique, note):
    P.append(dict(id=id, harness=harness, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=[dict(name=n, where=w) for n, w in mech], technique=technique, note=note))

exec(open(os.path.join(V, 'props_data.py')).read())
P.sort(key=lambda x: x['id'])

if __name__ == '__main__':
    with open(V + '/properties.jsonl', 'w') as f:
        for x in P:
            f.write(json.dumps({'id': x['id'], 'title': x['title'], 'statement': x['statement'],
                                'quantifier': {'over': x['over'], 'text': x['qtext']}, 'why_tests_cant': x['why'],
                                'anchors': {'files': x['files'], 'mechanism': x['mech']}}) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3 check.py --build',
         'checks': [{'property': x['id'], 'quick_cmd': 'python3 check.py %s quick' % x['id'],
                     'thorough_cmd': 'python3 check.py %s thorough' % x['id'], 'evidence_file': 'evidence/%s.json' % x['id'],
                     'technique': x['technique'], 'level': 'exploration', 'level_note': x['note']} for x in P],
         'not_applicable': [],
         'notes': 'No hooks in /repo. Every check rebuilds the library from /repo/src (AddressSanitizer) and one harness.'}
    json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
    for x in P:
        assert len(x['title']) <= 80, x['title']
    print(len(P), 'properties')
