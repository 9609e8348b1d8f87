"""Generates properties.jsonl and MANIFEST.json from the entries below:
python3 tools/props.py (from /verif)."""
import json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None, level='other'):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note, observe=observe, level=level))


def na(id, title, statement, over, text, why, files, mech, reason):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, reason=reason))


exec(open(os.path.join(HERE, 'tools', 'entries.py')).read())


def main():
    rows, checks, nas = [], [], []
    ids = set()
    for p in P:
        assert p['id'] not in ids and len(p['title']) <= 80, p['id']
        ids.add(p['id'])
        row = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
               'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
               'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}
        if p.get('observe'):
            row['anchors']['observe_at'] = p['observe']
        rows.append(row)
        built = os.path.exists(os.path.join(HERE, 'sa', 'checks', p['id'].lower() + '.py'))
        if 'reason' in p or not built:
            nas.append({'property': p['id'], 'reason': p.get('reason', 'no check built yet')})
            continue
        checks.append({'property': p['id'], 'quick_cmd': 'python3 -m sa.run %s --tier quick' % p['id'],
                       'thorough_cmd': 'python3 -m sa.run %s --tier thorough' % p['id'],
                       'technique': p['technique'], 'level': p['level'], 'level_note': p['note']})
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fp:
        for r in rows:
            fp.write(json.dumps(r) + '\n')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fp:
        json.dump({'version': 1, 'setup_cmd': 'python3 -m compileall -q sa', 'checks': checks, 'not_applicable': nas}, fp, indent=1)
        fp.write('\n')
    print(len(rows), 'properties', len(checks), 'checks', len(nas), 'not applicable')


main()
