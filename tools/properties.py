"""Source of properties.jsonl and MANIFEST.json (run: python3 tools/properties.py)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A = 'src/infi/asi/'
C = A + 'cdb/'
TECH = 'contract-based deductive verification: contracts on the real functions, obligations discharged by symbolic evaluation of the instrumented source (normal form + z3), counter-models replayed on the real code'
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, level='proof', note=''):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, level=level, note=note))

exec(open(os.path.join(HERE, 'tools', 'property_list.py')).read())

NOT_APPLICABLE = globals().get('NOT_APPLICABLE', [])
def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['id']
            d = dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                     anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']], hook_needed=None))
            if p['observe']: d['anchors']['observe_at'] = p['observe']
            f.write(json.dumps(d) + '\n')
    m = dict(version=1, setup_cmd='python3-vt engine/selfcheck.py --quick',
             checks=[dict(property=p['id'], quick_cmd='python3-vt check.py --property %s --tier quick' % p['id'],
                          thorough_cmd='python3-vt check.py --property %s --tier thorough' % p['id'],
                          technique=TECH, level=p['level'], level_note=p['note'] or NOTE) for p in P],
             not_applicable=NOT_APPLICABLE)
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
NOTE = 'every obligation generated from the current source is discharged for all inputs in the stated range; assumptions (engine, library models, dependency closed forms) are listed in the evidence'
main()
