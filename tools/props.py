"""single source of properties.jsonl and of the check list in MANIFEST.json"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, qtext, why, files, mech, claimed=True, na=None, note='', over=('inputs',), technique=None, level='proof'):
    P.append(dict(id=id, title=title, statement=statement, qtext=qtext, why=why, files=files, mech=mech, claimed=claimed, na=na,
                  note=note, over=list(over), technique=technique, level=level))


exec(open(os.path.join(HERE, 'tools', 'proplist.py')).read())

NOTES = {'P09': 'staged diffusers bounded to 1-3 stages; ', 'P22': 'piping iterations and laminar steps bounded to 3-4 steps and the noise clause to sampled points (labelled bounded, not counted as proved); ',
         'P25': 'band integrals of horizontal torispherical and guppy heads by sampled heads and levels (labelled bounded, not counted as proved); '}
TECH = ('contract-based deductive verification: VCs from the real Python source by symbolic execution against pre/postconditions, '
        'discharged by canonical-form, interval and SMT (z3) back ends')


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['qtext']},
                'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]},
            }) + '\n')
            assert len(p['title']) <= 80, p['title']
    checks, na = [], []
    for p in P:
        if p['claimed'] and os.path.exists(os.path.join(HERE, 'specs', p['id'].lower() + '.py')):
            checks.append({
                'property': p['id'],
                'quick_cmd': 'python3-vt -m pyvc.run %s' % p['id'],
                'thorough_cmd': 'python3-vt -m pyvc.run %s --tier thorough' % p['id'],
                'evidence_file': 'evidence/%s.json' % p['id'],
                'technique': p['technique'] or TECH,
                'level': p['level'],
                'level_note': NOTES.get(p['id'], '') + (p['note'] or 'all obligations discharged over the reals for the stated input domain; machine floats idealised as reals; callee contracts of root finders assumed where listed in the evidence')})
        else:
            na.append({'property': p['id'], 'reason': p['na'] or 'contracts for this property are not built yet'})
    m = {'version': 1, 'setup_cmd': 'python3-vt -m pyvc.selftest', 'checks': checks, 'not_applicable': na}
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    print(len(checks), 'checks', len(na), 'not applicable')


if __name__ == '__main__':
    main()
