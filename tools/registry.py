"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after editing; no check reads it)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PKF, HMIF, HODF, IAF, BNLF, ADDF, POIF = ('src/onepower/pk.py', 'src/onepower/hmi.py', 'src/onepower/hod.py', 'src/onepower/ia.py',
                                        'src/onepower/bnl.py', 'src/onepower/add.py', 'src/onepower/utils/poisson.py')
CIF, CCT = 'cosmosis_modules/onepower_interface.py', 'cosmosis_modules/convert_theta/convert_theta.py'
CPR = 'cosmosis_modules/pk_to_real/'
TESTS = 'The 65 tests assert types, shapes and a few constants for one grid, one bin and one or two modes; '

GVN = 'gated value-dependence graph + global value numbering'
P = []


def prop(pid, title, statement, over, quant, why, files, mech, technique=GVN, note='', na=None):
    P.append(dict(pid=pid, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                  technique=technique, note=note, na=na))


exec(open(os.path.join(V, 'tools', 'table.py')).read())

NOTE = ('Decided from the source alone, for all values of the inputs at once: the value graph built by abstract interpretation of '
        'the current tree must have the same value number as the specification at every symbolic array position. Assumes the '
        'models of numpy/scipy/astropy/hmf/halomod in sa/models.py and a fingerprint collision probability below 1e-15; what '
        'the analyser cannot follow is reported as undecided in the evidence and raises no alarm. ')


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({
                'id': p['pid'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['quant']},
                'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]},
            }) + '\n')
            assert len(p['title']) <= 80, p['title']
    checks = []
    for p in P:
        if p['na']:
            continue
        assert os.path.exists(os.path.join(V, 'checks', p['pid'].lower() + '.py')), p['pid']
        cmd = f'python3 -m sa.harness {p["pid"]}'
        checks.append({'property': p['pid'], 'quick_cmd': cmd, 'thorough_cmd': cmd + ' --tier thorough',
                       'technique': 'static analysis: ' + p['technique'], 'level': 'other', 'level_note': NOTE + p['note']})
    m = {'version': 1, 'setup_cmd': 'python3 -m compileall -q sa checks spec',
         'checks': checks,
         'not_applicable': [{'property': p['pid'], 'reason': p['na']} for p in P if p['na']],
         'notes': 'One static analyser (sa/), one check module per property (checks/), plain-formula specifications that are read, '
                  'never executed (spec/). No hooks in /repo.'}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
