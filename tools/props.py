"""Source of properties.jsonl and MANIFEST.json (run: python3-vt tools/props.py)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, observe=observe))


T_RR = 'symbolic execution of the LLVM IR, SMT over reals with IEEE rounding axioms (z3/cvc5)'
T_RX = 'symbolic execution of the LLVM IR in exact real arithmetic, SMT (z3/cvc5, nlsat)'
T_F = 'symbolic execution of the LLVM IR, bit-precise SMT (FP + bit-vectors, z3/cvc5)'
N_RR = ('Solver verdict for every float input in the stated domain; rounding is over-approximated by sound IEEE-754 '
        'axioms. Trusts rustc front end to IR, the executor (cross-validated against native runs), the solver.')
N_RX = ('Solver verdict for every real input in the stated domain with arithmetic read as exact real arithmetic; '
        'rounding error is outside the claim. Trusts rustc to IR, the executor (cross-validated against native runs), '
        'the solver.')
N_F = ('Solver verdict over all bit patterns. Trusts rustc to IR, the executor (cross-validated against native runs), '
       'the solver.')

exec(open(os.path.join(V, 'tools', 'plist.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        d = dict(id=p['id'], title=p['title'], statement=p['statement'],
                 quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                 anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']],
                              observe_at=p['observe'] or [], hook_needed=None))
        f.write(json.dumps(d) + '\n')
have = [p for p in P if os.path.exists(os.path.join(V, 'checks', p['id'].lower() + '.py'))]
m = dict(version=1, setup_cmd='./setup.sh',
         checks=[dict(property=p['id'], quick_cmd='./check.sh ' + p['id'],
                      thorough_cmd='VERIF_TIER=thorough ./check.sh ' + p['id'],
                      technique=p['technique'], level='model_checking', level_note=p['note']) for p in have],
         not_applicable=[dict(property=p['id'], reason=NA.get(p['id'], 'check not built yet')) for p in P
                         if p not in have],
         notes='One command per property; every run re-emits the LLVM IR of /repo and a native build of the same '
               'harness, executes the IR symbolically and lets the solver decide each obligation.')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(P), 'properties,', len(have), 'checks')
