#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json (run: python3 meta.py)."""
import json, os, props
V = os.path.dirname(os.path.abspath(__file__))
P = []
def p(id, title, statement, over, qtext, why, files, mech, note, na=None, **kw):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=qtext), why_tests_cant=why,
             anchors=dict(files=files.split(), mechanism=[dict(name=a.split('@')[0], where=a.split('@')[1]) for a in mech.split(' ')]))
    d['anchors'].update(kw); P.append((d, note, na))
exec(open(V + '/meta_props.py').read())
TECH = 'bounded symbolic execution of the real code (clang LLVM IR of /repo/src) deciding every path condition and assertion with a SAT/SMT solver'
TECHPY = 'bounded symbolic execution of the real script (proxy values over Z3 terms), deciding every branch and assertion with a solver'
def main():
    ids = [d['id'] for d, _, _ in P]; assert len(set(ids)) == len(ids)
    for d, _, _ in P: assert len(d['title']) <= 80, d['id']
    for d, n, na in P: assert (d['id'] in props.PROPS) != bool(na), d['id']
    open(V + '/properties.jsonl', 'w').write(''.join(json.dumps(d) + '\n' for d, _, _ in P))
    m = dict(version=1, setup_cmd='make -C kse kse', checks=[dict(property=d['id'], quick_cmd='python3 check.py %s --tier quick' % d['id'], thorough_cmd='python3 check.py %s --tier thorough' % d['id'],
        evidence_file='evidence/%s.json' % d['id'], technique=TECHPY if d['id'][0] == 'P' else TECH, level='model_checking', level_note=n) for d, n, na in P if not na],
        not_applicable=[dict(property=d['id'], reason=na) for d, _, na in P if na],
        notes='Every check compiles the relevant /repo/src files to LLVM IR, executes them symbolically with kse/ (see DESIGN.md) and replays counterexamples against a native ASan/UBSan build before reporting them.')
    json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
main()
