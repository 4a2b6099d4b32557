"""Writes /verif/MANIFEST.json from the property list and the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
NA = {
    'C31': 'Workbook input/output: the code is pandas/openpyxl/zip-XML calls around plain assignments; the property lives in those C-backed libraries and the file system, which cannot be encoded for a solver, and src/BELLA/pdls_in_excel.py does not parse at this commit.',
    'C32': 'The whole optimisation is a whole-program run over randomised ply-drop layouts and beam searches of unbounded depth whose core dependency src/CLA is absent from the repository; its building blocks are decided separately (C10-C17, C21-C27).',
}
TECH = 'bounded symbolic execution of the real source (AST interpreter with state merging), verdicts by z3'
NOTE = ('Holds for every input within the bounds listed in the evidence file, decided by z3 over guards and values '
        'produced by symbolically executing the current source of the functions listed there; nothing is claimed '
        'outside the bounds. Trusted: z3, the interpreter and numpy models in symex/ (cross-checked against the real '
        'code on sampled inputs each run), exact-rational treatment of real-valued inputs, the src.CLA stub where it '
        'is needed. Counterexamples are replayed on the unmodified code before they are reported.')
checks = []
na = []
for i in ids:
    if os.path.exists(os.path.join(V, 'props', i + '_cfg.py')) and i not in NA:
        checks.append(dict(property=i, quick_cmd='./check %s quick' % i, thorough_cmd='./check %s thorough' % i,
                           technique=TECH, level='other', level_note=NOTE))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no check built yet')))
m = dict(version=1, setup_cmd='/opt/venv/bin/python symex/check.py --selftest', checks=checks, not_applicable=na,
         notes='See DESIGN.md. No hooks are needed in /repo.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
