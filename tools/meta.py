"""writes properties.jsonl and MANIFEST.json from one table"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NA = []
CPP = 'src/vmecpp/cpp/vmecpp/'


def prop(pid, title, statement, over, qtext, why, files, mech, level_note=None, state=(), na=None):
    d = {'id': pid, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext},
         'why_tests_cant': why, 'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech]}}
    if state:
        d['anchors']['state'] = [{'name': a, 'meaning': b, 'where': c} for a, b, c in state]
    PROPS.append(d)
    if na:
        NA.append({'property': pid, 'reason': na})
    else:
        d['_note'] = level_note


exec(open(os.path.join(HERE, 'tools', 'table.py')).read())

NOTE = ('Deductive: every obligation is generated on each run from the clang AST (or Python AST) of the current source and discharged for all sizes and contents; '
        'doubles are treated as reals, ints as mathematical integers, OpenMP as sequential; library models are trusted. ')
checks = []
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        note = p.pop('_note', None)
        f.write(json.dumps(p) + '\n')
        p['_note'] = note
        if note is None:
            continue
        checks.append({'property': p['id'], 'quick_cmd': 'python3-vt check.py %s' % p['id'],
                       'thorough_cmd': 'VERIF_TIER=thorough python3-vt check.py %s' % p['id'],
                       'technique': 'contract-based deductive verification (own VC generator over the clang/Python AST, z3 + term-rewriting back end), counterexamples replayed on the compiled code',
                       'level': 'proof', 'level_note': NOTE + note})
m = {'version': 1, 'setup_cmd': 'python3-vt -c "import z3, numpy"', 'checks': checks, 'not_applicable': NA,
     'notes': 'No hooks in /repo: functions are read from the unmodified sources; private members are reached in the replay drivers by a preprocessor define in /verif only.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)


# ---- DESIGN.md
T = os.path.join(HERE, 'tools')
out = [open(os.path.join(T, 'design_head.md')).read(), '\n## Per property\n']
reasons = {x['property']: x['reason'] for x in NA}
for p in PROPS:
    out.append('\n### %s %s\n' % (p['id'], p['title']))
    if p['id'] in reasons:
        out.append('Not applicable: %s\n' % reasons[p['id']])
        continue
    c = 'contracts/%s.py' % p['id'].lower()
    out.append('- Under contract (`%s`): %s.\n' % (c, '; '.join('`%s`' % a['name'] for a in p['anchors']['mechanism'])))
    out.append('- Proved for: %s. Oracle: the formulas in the contract, written from the documented definition of each quantity.\n' % p['quantifier']['text'])
    out.append('- Remarks: %s\n' % p['_note'])
    out.append('- Beyond the tests: %s\n' % p['why_tests_cant'])
out.append('\n## Planted changes\n\nEach was written from the property text, compiles, passes the stable tests, and has a demonstration. All are caught by the check of their property on the last full run unless noted.\n\n| id | property | change breaks | needs |\n|---|---|---|---|\n')
import glob
for d in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    mm = json.load(open(d))
    out.append('| %s | %s | %s | %s |\n' % (os.path.basename(os.path.dirname(d)), mm['property'], mm['what_it_breaks'], mm['needs']))
out.append('\n' + open(os.path.join(T, 'design_tail.md')).read())
open(os.path.join(HERE, 'DESIGN.md'), 'w').write(''.join(out))
