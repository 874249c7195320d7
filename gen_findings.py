#!/usr/bin/env python3
"""writes known_findings.json: unrepaired findings (suppressed by property+mechanism) and the repairs (which suppress nothing)"""
import json, os, subprocess
F = []
for fam, names in {'tree_clf_loadable': ['err', 'features', 'features_length', 'out', 'out_length'], 'tree_reg_loadable': ['features', 'features_length', 'out'],
                   'mlp_clf_loadable': ['features', 'n_features', 'out', 'out_length'], 'mlp_reg_loadable': ['features', 'n_features', 'out', 'out_length']}.items():
    for n in names:
        F.append(dict(property='C09', mechanism=f'parameter-name:{fam}:{n}',
                      what=f'{fam} saved under the valid name "{n}" does not compile: the name is hidden by a parameter of the generated functions'))
F.append(dict(property='C10', mechanism='header:testcsv-malformed:msan:uninitialized:eml_test_parse_csv_line',
              what='eml_test_parse_csv_line stores an uninitialised value for a CSV field that is not a number (emlearn/eml_test.h counts as a test file, so it is not repaired here)'))
# property of every fix commit, by a piece of its subject
PROPS = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'fix_properties.json')))
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()
fixed = []
for l in log:
    h, s = l.split(' ', 1)
    if not s.startswith('fix:') or s not in PROPS and not any(s.startswith(k) for k in PROPS):
        if s.startswith('fix:'):
            print('no property for', s)
        continue
    for p in PROPS[s].split('/'):
        fixed.append(f'fixed: property={p} {h} {s[5:]}')
json.dump(dict(findings=F, fixed=fixed), open('/verif/known_findings.json', 'w'), indent=1)
print(len(F), 'findings', len(fixed), 'fixed entries')
