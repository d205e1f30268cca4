"""writes /verif/MANIFEST.json from properties.jsonl and the harnesses in props/"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
checks, na = [], []
for l in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(l)
    i = p['id']
    if i in NA:
        na.append({'property': i, 'reason': NA[i]})
    elif os.path.exists(os.path.join(HERE, 'props', i.lower() + '.py')):
        checks.append({
            'property': i,
            'quick_cmd': 'cd /verif && python3-vt -m vp.check %s' % i,
            'thorough_cmd': 'cd /verif && python3-vt -m vp.check %s --tier thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': 'bounded symbolic execution of the current Python source with z3 deciding every branch and assertion; '
                         'counterexamples replayed on the real code',
            'level': 'model_checking',
            'level_note': 'Every assertion is decided by the solver for all values of the symbolic inputs within the bounds printed in '
                          'the evidence (BOUNDS in props/%s.py); nothing is claimed outside of them. Trusted: the engine in vp/ '
                          '(models of str, list, dict, set and the library calls used), which is compared with the uninstrumented '
                          'code on sampled paths in every run, z3, and the specification in the harness.' % i.lower()})
    else:
        na.append({'property': i, 'reason': 'harness under construction'})
m = {'version': 1, 'setup_cmd': 'cd /verif && python3-vt -m vp.selftest', 'checks': checks, 'not_applicable': na}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
