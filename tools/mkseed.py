"""make one planted change: python3 tools/mkseed.py SPEC.py
SPEC defines ID, PROP, NEEDS, BREAKS, EDITS = [(file, old, new), ...], DEMO (python source run with cwd=/repo).
Works in a scratch copy of /repo; keeps the change only if the stable tests pass and the demonstration tells it apart."""
import json, os, shutil, subprocess, sys, tempfile

if '--one' not in sys.argv:
    # a file with several specifications: SPECS = [dict(ID=..., ...), ...]
    spec = {}
    exec(open(sys.argv[1]).read(), spec)
    if 'SPECS' in spec:
        for s in spec['SPECS']:
            if len(sys.argv) > 2 and s['ID'] not in sys.argv[2:]:
                continue
            with tempfile.NamedTemporaryFile('w', suffix='.py') as f:
                f.write('\n'.join('%s = %r' % i for i in s.items()))
                f.flush()
                r = subprocess.run([sys.executable, __file__, f.name, '--one'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                print(s['ID'], r.stdout.strip().replace('\n', ' | ')[-400:], flush=True)
        sys.exit()
spec = {}
exec(open(sys.argv[1]).read(), spec)
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'seeded', spec['ID'])
work = tempfile.mkdtemp(prefix='seed_', dir='/tmp')
copy = os.path.join(work, 'repo')
subprocess.check_call(['git', 'clone', '-q', '/repo', copy])
SH = '''#!/bin/bash
export PYTHONPATH="$PWD:$PWD/babylondigger" PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''
try:
    demo = os.path.join(work, 'demo')
    os.mkdir(demo)
    open(os.path.join(demo, 'demo.sh'), 'w').write(SH)
    open(os.path.join(demo, 'demo.py'), 'w').write(spec['DEMO'].lstrip('\n'))

    def run_demo():
        p = subprocess.run(['bash', os.path.join(demo, 'demo.sh')], cwd=copy, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
        return p.returncode, p.stdout[-600:]
    rc, txt = run_demo()
    if rc:
        sys.exit('demo fails on the unchanged tree: ' + txt)
    for f, old, new in spec['EDITS']:
        p = os.path.join(copy, f)
        s = open(p, encoding='utf8', newline='').read()
        if s.count(old) != 1:
            sys.exit('%d matches of %r in %s' % (s.count(old), old, f))
        open(p, 'w', encoding='utf8', newline='').write(s.replace(old, new))
    diff = subprocess.check_output(['git', '-C', copy, 'diff'])
    rc, txt = run_demo()
    if not rc:
        sys.exit('demo passes with the change')
    print('demo:', txt.strip().split('\n')[-1])
    test = open('/opt/vp/test.sh').read().replace('cd /repo', 'cd ' + copy).replace('/repo:/repo/', copy + ':' + copy + '/')
    open(os.path.join(work, 't.sh'), 'w').write(test)
    subprocess.run(['bash', os.path.join(work, 't.sh'), os.path.join(work, 'o.json')], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    o = json.load(open(os.path.join(work, 'o.json')))
    base = json.load(open('/opt/vp/BASELINE.json'))
    base = base if isinstance(base, list) else base.get('stable') or base.get('passed')
    missing = [t for t in base if t not in o['passed']]
    if missing:
        sys.exit('tests fail: %s' % missing[:3])
    os.makedirs(out, exist_ok=True)
    open(os.path.join(out, 'patch.diff'), 'wb').write(diff)
    shutil.copy(os.path.join(demo, 'demo.sh'), out)
    shutil.copy(os.path.join(demo, 'demo.py'), out)
    json.dump({'property': spec['PROP'], 'needs': spec['NEEDS'], 'what_it_breaks': spec['BREAKS']}, open(os.path.join(out, 'meta.json'), 'w'), indent=1)
    print('kept', spec['ID'])
finally:
    shutil.rmtree(work)
