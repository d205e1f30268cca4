"""run the checks against planted changes in scratch copies: python3 tools/tryseed.py [--workers N] ID... (default: all)"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
workers = 2
if args[:1] == ['--workers']:
    workers = int(args[1])
    args = args[2:]
ids = args or sorted(os.listdir(os.path.join(HERE, 'seeded')))


def one(i):
    d = os.path.join(HERE, 'seeded', i)
    prop = json.load(open(os.path.join(d, 'meta.json')))['property']
    work = tempfile.mkdtemp(prefix='try_', dir='/tmp')
    try:
        subprocess.check_call(['git', 'clone', '-q', '/repo', work + '/repo'])
        shutil.copytree(HERE, work + '/verif', ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence', '__pycache__'))
        if subprocess.call(['git', '-C', work + '/repo', 'apply', os.path.join(d, 'patch.diff')]):
            return i, prop, 'does not apply', ''
        r = subprocess.run(['python3-vt', '-m', 'vp.check', prop, '--jobs', str(8 // workers)], cwd=work + '/verif', env=dict(os.environ, VERIF_REPO=work + '/repo'),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
        return i, prop, r.returncode, next((l for l in r.stdout.splitlines() if l.startswith('VIOLATION')), r.stdout[-300:])
    finally:
        shutil.rmtree(work)


bad = 0
with ThreadPoolExecutor(workers) as ex:
    for i, p, rc, l in ex.map(one, ids):
        bad += rc != 1
        print('%-24s %s %s %s' % (i, p, rc, l[:160] if rc != 1 else ''), flush=True)
sys.exit(bool(bad))
