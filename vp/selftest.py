"""setup_cmd: everything the checks need is present and works"""
import json
import os
import subprocess
import sys

from . import explore, check


def main():
    import z3
    explore.setup_process()
    here = check.HERE
    with open(os.path.join(here, 'MANIFEST.json')) as f:
        props = [c['property'] for c in json.load(f)['checks']]
    for p in props:
        m = explore.harness_module(p)
        n = len(list(m.cases('quick')))
        assert n, p
    subprocess.check_call([check.REPLAY_PY, '-c', 'import sys'])
    os.makedirs(os.path.join(here, 'evidence'), exist_ok=True)
    print('z3 %s, %d harnesses, replay with %s' % (z3.get_version_string(), len(props), check.REPLAY_PY))


if __name__ == '__main__':
    sys.exit(main())
