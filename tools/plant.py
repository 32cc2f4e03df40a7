#!/opt/venv/bin/python
"""Confirms a planted bug in a scratch copy and files it under /verif/seeded.

usage: plant.py SPEC.py [--check]

SPEC.py defines ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)...]
and DEMO (source of a program that exits 0 on the unchanged tree).
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
           PYTHONNOUSERSITE='1')
DEMO_SH = '''#!/bin/bash
# Run with cwd at the repository: exits 0 if the property holds there.
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def run(cmd, cwd, **kwargs):
    return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True,
                          text=True, **kwargs)


def original_lines(path):
    """ Lines of the repository as first found. """
    root = run(['git', 'rev-list', '--max-parents=0', 'HEAD'],
               '/repo').stdout.split()[0]
    return run(['git', 'show', root + ':' + path], '/repo').stdout


def main(spec_path, check):
    spec = runpy.run_path(spec_path)
    name = spec['ID']
    scratch = tempfile.mkdtemp(prefix='plant-')
    try:
        tree = os.path.join(scratch, 'repo')
        shutil.copytree('/repo', tree, symlinks=True)
        for file, old, new in spec['EDITS']:
            path = os.path.join(tree, file)
            with open(path) as stream:
                text = stream.read()
            assert text.count(old) == 1, (file, text.count(old), old)
            with open(path, 'w') as stream:
                stream.write(text.replace(old, new))
        diff = run(['git', 'diff'], tree).stdout
        assert diff
        removed = [line[1:] for line in diff.splitlines()
                   if line.startswith('-') and not line.startswith('---')]
        base = '\n'.join(
            original_lines(f) for f in {e[0] for e in spec['EDITS']})
        hits = [r for r in removed if r.strip() and r in base.splitlines()]
        if not hits:
            print('WARNING: no original line is changed or removed')
        folder = os.path.join(VERIF, 'seeded', name)
        os.makedirs(folder, exist_ok=True)
        with open(os.path.join(folder, 'patch.diff'), 'w') as stream:
            stream.write(diff)
        with open(os.path.join(folder, 'demo.py'), 'w') as stream:
            stream.write(spec['DEMO'].lstrip('\n'))
        with open(os.path.join(folder, 'demo.sh'), 'w') as stream:
            stream.write(DEMO_SH)
        os.chmod(os.path.join(folder, 'demo.sh'), 0o755)
        with open(os.path.join(folder, 'meta.json'), 'w') as stream:
            json.dump({'property': spec['PROPERTY'], 'needs': spec['NEEDS'],
                       'what_it_breaks': spec['BREAKS']}, stream, indent=1)
            stream.write('\n')
        good = run(['bash', os.path.join(folder, 'demo.sh')], '/repo')
        bad = run(['bash', os.path.join(folder, 'demo.sh')], tree)
        junit = os.path.join(scratch, 'junit.xml')
        run([PY, '-m', 'pytest', 'tests', '-q', '-p', 'no:cacheprovider',
             '--continue-on-collection-errors', '--junitxml', junit], tree)
        passed = set()
        for case in ET.parse(junit).getroot().iter('testcase'):
            if not len(case):
                passed.add(case.get('classname') + '::' + case.get('name'))
        want = run([PY, '-m', 'pytest', 'tests', '-q', '-p',
                    'no:cacheprovider', '--junitxml', junit], '/repo')
        base_pass = set()
        for case in ET.parse(junit).getroot().iter('testcase'):
            if not len(case):
                base_pass.add(case.get('classname') + '::' + case.get('name'))
        lost = sorted(base_pass - passed)
        ok = good.returncode == 0 and bad.returncode not in (0,) and not lost
        print('%s %s: demo good=%s bad=%s tests lost=%d of %d %s' % (
            'OK ' if ok else 'BAD', name, good.returncode, bad.returncode,
            len(lost), len(base_pass), lost[:3]))
        if good.returncode:
            print(good.stdout[-800:], good.stderr[-1500:])
        print('   bad demo says:', (bad.stdout + bad.stderr).strip()[-300:])
        if check:
            env = dict(os.environ, DST_REPO=tree, VERIF_SEED='1')
            out = subprocess.run(
                [os.path.join(VERIF, 'check'), spec['PROPERTY'], 'quick'],
                env=env, capture_output=True, text=True)
            print('   check exit', out.returncode, '\n     '.join(
                [''] + out.stdout.strip().splitlines()[-3:]))
        if not ok and '--keep' not in sys.argv:
            shutil.rmtree(folder)
    finally:
        shutil.rmtree(scratch)


if __name__ == '__main__':
    main(sys.argv[1], '--check' in sys.argv)
