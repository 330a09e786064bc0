#!/usr/bin/env python3
"""Turn a specification of a planted bug into /verif/seeded/<id>, and confirm it.

    plant.py make SPEC...        write patch.diff, demo.sh, demo.py and meta.json; run the demonstration with and without it
    plant.py tests ID...         run the stable tests of the repository with the patch, in a scratch copy
    plant.py check ID... [-- CNN...]  run the checks (default: that of its property) with the patch, in a scratch copy

A specification is a Python file which defines PROPERTY, EDITS (list of (path, old, new)), NEEDS, BREAKS and DEMO.
"""
import json
import os
import runpy
import shutil
import subprocess as sp
import sys
from pathlib import Path

SEEDED = Path(__file__).resolve().parent.parent / 'seeded'
WORK = Path('/tmp/plant')
PY = '/opt/venv/bin/python'
SH = '''#!/bin/bash
here=$(dirname "$0")
PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1 exec /opt/venv/bin/python -W ignore "$here/demo.py"
'''


def copy(name):
    to = WORK / name
    shutil.rmtree(to, ignore_errors=True)
    WORK.mkdir(exist_ok=True)
    sp.run(['cp', '-a', '/repo', str(to)], check=True)
    sp.run('git checkout -q -- . && git clean -qfd', shell=True, cwd=to, check=True)
    return to


def demo(where, cwd):
    away = WORK / 'demo'
    shutil.rmtree(away, ignore_errors=True)
    shutil.copytree(where, away, ignore=shutil.ignore_patterns('*.diff', '*.patch', 'meta.json'))
    r = sp.run(['bash', str(away / 'demo.sh')], cwd=cwd, capture_output=True, text=True, timeout=300)
    return r.returncode, (r.stdout + r.stderr).strip().splitlines()[-1:]


def make(spec):
    spec = Path(spec)
    s = runpy.run_path(str(spec))
    out = SEEDED / spec.stem
    out.mkdir(parents=True, exist_ok=True)
    tree = copy('make')
    (out / 'demo.sh').write_text(SH)
    (out / 'demo.py').write_text(s['DEMO'].lstrip('\n'))
    (out / 'meta.json').write_text(json.dumps(
        {'property': s['PROPERTY'], 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']}, indent=1) + '\n')
    before = demo(out, tree)
    for path, old, new in s['EDITS']:
        raw = (tree / path).read_bytes()
        if b'\r\n' in raw:
            old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
        assert raw.count(old.encode()) == 1, f'{path}: {raw.count(old.encode())} occurrences of {old!r}'
        (tree / path).write_bytes(raw.replace(old.encode(), new.encode()))
        blame = sp.run(['git', 'blame', '-s', path], cwd=tree, capture_output=True, text=True).stdout
    diff = sp.run(['git', 'diff', '--binary'], cwd=tree, capture_output=True).stdout
    (out / 'patch.diff').write_bytes(diff)
    after = demo(out, tree)
    ok = before[0] == 0 and after[0] != 0
    print(('ok  ' if ok else 'BAD '), spec.stem, 'before', *before, 'after', *after)
    return ok


def patched(name, tag):
    tree = copy(f'{tag}-{name}')
    sp.run(['git', 'apply', str(SEEDED / name / 'patch.diff')], cwd=tree, check=True)
    return tree


def tests(name):
    tree = patched(name, 't')
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='1',
               OPENBLAS_NUM_THREADS='1', MPLBACKEND='Agg')
    common = [PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=800', '--disable-warnings',
              '--continue-on-collection-errors', '--ignore=tests/models/test_thevenin.py', '-o', 'junit_family=xunit2']
    long = 'tests/estimators/online/test_joint_ukf.py'
    a = sp.Popen(common + ['--junitxml=long.xml', '-n', '3', long], cwd=tree, env=env, stdout=sp.PIPE, text=True)
    b = sp.Popen(common + ['--junitxml=rest.xml', '-n', '5', f'--ignore={long}', 'tests'], cwd=tree, env=env,
                 stdout=sp.PIPE, text=True)
    outs = [a.communicate()[0], b.communicate()[0]]
    import xml.etree.ElementTree as ET
    passed = set()
    for f in ('long.xml', 'rest.xml'):
        for c in ET.parse(tree / f).iter('testcase'):
            if not any(x.tag in ('failure', 'error', 'skipped') for x in c):
                passed.add(f"{c.get('classname')}::{c.get('name')}")
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    lost = sorted(stable - passed)
    print('ok  ' if not lost else 'BAD ', name, 'tests lost:', lost[:6], [o.strip().splitlines()[-1:] for o in outs] if lost else '')
    shutil.rmtree(tree)
    return not lost


def check(name, pids):
    tree = patched(name, 'c')
    pids = pids or [json.loads((SEEDED / name / 'meta.json').read_text())['property']]
    for pid in pids:
        r = sp.run([str(SEEDED.parent / 'check'), pid], env=dict(os.environ, MC_REPO=str(tree), MC_NO_EVIDENCE='1'),
                   capture_output=True, text=True)
        v = [x for x in r.stdout.splitlines() if x.startswith('VIOLATION')]
        keys = [x for x in r.stdout.splitlines() if not x.startswith('VIOLATION')][-1:]
        print('caught' if r.returncode == 1 and v else f'MISSED({r.returncode})', name, pid, keys, flush=True)
    shutil.rmtree(tree)


if __name__ == '__main__':
    what, rest = sys.argv[1], sys.argv[2:]
    extra = []
    if '--' in rest:
        extra = rest[rest.index('--') + 1:]
        rest = rest[:rest.index('--')]
    for x in rest:
        {'make': make, 'tests': tests}[what](x) if what != 'check' else check(x, extra)
