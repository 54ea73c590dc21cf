"""Builds /verif/seeded/<id>/ from tools/plant_specs.py.

For each planted change: apply it in a scratch copy of /repo, check that the
repository's tests still pass, that the demonstration passes without and fails
with it, and write patch.diff, demo.sh, demo.py and meta.json.

    python3 tools/plant.py [ID ...]
"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from plant_specs import SPECS
PY = '/opt/venv/bin/python'
TESTS = ['tests/test_address.py', 'tests/test_privkey.py', 'tests/test_pubkey.py', 'tests/test_transaction.py',
         'tests/test_unit.py', 'tests/test_uri.py', 'tests/script/test_interpreter.py',
         'tests/script/test_opcode.py', 'tests/script/test_script.py']
SH = '#!/bin/bash\n# exit 0 where the property holds, nonzero otherwise; run with cwd /repo\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def tests(tree):
    out = set()
    for t in TESTS:
        r = subprocess.run([PY, '-m', 'pytest', '-v', '-p', 'no:cacheprovider', t], cwd=tree,
                           capture_output=True, text=True, timeout=600)
        for line in r.stdout.splitlines():
            if ' PASSED' in line:
                out.add(line.split(' PASSED')[0].strip())
    return out


def demo(tree, folder):
    try:
        return subprocess.run(['bash', os.path.join(folder, 'demo.sh')], cwd=tree, capture_output=True, text=True, timeout=250)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess([], 124, '', 'timeout')


def build(spec, baseline):
    scratch = tempfile.mkdtemp(prefix='plant-', dir='/tmp')
    try:
        tree = os.path.join(scratch, 'repo')
        subprocess.run(['git', 'clone', '-q', '/repo', tree], check=True)
        out = os.path.join(scratch, 'out')
        os.mkdir(out)
        open(os.path.join(out, 'demo.sh'), 'w').write(SH)
        open(os.path.join(out, 'demo.py'), 'w').write(spec['demo'].lstrip('\n'))
        r = demo(tree, out)
        if r.returncode:
            return spec['id'], 'demo fails on the clean tree: ' + r.stderr[-300:]
        for file, old, new in spec['edits']:
            path = os.path.join(tree, file)
            text = open(path).read()
            if text.count(old) != 1:
                return spec['id'], 'text found %d times in %s: %r' % (text.count(old), file, old[:60])
            open(path, 'w').write(text.replace(old, new))
        diff = subprocess.run(['git', 'diff'], cwd=tree, capture_output=True, text=True).stdout
        r = demo(tree, out)
        if r.returncode == 0:
            return spec['id'], 'demo passes with the change'
        if 'AssertionError' not in r.stderr and 'Traceback' in r.stderr and not spec.get('raises'):
            note = ' (demo: %s)' % r.stderr.strip().splitlines()[-1][:120]
        else:
            note = ''
        lost = baseline - tests(tree)
        if lost:
            return spec['id'], 'tests broken: %s' % sorted(lost)[:3]
        open(os.path.join(out, 'patch.diff'), 'w').write(diff)
        json.dump(dict(property=spec['prop'], needs=spec['needs'], what_it_breaks=spec['breaks']),
                  open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        target = os.path.join(VERIF, 'seeded', spec['id'])
        if os.path.isdir(target):
            shutil.rmtree(target)
        shutil.copytree(out, target)
        return spec['id'], 'ok' + note
    finally:
        shutil.rmtree(scratch)


def main():
    want = sys.argv[1:]
    specs = [s for s in SPECS if not want or s['id'] in want]
    tree = tempfile.mkdtemp(prefix='plant-', dir='/tmp')
    subprocess.run(['git', 'clone', '-q', '/repo', tree + '/repo'], check=True)
    baseline = tests(tree + '/repo')
    shutil.rmtree(tree)
    print('baseline', len(baseline), 'tests')
    with ThreadPoolExecutor(8) as pool:
        for id, what in pool.map(lambda s: build(s, baseline), specs):
            print(id, what, flush=True)


main()
