"""Makes and verifies planted bugs.

usage: seedtool.py add SPEC.py ...     verify, run the property's check, keep
       seedtool.py check [ID ...]      verify kept ones again, with checks
       seedtool.py table               results as a table (from results.json)

SPEC.py (a scratch file, named after the id of the bug) defines PROPERTY,
EDITS = [(file, old, new)], NEEDS, BREAKS and DEMO (a Python program which
exits non-zero on the changed code; it is run in the repository's folder).
Everything happens in scratch copies of /repo under /tmp.
"""
import json
import os
import re
import runpy
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, 'seeded')
BASE = '37337e2'
RESULTS = os.path.join(ROOT, 'tools', 'seed_results.json')
ENV = dict(os.environ, HOME='/root', LANG='C.UTF-8',
           PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
DEMO_SH = '''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1
exec timeout 120 /opt/venv/bin/python -W ignore "$here/demo.py"
'''


def sh(cmd, cwd=None, timeout=900, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str),
                          capture_output=True, text=True, timeout=timeout,
                          env=ENV, **kw)


def stable():
    return set(json.load(open('/opt/vp/BASELINE.json'))['stable'])


def own_lines(path):
    """Line numbers of the file which the original repository has."""
    out = sh(['git', 'blame', '-s', '--abbrev=40', path], '/repo').stdout
    mine = set(sh(['git', 'rev-list', BASE + '..HEAD'],
                  '/repo').stdout.split())
    return {n for n, line in enumerate(out.splitlines(), 1)
            if line.split()[0].lstrip('^')[:39] not in
            {m[:39] for m in mine}}


def originality(patch):
    path, ok = None, False
    for line in patch.splitlines():
        m = re.match(r'^--- a/(.*)', line)
        if m:
            path = m.group(1)
            if re.match(r'(tests|tests_pg|docs|examples)/|.*setup\.py|'
                        r'.*conftest', path):
                return 'touches ' + path
            lines = own_lines(path)
        m = re.match(r'^@@ -(\d+)(?:,(\d+))? ', line)
        if m:
            start, n = int(m.group(1)), int(m.group(2) or 1)
            for i in range(start, start + n):
                if i not in lines:
                    return 'touches a line of a fix: %s:%d' % (path, i)
                ok = True
    return None if ok else 'changes no original line'


def verify(bug, folder, log):
    """Problems of the bug in the folder; log gets the check's verdict."""
    meta = json.load(open(folder + '/meta.json'))
    work = '/tmp/sv-' + bug
    shutil.rmtree(work, ignore_errors=True)
    shutil.copytree('/repo', work, symlinks=True)
    try:
        r = sh(['bash', folder + '/demo.sh'], work)
        if r.returncode:
            return 'demo fails on the unchanged tree:\n' + r.stdout + r.stderr
        r = sh(['git', 'apply', folder + '/patch.diff'], work)
        if r.returncode:
            return 'does not apply: ' + r.stderr
        diff = sh(['git', 'diff', '-U0'], work).stdout
        bad = originality(diff)
        if bad:
            return bad
        r = sh(['bash', folder + '/demo.sh'], work)
        if not r.returncode:
            return 'demo passes with the change'
        log['demo'] = (r.stdout + r.stderr).strip().splitlines()[-1:]
        r = sh('PYTHONPATH=%s timeout 800 /opt/venv/bin/python -m pytest -q '
               '-p no:cacheprovider --continue-on-collection-errors '
               '-o junit_family=xunit2 --junitxml=%s/junit.xml '
               '--ignore=docs/test_asyncio.py tests docs' % (work, work),
               work)
        sh(['python3', '/opt/vp/results.py', work + '/out.json',
            'junit:' + work + '/junit.xml'])
        out = json.load(open(work + '/out.json'))
        passed = set(out.get('passed') or out.get('stable') or ())
        missing = stable() - passed
        if missing:
            return 'tests fail: %s' % sorted(missing)[:5]
        ENV2 = dict(ENV, HIKU_REPO=work, VERIF_OUT='/tmp/ev-' + bug)
        r = subprocess.run(['bash', ROOT + '/check.sh', meta['property']],
                           capture_output=True, text=True, env=ENV2,
                           timeout=1500)
        log['caught'] = r.returncode == 1 and \
            'VIOLATION property=' + meta['property'] in r.stdout
        log['rc'] = r.returncode
        log['out'] = r.stdout[:1500]
    finally:
        shutil.rmtree(work, ignore_errors=True)
        shutil.rmtree('/tmp/ev-' + bug, ignore_errors=True)
    return None


def make(spec):
    s = runpy.run_path(spec)
    bug = os.path.splitext(os.path.basename(spec))[0]
    work = '/tmp/mk-' + bug
    shutil.rmtree(work, ignore_errors=True)
    shutil.copytree('/repo', work, symlinks=True)
    folder = '/tmp/seed-' + bug
    shutil.rmtree(folder, ignore_errors=True)
    os.makedirs(folder)
    try:
        for path, old, new in s['EDITS']:
            text = open(os.path.join(work, path)).read()
            if text.count(old) != 1:
                return bug, None, '%d times in %s: %s' % (text.count(old),
                                                          path, old)
            open(os.path.join(work, path), 'w').write(text.replace(old, new))
        patch = sh(['git', 'diff'], work).stdout
    finally:
        shutil.rmtree(work, ignore_errors=True)
    open(folder + '/patch.diff', 'w').write(patch)
    open(folder + '/demo.py', 'w').write(s['DEMO'].lstrip('\n'))
    open(folder + '/demo.sh', 'w').write(DEMO_SH)
    json.dump({'property': s['PROPERTY'], 'needs': ' '.join(
        s['NEEDS'].split()), 'what_it_breaks': ' '.join(s['BREAKS'].split())},
        open(folder + '/meta.json', 'w'), indent=1)
    return bug, folder, None


def record(bug, prop, log):
    res = json.load(open(RESULTS)) if os.path.exists(RESULTS) else {}
    res[bug] = {'property': prop, 'caught': log['caught']}
    json.dump(dict(sorted(res.items())), open(RESULTS, 'w'), indent=1)
    open(RESULTS, 'a').write('\n')


def main():
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == 'table':
        res = json.load(open(RESULTS))
        for bug, r in res.items():
            print('| %s | %s | %s |' % (bug, r['property'],
                                       'yes' if r['caught'] else 'NO'))
        return
    todo = []
    if cmd == 'add':
        for spec in args:
            bug, folder, bad = make(spec)
            if bad:
                print('%s: BAD %s' % (bug, bad))
            else:
                todo.append((bug, folder))
    else:
        todo = [(b, os.path.join(SEEDED, b))
                for b in (args or sorted(os.listdir(SEEDED)))]

    def one(t):
        bug, folder = t
        log = {}
        try:
            return bug, folder, verify(bug, folder, log), log
        except Exception as e:
            return bug, folder, repr(e), log
    with ThreadPoolExecutor(3) as pool:
        for bug, folder, bad, log in pool.map(one, todo):
            if bad:
                print('%s: BAD %s' % (bug, bad), flush=True)
                continue
            prop = json.load(open(folder + '/meta.json'))['property']
            print('%s: %s %s  [demo: %s]' % (
                bug, prop, 'caught' if log['caught'] else
                'MISSED rc=%s' % log['rc'], ' '.join(log['demo'])[:150]),
                flush=True)
            if not log['caught']:
                print(log['out'][:600])
            record(bug, prop, log)
            if cmd == 'add':
                dest = os.path.join(SEEDED, bug)
                shutil.rmtree(dest, ignore_errors=True)
                os.makedirs(SEEDED, exist_ok=True)
                shutil.copytree(folder, dest)
                shutil.rmtree(folder, ignore_errors=True)


if __name__ == '__main__':
    main()
