"""Plant a bug in a scratch copy of /repo, confirm it, and keep it under seeded/.

usage: mkseed.py SPEC.py [SPEC.py ...]
A spec defines SEEDS, a list of dicts, or directly ID, PROP, NEEDS, BREAKS, EDITS = [(file, old, new), ...] and DEMO (python source).
Confirms: edits apply once each, touch lines of the original repository, the stable tests
still pass, the demo fails with the change and passes without it.  Never touches /repo.
"""
import json
import os
import pathlib
import runpy
import shutil
import subprocess
import sys
import tempfile

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path('/repo')
BASE = 'ed4ab50'
PY = '/opt/venv/bin/python'
DEMO_SH = '''#!/bin/bash
# run with cwd = the repository
export PYTHONDONTWRITEBYTECODE=1 PROJ_NETWORK=OFF PYTHONPATH="$PWD/src"
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"
DEMO_TMP="$T" /opt/venv/bin/python "$D/demo.py"
rc=$?
rm -rf "$T"
exit $rc
'''


def sh(cmd, cwd, **env):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), capture_output=True,
                          text=True, env={**os.environ, **env})


def main(s):
    wt = pathlib.Path(tempfile.mkdtemp(prefix='seed_', dir='/tmp'))
    try:
        shutil.copytree(REPO, wt / 'r', symlinks=True)
        r = wt / 'r'
        for f, old, new in s['EDITS']:
            p = r / f
            t = p.read_text()
            if t.count(old) != 1:
                return f'edit matches {t.count(old)} times in {f}: {old[:80]!r}'
            p.write_text(t.replace(old, new))
        diff = sh('git diff', r).stdout
        added = sh(f'git blame -s {s["EDITS"][0][0]}', REPO).stdout.splitlines()
        warn = ''
        # removed lines have to be original ones
        import re
        cur = None
        for line in diff.splitlines():
            m = re.match(r'@@ -(\d+)', line)
            if m:
                cur = int(m.group(1))
                continue
            if cur is None or line.startswith('\\'):
                continue
            if line.startswith('-'):
                if not added[cur - 1].startswith('^'):
                    warn = f'  NOTE line {cur} was added by a fix: {line}'
                cur += 1
            elif not line.startswith('+'):
                cur += 1
        d = wt / 'demo'
        d.mkdir()
        (d / 'demo.sh').write_text(DEMO_SH)
        (d / 'demo.py').write_text(s['DEMO'])
        helpers = [h for h in ('dm', 'vgrec') if f'import {h}' in s['DEMO']]
        for h in helpers:
            shutil.copy(VERIF / 'vt' / f'{h}.py', d)
        a = sh(['bash', str(d / 'demo.sh')], REPO)
        b = sh(['bash', str(d / 'demo.sh')], r)
        if a.returncode != 0:
            return f'demo fails on the unchanged tree: {a.stdout[-800:]}{a.stderr[-1500:]}'
        if b.returncode == 0:
            return 'demo passes with the change'
        env = dict(HOME='/root', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', TZ='UTC',
                   PROJ_NETWORK='OFF', PYTHONPATH=str(r / 'src'))
        t = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300',
                '-o', 'junit_family=xunit2', f'--junitxml={wt}/rep/junit.xml', 'tests'], r, **env)
        out = wt / 'out.json'
        sh([PY, '/opt/vp/results.py', str(out), f'junit:{wt}/rep/junit.xml'], r, **env)
        stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
        passed = set(json.loads(out.read_text()).get('passed', []))
        miss = [x for x in stable if x not in passed]
        if miss:
            return f'{len(miss)} stable tests fail, e.g. {miss[:3]}'
        dst = VERIF / 'seeded' / s['ID']
        if dst.exists():
            shutil.rmtree(dst)
        dst.mkdir(parents=True)
        shutil.copy(d / 'demo.sh', dst)
        shutil.copy(d / 'demo.py', dst)
        for h in helpers:
            shutil.copy(d / f'{h}.py', dst)
        (dst / 'patch.diff').write_text(diff)
        (dst / 'meta.json').write_text(json.dumps(
            {'property': s['PROP'], 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']},
            indent=1) + '\n')
        return f'kept ({(b.stdout + b.stderr).strip().splitlines()[-1][:150]}){warn}'
    finally:
        shutil.rmtree(wt, ignore_errors=True)


if __name__ == '__main__':
    for p in sys.argv[1:]:
        spec = runpy.run_path(p)
        for one in spec.get('SEEDS') or [spec]:
            print(one['ID'], '->', main(one), flush=True)
