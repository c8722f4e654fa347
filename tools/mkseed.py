"""Plant a bug: python tools/mkseed.py SPEC.py [ID...]   (scratch work in /tmp/m/seed)

SPEC.py defines BUGS = [dict(id, property, edits=[(file, old, new), ...], needs, breaks, demo=<python text>,
py='venv'|'vt', stubs=[names under mc/stubs to lie beside the demo])]. For each bug: patch a copy of /repo, run the
stable tests there, run the demonstration on both trees and the property's check on the patched copy.
"""
import json, os, runpy, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/m/seed'
DEMO_SH = '''#!/bin/bash
# exit 0 on the unchanged tree, 1 with the patch. Run with cwd = the repository.
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
[ -d /opt/mplconfig ] && export MPLCONFIGDIR=/opt/mplconfig
export PYTHONPATH="$PWD:$here/stubs"
exec %s -W ignore "$here/demo.py"
'''


def sh(cmd, cwd=None, env=None, t=900):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, 'timeout'


def main():
    spec = runpy.run_path(sys.argv[1])
    only = sys.argv[2:]
    for b in spec['BUGS']:
        if only and b['id'] not in only:
            continue
        d = os.path.join(V, 'seeded', b['id'])
        shutil.rmtree(W, ignore_errors=True)
        subprocess.check_call(['cp', '-a', '/repo', W])
        subprocess.check_call(['git', 'checkout', '-q', '--', '.'], cwd=W)
        ok = True
        for f, old, new in b['edits']:
            p = os.path.join(W, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(b['id'], 'edit matches', s.count(old), 'times:', old[:60])
                ok = False
                break
            open(p, 'w').write(s.replace(old, new))
        if not ok:
            continue
        diff = subprocess.run(['git', 'diff'], cwd=W, stdout=subprocess.PIPE, text=True).stdout
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO_SH % ('python3-vt' if b.get('py') == 'vt' else '/opt/venv/bin/python'))
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        open(os.path.join(d, 'demo.py'), 'w').write(b['demo'])
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        shutil.rmtree(os.path.join(d, 'stubs'), ignore_errors=True)
        if b.get('stubs'):
            os.makedirs(os.path.join(d, 'stubs', 'mc'))
            open(os.path.join(d, 'stubs', 'mc', '__init__.py'), 'w').close()
            open(os.path.join(d, 'stubs', 'mc', 'core.py'), 'w').write('class StubLimit(Exception):\n    pass\n')
        for s in b.get('stubs', []):
            src = os.path.join(V, 'mc', 'stubs', s)
            dst = os.path.join(d, 'stubs', s)
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            if os.path.isdir(src):
                shutil.copytree(src, dst, ignore=shutil.ignore_patterns('__pycache__'))
            else:
                shutil.copy(src, dst)
        # the changed lines must be lines of the original repository
        orig = True
        for f, old, new in b['edits']:
            base = subprocess.run(['git', 'show', '271dc8e:' + f], cwd=W, stdout=subprocess.PIPE, text=True).stdout
            removed = [l[1:] for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
            orig = all(l in base.splitlines() for l in removed)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg',
                   MPLCONFIGDIR='/opt/mplconfig', PYTHONPATH=W + ':' + W + '/nonasymptotic')
        rc, out = sh(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300',
                      '--ignore=tests/test_utils.py', '--ignore=tests/test_exps.py', 'tests'], cwd=W, env=env)
        tests = out.strip().splitlines()[-1] if rc == 0 else 'TESTS FAIL ' + out[-300:]
        demo = os.path.join(d, 'demo.sh')
        a, oa = sh(['bash', demo], cwd='/repo', t=300)
        c, oc = sh(['bash', demo], cwd=W, t=300)
        env = dict(os.environ, VERIF_REPO=W, VERIF_TIER='quick', VERIF_SEED='1')
        k, ok_ = sh(['sh', os.path.join(V, 'check.sh'), b['property']], env=env)
        msg = [l for l in ok_.splitlines() if l.startswith('  [') or l.startswith('ERROR')][:1]
        good = rc == 0 and a == 0 and c not in (0, 124) and orig
        print('%s %s: %s | tests: %s | orig lines %s | demo clean %d patched %d (%s) | check %s: exit %d %s' % (
            'OK ' if good else 'BAD', b['id'], b['property'], tests, orig, a, c,
            (oc if a == 0 else oa).strip().splitlines()[-1:], b['property'], k, msg), flush=True)
        shutil.rmtree(W, ignore_errors=True)


main()
