"""Apply every planted bug to a copy of the repository and run the check of its property: python3 tools/detect.py [BUG...]"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/verif-detect'
P = os.path.join(V, 'tools', 'detected.json')
det = json.load(open(P)) if os.path.exists(P) else {}
for b in sys.argv[1:] or sorted(os.listdir(os.path.join(V, 'seeded'))):
    d = os.path.join(V, 'seeded', b)
    prop = json.load(open(os.path.join(d, 'meta.json')))['property']
    shutil.rmtree(W, ignore_errors=True)
    subprocess.check_call(['cp', '-a', '/repo', W])
    if subprocess.call(['git', 'apply', os.path.join(d, 'patch.diff')], cwd=W):
        print(b, 'DOES NOT APPLY')
        continue
    r = subprocess.run(['sh', os.path.join(V, 'check.sh'), prop, 'quick'], env=dict(os.environ, VERIF_REPO=W), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    hit = r.returncode == 1 and 'VIOLATION property=%s' % prop in r.stdout
    det[b] = [prop] if hit else []
    print(b, prop, 'reported' if hit else 'MISSED (%d)' % r.returncode, flush=True)
    json.dump(det, open(P, 'w'), indent=0, sort_keys=True)
    shutil.rmtree(W, ignore_errors=True)
