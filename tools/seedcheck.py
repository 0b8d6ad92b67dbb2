"""seedcheck.py [-c] [-p] [id...]: confirm every planted bug in a scratch copy of /repo: it applies, builds, passes the stable tests,
its demonstration passes without it and fails with it (-c: skip that), and which checks report it (-p: only that of its property)."""
import sys, os, json, subprocess, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
only = '-c' in args
ids = [a for a in args if a[0] != '-'] or sorted(os.listdir(V + '/seeded'))
props = sorted({f.split('.')[0] for f in [c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']]})
stable = json.load(open('/opt/vp/BASELINE.json'))['stable']

def one(sid):
    d = tempfile.mkdtemp(prefix='seed_')
    try:
        subprocess.check_call(['cp', '-a', '/repo', d + '/repo'])
        r = d + '/repo'
        S = V + '/seeded/' + sid
        meta = json.load(open(S + '/meta.json'))
        out = []
        dd = d + '/demo'
        shutil.copytree(S, dd, ignore=shutil.ignore_patterns('*.diff', '*.patch', 'meta.json'))
        if not only:
            x = subprocess.run(['bash', dd + '/demo.sh'], cwd=r, capture_output=True, text=True, timeout=300)
            if x.returncode: out.append('DEMO FAILS UNPATCHED %s' % (x.stdout + x.stderr)[-300:])
        subprocess.check_call(['git', '-C', r, 'apply', S + '/patch.diff'])
        if not only:
            x = subprocess.run(['bash', dd + '/demo.sh'], cwd=r, capture_output=True, text=True, timeout=300)
            if x.returncode == 0: out.append('DEMO PASSES PATCHED')
            elif x.returncode == 3: out.append('DEMO DOES NOT COMPILE')
            b = subprocess.run('export CC=gcc CXX=g++; cmake -S . -B ../b -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_POLICY_VERSION_MINIMUM=3.5 -DCMAKE_CXX_FLAGS=-Wno-error -Wno-dev >/dev/null && ninja -C ../b', shell=True, cwd=r, capture_output=True, text=True)
            if b.returncode: out.append('BUILD FAILS ' + b.stdout[-300:])
            else:
                for t in stable:
                    x = subprocess.run(['ctest', '--test-dir', d + '/b/test/' + t.split('::')[0], '--timeout', '120'], capture_output=True, text=True)
                    if x.returncode: out.append('TEST FAILS ' + t)
        caught = []
        for p in ([meta['property']] if '-p' in args else props):
            x = subprocess.run([sys.executable, V + '/check.py', p], cwd=V, env=dict(os.environ, LPA_REPO=r, LPA_EVIDENCE=d), capture_output=True, text=True)
            if x.returncode == 1 and 'VIOLATION property=' + p in x.stdout: caught.append(p)
            elif x.returncode: out.append('%s exit %d' % (p, x.returncode))
        return sid, meta['property'], caught, out
    finally:
        shutil.rmtree(d)

with ThreadPoolExecutor(6) as ex:
    for sid, p, caught, out in ex.map(one, ids):
        print('%-28s %s %s caught by %s %s' % (sid, p, 'CAUGHT' if p in caught else 'missed', ','.join(caught), '; '.join(out)), flush=True)
