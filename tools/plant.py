"""Verify planted bugs: plant.py ID... [--no-tests] [--check [PROP,...]] [-j N]

Each is tried in a private mount namespace in which scratch copies of /repo
and /verif are mounted over the originals, so several can run at once and
nothing real is touched.
"""
import argparse, json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

ap = argparse.ArgumentParser()
ap.add_argument('ids', nargs='*')
ap.add_argument('--no-tests', action='store_true')
ap.add_argument('--no-demo', action='store_true')
ap.add_argument('--check', nargs='?', const='', default=None)
ap.add_argument('-j', type=int, default=2)
A = ap.parse_args()
SEED = '/verif/seeded'
ids = A.ids or sorted(os.listdir(SEED))
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])

def sh(cmd, timeout=1000, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       timeout=timeout, **kw)
    return p.returncode, p.stdout

def one(bug):
    src = os.path.join(SEED, bug)
    meta = json.load(open(src + '/meta.json'))
    tmp = tempfile.mkdtemp(prefix='plant_%s_' % bug)
    log = []
    try:
        shutil.copytree('/repo', tmp + '/repo', symlinks=True)
        shutil.copytree('/verif', tmp + '/verif', symlinks=True,
                        ignore=shutil.ignore_patterns('seeded', 'replays', 'evidence', '__pycache__'))
        os.makedirs(tmp + '/verif/evidence')
        demo = tmp + '/demo'
        shutil.copytree(src, demo, ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
        shutil.copy(src + '/patch.diff', tmp + '/patch.diff')
        def ns(script, timeout=1000):
            pre = ('mount --bind %s/repo /repo; mount --bind %s/verif /verif; cd /repo; ' % (tmp, tmp))
            return sh(['unshare', '-Urm', 'bash', '-c', pre + script], timeout)
        if not A.no_demo:
            rc, out = ns('bash %s/demo.sh' % demo, 320)
            log.append('clean demo rc=%d' % rc + ('' if rc == 0 else '  <-- BAD\n' + out[-1500:]))
        rc, out = ns('git apply %s/patch.diff' % tmp)
        if rc:
            log.append('PATCH FAILS\n' + out); return bug, log
        files = [l[6:].strip() for l in open(src + '/patch.diff') if l.startswith('+++ b/')]
        if any('test' in f.split('/') for f in files): log.append('BAD files %s' % files)
        # original lines only
        bl = []
        for f in files:
            blame = sh(['git', '-C', '/repo', 'blame', '-s', f])[1].splitlines()
            own = {i + 1 for i, l in enumerate(blame) if not l.startswith('^')}
            ln = 0
            for l in sh(['git', '-C', tmp + '/repo', 'diff', '-U0', f])[1].splitlines():
                if l.startswith('@@'):
                    a = l.split()[1][1:].split(',')
                    ln = int(a[0])
                elif l.startswith('-') and not l.startswith('---'):
                    if ln in own: bl.append('%s:%d' % (f, ln))
                    ln += 1
        if bl: log.append('touches own lines: %s' % ' '.join(bl))
        if not A.no_demo:
            t = time.time()
            rc, out = ns('bash %s/demo.sh' % demo, 320)
            log.append('patched demo rc=%d (%.0fs)' % (rc, time.time() - t) + ('' if rc else '  <-- BAD')
                       + '\n    ' + '\n    '.join(out.strip().splitlines()[-3:]))
        if not A.no_tests:
            rc, out = ns('bash /opt/vp/build.sh && bash /opt/vp/test.sh %s/o.json' % tmp)
            try:
                res = json.load(open(tmp + '/o.json'))
                ok = set(res.get('passed', res))
                miss = sorted(stable - ok)
                log.append('tests: %d stable missing %s' % (len(miss), miss[:5]))
            except Exception as e:
                log.append('tests: %r %s' % (e, out[-500:]))
        if A.check is not None:
            for p in (A.check.split(',') if A.check else [meta['property']]):
                t = time.time()
                rc, out = ns('cd /verif && VERIF_SEED=1 VERIF_TIER=quick ./run %s' % p, 1000)
                v = [l for l in out.splitlines() if l.startswith('VIOLATION')]
                log.append('check %s rc=%d %.0fs %d violations' % (p, rc, time.time() - t, len(v)) +
                           ('' if rc == 1 else '   <-- MISSED'))
                if v:
                    i = out.find('VIOLATION')
                    log.append('    ' + out[i:i + 400].replace('\n', '\n    '))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return bug, log

with ThreadPoolExecutor(A.j) as ex:
    for bug, log in ex.map(one, ids):
        print('==', bug)
        for l in log: print('  ', l)
        sys.stdout.flush()
