"""Run a check's seeds several times (other worker counts and hash seeds) and diff the run digests."""
import json, os, subprocess, sys, tempfile
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = sys.argv[1].split(',')
runs = sys.argv[2] if len(sys.argv) > 2 else '200'
bad = 0
for prop in props:
    base = None
    for workers, hs in ((8, '0'), (3, '0'), (5, '17'), (8, 'random')):
        with tempfile.NamedTemporaryFile() as f:
            env = dict(os.environ, VSIM_HASHSEED=hs)
            r = subprocess.run([here + '/run', prop, '--runs', runs, '--workers', str(workers), '--digests', f.name],
                               env=env, capture_output=True, text=True)
            d = json.load(open(f.name))
        if base is None:
            base = d
        diff = [k for k in base if d.get(k) != base[k]]
        print(prop, 'workers', workers, 'hashseed', hs, 'rc', r.returncode, 'runs', len(d), 'different', len(diff), diff[:5])
        bad += len(diff)
sys.exit(1 if bad else 0)
