"""setup_cmd: parse every specification once (the checks build nothing else and do not depend on this)."""
import glob, os, subprocess, sys
d = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'specs')
bad = 0
for f in sorted(glob.glob(os.path.join(d, '*.tla'))):
    r = subprocess.run(['tla-sany', os.path.basename(f)], cwd=d, capture_output=True, text=True)
    ok = r.returncode == 0 and '*** Errors' not in r.stdout and 'Fatal errors' not in r.stdout
    print(os.path.basename(f), 'ok' if ok else r.stdout[-2000:])
    bad += not ok
sys.exit(1 if bad else 0)
