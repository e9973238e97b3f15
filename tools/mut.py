"""mut.py PID FILE OLD NEW: run a check on a copy of /repo's sources with a textual change (experiments only)"""
import os, subprocess, sys, tempfile, shutil
pid, f, old, new = sys.argv[1:5]
d = tempfile.mkdtemp(prefix='mut')
try:
    subprocess.check_call('git -C /repo archive HEAD | tar x -C %s' % d, shell=True)
    p = os.path.join(d, f)
    s = open(p).read()
    old, new = old.encode().decode('unicode_escape'), new.encode().decode('unicode_escape')
    assert s.count(old) >= 1, 'not found'
    open(p, 'w').write(s.replace(old, new, 1 if len(sys.argv) < 6 else -1))
    r = subprocess.run(['python3-vt', os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'check.py'), pid, 'quick'], env=dict(os.environ, VERIF_REPO=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    o = r.stdout.decode().splitlines()
    print('rc', r.returncode)
    for l in o[:1] + o[1:5] + o[-1:]: print('   ', l[:300])
finally:
    shutil.rmtree(d)
