"""mkseed.py SPEC.json: write seeded/<id>/patch.diff and meta.json from {id, property, needs, what_it_breaks, edits: [[file, old, new]...]}.
The demonstration demo.sh (and its files) are written by hand."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for s in json.load(open(sys.argv[1])):
    d = os.path.join(V, 'seeded', s['id'])
    os.makedirs(d, exist_ok=True)
    t = '/tmp/mkseed_tree'
    subprocess.check_call('rm -rf %s; mkdir %s; git -C /repo archive HEAD | tar x -C %s; cd %s; git init -q; git add -A; git -c user.name=x -c user.email=x commit -qm x' % (t, t, t, t), shell=True)
    for f, old, new in s['edits']:
        p = os.path.join(t, f)
        src = open(p).read()
        assert src.count(old) == 1, (s['id'], f, src.count(old), old)
        open(p, 'w').write(src.replace(old, new))
    diff = subprocess.check_output('git diff', shell=True, cwd=t).decode()
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    json.dump({k: s[k] for k in ('property', 'needs', 'what_it_breaks')}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    if 'demo' in s:
        if 'pfftshim' in str(s['demo']):
            subprocess.check_call(['cp', os.path.join(V, 'tools', 'pfftshim.py'), d])
        if isinstance(s['demo'], list): s['demo'] = '\n'.join(s['demo'])
        open(os.path.join(d, 'demo.py'), 'w').write(s['demo'])
        with open(os.path.join(d, 'demo.sh'), 'w') as f:
            f.write('#!/bin/bash\n. /opt/vp/lib/env.sh\nD=$(cd "$(dirname "$0")" && pwd)\n%spython "$D/demo.py"\n' % s.get('run', ''))
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    subprocess.check_call('rm -rf %s' % t, shell=True)
