#!/usr/bin/env python3
"""development tool: make /verif/seeded/<id> from a mutant. usage: mkseed.py MUTANT 'needs' 'what it breaks' DEMOARGS|-f DEMODIR [-n]"""
import sys, os, subprocess, shutil, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(V + '/tools/mutrun.py').read().rsplit('\nmain()', 1)[0]
ns = {'__name__': 'x', '__file__': V + '/tools/mutrun.py'}
exec(compile(src, 'mutrun', 'exec'), ns)
spec = {}
exec(open(V + '/tools/mutants.py').read(), spec)
mid, needs, what, args = sys.argv[1:5]
m = next(x for x in spec['M'] if x[0] == mid)
d = '/tmp/mut/seed-%s' % mid
ns['mkcopy'](d)
er = ns['apply'](d, m[2])
assert not er, er
out = os.path.join(V, 'seeded', mid)
os.makedirs(out, exist_ok=True)
df = subprocess.run('git diff --no-index --no-color a/src b/src', shell=True, capture_output=True, text=True, cwd='/tmp/mut') if False else None
# diff against HEAD
tmp = '/tmp/mut/wt-%s' % mid
subprocess.run(['git', '-C', '/repo', 'worktree', 'add', '-f', '--detach', tmp, 'HEAD'], check=True, capture_output=True)
try:
    for f, _, _ in m[2]:
        shutil.copy2(os.path.join(d, f), os.path.join(tmp, f))
    p = subprocess.run(['git', '-C', tmp, 'diff', '--no-color'], check=True, capture_output=True, text=True).stdout
finally:
    subprocess.run(['git', '-C', '/repo', 'worktree', 'remove', '--force', tmp], check=True)
open(out + '/patch.diff', 'w').write(p)
if not os.path.exists(out + '/demo.sh') or args != '-':
    if args.startswith('-f '):
        for x in os.listdir(args[3:]):
            shutil.copy2(os.path.join(args[3:], x), out)
    else:
        shutil.copy2(V + "/tools/%s/main.rs" % os.environ.get("DEMO", "demo"), out + '/main.rs')
        s = open(V + '/tools/%s/run.sh' % ('demo3' if os.environ.get('DEMO') == 'demo3' else 'demo')).read()
        runs = ' && '.join('timeout 240 "$d/target/release/demo" ' + a.strip() for a in args.split(','))
        s = s.replace('timeout 240 "$d/target/release/demo" ARGS', runs)
        open(out + '/demo.sh', 'w').write(s)
json.dump({'property': m[1], 'needs': needs, 'what_it_breaks': what}, open(out + '/meta.json', 'w'), indent=1)
t = ns['tests'](d, 9)
b = subprocess.run(['bash', out + '/demo.sh'], cwd='/repo', capture_output=True, text=True)
w = subprocess.run(['bash', out + '/demo.sh'], cwd=d, capture_output=True, text=True)
print(mid, 'tests', t, 'demo base', b.returncode, b.stdout[-200:] + b.stderr[-200:] if b.returncode else '', 'demo mutant', w.returncode, w.stdout[-250:] + w.stderr[-300:])
good = t[0] == 'pass' and b.returncode == 0 and w.returncode != 0
shutil.rmtree(d)
if not good:
    print('REJECTED', mid)
    shutil.rmtree(out)
