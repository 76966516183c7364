#!/usr/bin/env python3
"""development tool: which demonstration modes see a mutant? usage: trydemo.py MUTANT[,..] [COUNT] [modes] [kinds]"""
import sys, os, subprocess, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {'__name__': 'x', '__file__': V + '/tools/mutrun.py'}
exec(compile(open(V + '/tools/mutrun.py').read().rsplit('\nmain()', 1)[0], 'mutrun', 'exec'), ns)
spec = {}
exec(open(V + '/tools/mutants.py').read(), spec)
cnt = sys.argv[2] if len(sys.argv) > 2 else '800'
modes = sys.argv[3].split(',') if len(sys.argv) > 3 else 'order adj marks keep front front-l linear segs log ccw flags rotations local region output area'.split()
kinds = sys.argv[4].split(',') if len(sys.argv) > 4 else 'plain hole steiner spiky spiky-steiner ties near'.split()
for mid in sys.argv[1].split(','):
    d = '/tmp/mut/try/repo'
    ns['mkcopy'](d)
    subprocess.run('find %s/src -name "*.rs" | xargs touch' % d, shell=True)
    if mid != 'base':
        er = ns['apply'](d, next(x for x in spec['M'] if x[0] == mid)[2])
        assert not er, er
    c = '/tmp/mut/try/demo'
    os.makedirs(c + '/src', exist_ok=True)
    shutil.copy2(V + '/tools/demo/main.rs', c + '/src/main.rs')
    open(c + '/Cargo.toml', 'w').write('[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[dependencies]\npoly2tri-rs = { path = "%s" }\n[profile.release]\ndebug-assertions = false\noverflow-checks = true\n' % d)
    r = subprocess.run(['cargo', 'build', '--offline', '--release', '-q'], cwd=c, env=dict(os.environ, CARGO_NET_OFFLINE='true'), capture_output=True, text=True)
    if r.returncode:
        print(mid, 'no build', r.stderr[-300:]); continue
    jobs = [(m, k) for m in modes for k in kinds]
    ps = []
    import concurrent.futures as cf
    def run(j):
        try:
            q = subprocess.run([c + '/target/release/demo', j[0], cnt, j[1]], capture_output=True, text=True, timeout=40)
            return j, q.returncode, q.stdout
        except subprocess.TimeoutExpired:
            return j, 'hang', ''
    with cf.ThreadPoolExecutor(8) as ex:
        seen = [x for x in ex.map(run, jobs) if x[1] != 0]
    print(mid, len(seen), 'of', len(jobs))
    for j, rc, o in seen[:12]:
        print('    ', j, rc, o.strip().splitlines()[-1] if o.strip() else '', '|', o.strip().splitlines()[0][:90] if o.strip() else '')
    sys.stdout.flush()
