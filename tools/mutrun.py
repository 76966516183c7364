#!/usr/bin/env python3
"""development tool: apply textual mutants or patches to a scratch copy of /repo, run its tests, demos and the checks.
usage: mutrun.py SPEC.py [-t] [-c C01,C02] [-o ids]     SPEC defines M = [(id, prop, [(file, old, new), ...]), ...]"""
import sys, os, subprocess, shutil, json, tempfile, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = os.environ.get('MUTROOT', '/tmp/mut')


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def mkcopy(d):
    if os.path.exists(d):
        shutil.rmtree(d)
    shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('target', '.git', 'latest_test_data'))


def apply(d, edits):
    for f, old, new in edits:
        p = os.path.join(d, f)
        s = open(p).read()
        n = s.count(old)
        if n == 0:
            return 'pattern not found: %s' % old
        if isinstance(new, tuple):      # (k, text): k-th occurrence
            k, new = new
            parts = s.split(old)
            s = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
        else:
            if n > 1:
                return 'pattern ambiguous (%d): %s' % (n, old)
            s = s.replace(old, new)
        open(p, 'w').write(s)
    return None


STABLE = [x.split('::', 1)[1] if x.startswith('poly2tri_rs:') else x for x in json.load(open('/opt/vp/BASELINE.json'))['stable']]


def tests(d, slot):
    env = dict(os.environ, CARGO_TARGET_DIR=ROOT + '/target%d' % slot, CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_INCREMENTAL='0')
    r = subprocess.run(['timeout', '-k', '2', '75', 'cargo', 'test', '--offline', '--workspace', '--no-fail-fast'], cwd=d, env=env, capture_output=True, text=True, stdin=subprocess.DEVNULL)
    if r.returncode in (124, 137):
        return 'timeout', []
    out = r.stdout + r.stderr
    if 'could not compile' in out:
        return 'nocompile', [l for l in out.splitlines() if l.startswith('error')][:3]
    failed = [l.split()[1] for l in out.splitlines() if l.startswith('test ') and 'FAILED' in l]
    return ('fail' if r.returncode else 'pass'), failed


def checks(d, ids):
    env = dict(os.environ, VERIF_REPO=d, PYTHONDONTWRITEBYTECODE='1')
    ev = tempfile.mkdtemp(prefix='mutev-')
    env['VERIF_EVIDENCE'] = ev
    res = {}
    code = "import sys; sys.path.insert(0,'%s/analysis'); import common; print(common.export())" % V
    r = subprocess.run([sys.executable, '-c', code], env=env, capture_output=True, text=True)
    if r.returncode:
        return {'export': r.stderr[-300:]}
    dump = r.stdout.strip()
    env['VERIF_DUMP'] = dump
    for c in ids:
        try:
            r = subprocess.run([sys.executable, os.path.join(V, 'check.py'), c], env=env, capture_output=True, text=True, timeout=300)
            und = sum(l.startswith('UNDECIDED') for l in r.stdout.splitlines())
            first = next((l.strip()[:200] for l in r.stdout.splitlines() if l.startswith('  ')), '')
            res[c] = (r.returncode, und, first)
        except subprocess.TimeoutExpired:
            res[c] = ('timeout', 0, '')
    shutil.rmtree(os.path.dirname(dump), ignore_errors=True)
    shutil.rmtree(ev, ignore_errors=True)
    return res


def main():
    spec = {}
    exec(open(sys.argv[1]).read(), spec)
    a = sys.argv[2:]
    do_t = '-t' in a
    ids = a[a.index('-c') + 1].split(',') if '-c' in a else None
    only = set(a[a.index('-o') + 1].split(',')) if '-o' in a else None
    if ids == ['all']:
        ids = [c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']]
    os.makedirs(ROOT, exist_ok=True)
    slots = list(range(6))

    def one(m):
        mid, prop, edits = m
        slot = slots.pop()
        d = ROOT + '/m%d/repo' % slot
        try:
            mkcopy(d)
            er = apply(d, edits)
            if er:
                return mid, prop, er, None
            t = tests(d, slot) if do_t else None
            cids = ids if ids is not None else ([prop] if prop else [])
            if ids == ['own']:
                cids = [prop] if prop else []
            return mid, prop, t, checks(d, cids) if cids and not (t and t[0] == 'nocompile') else {}
        finally:
            slots.append(slot)
    ms = [m for m in spec['M'] if only is None or m[0] in only]
    with cf.ThreadPoolExecutor(6) as ex:
        for mid, prop, t, cs in ex.map(one, ms):
            print('%-28s %-4s %s' % (mid, prop, t if t is None or isinstance(t, str) else '%s %s' % (t[0], ','.join(x[-40:] for x in t[1]))))
            for c, r in sorted((cs or {}).items()):
                if isinstance(r, str):
                    print('      ', c, r)
                elif r[0] != 0 or '-v' in a or c == prop:
                    print('       %s rc=%s und=%s %s' % (c, r[0], r[1], r[2]))
            sys.stdout.flush()


main()
