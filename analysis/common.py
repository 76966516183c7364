"""Shared runner: export MIR from /repo, collect obligations, report, write evidence."""
import json, os, sys, subprocess, tempfile, shutil, time, traceback, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')


def sysroot():
    return subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], capture_output=True, text=True, check=True).stdout.strip()


def ensure_driver():
    drv, mod = os.path.join(BUILD, 'driver'), os.path.join(BUILD, 'libvmodels.rlib')
    src = [os.path.join(VERIF, 'driver', f) for f in ('driver.rs', 'vmodels.rs')]
    h = hashlib.sha256(b''.join(open(f, 'rb').read() for f in src)).hexdigest()
    stamp = os.path.join(BUILD, 'stamp')
    if os.path.exists(drv) and os.path.exists(mod) and os.path.exists(stamp) and open(stamp).read() == h:
        return drv, mod
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='verif-drv-')
    try:
        subprocess.run(['rustc', '+nightly', '--edition', '2021', '-O', src[0], '-o', os.path.join(tmp, 'driver')], check=True, cwd=tmp, capture_output=True)
        subprocess.run(['rustc', '+nightly', '--edition', '2021', '--crate-type', 'rlib', '-Zalways-encode-mir', '-Zmir-opt-level=0', src[1],
                        '-o', os.path.join(tmp, 'libvmodels.rlib')], check=True, cwd=tmp, capture_output=True)
        for a, b in (('driver', drv), ('libvmodels.rlib', mod)):
            shutil.copy2(os.path.join(tmp, a), b + '.new')
            os.replace(b + '.new', b)
        open(stamp, 'w').write(h)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return drv, mod


class BuildError(Exception):
    pass


def export(features=None, crate='poly2tri_rs', manifest_dir=None, extra=()):
    """type-check /repo's current tree with the exporting compiler; returns path of the dump"""
    drv, mod = ensure_driver()
    scratch = tempfile.mkdtemp(prefix='verif-mir-')
    out = os.path.join(scratch, 'out.json')
    env = dict(os.environ)
    for k in ('RUSTFLAGS', 'RUSTC_WRAPPER', 'CARGO_BUILD_RUSTFLAGS'):
        env.pop(k, None)
    env.update(LD_LIBRARY_PATH=sysroot() + '/lib', VERIF_OUT=out, VERIF_MODELS=mod, VERIF_CRATE=crate,
               CARGO_TARGET_DIR=os.path.join(scratch, 'target'), RUSTC_WORKSPACE_WRAPPER=drv, CARGO_NET_OFFLINE='true')
    cmd = ['cargo', '+nightly', 'check', '--offline', '--lib', '--release'] + (['--features', features] if features else [])
    lock = os.path.join(manifest_dir or REPO, 'Cargo.lock')
    had = os.path.exists(lock)
    r = subprocess.run(cmd, cwd=manifest_dir or REPO, env=env, capture_output=True, text=True)
    if not had and os.path.exists(lock) and manifest_dir is None:
        pass
    shutil.rmtree(os.path.join(scratch, 'target'), ignore_errors=True)
    if r.returncode != 0 or not os.path.exists(out):
        shutil.rmtree(scratch, ignore_errors=True)
        raise BuildError(r.stderr[-3000:])
    return out


_cache = {}


def prog(features=None):
    from engine import Prog
    if features not in _cache:
        pre = os.environ.get('VERIF_DUMP') if features is None else None
        if pre:
            _cache[features] = Prog(pre)
        else:
            p = export(features)
            try:
                _cache[features] = Prog(p)
            finally:
                shutil.rmtree(os.path.dirname(p), ignore_errors=True)
    return _cache[features]


class _Guard:
    """what the analysis cannot follow is recorded as undecided"""

    def __init__(self, c, name, where):
        self.a = (c, name, where)

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        if et is None:
            return False
        if issubclass(et, (BuildError, KeyboardInterrupt, SystemExit, MemoryError)):
            return False
        c, name, wh = self.a
        msg = str(ev)[:300]
        if et.__name__ not in ('Undecided', 'NoAnchor', 'Budget'):
            f = traceback.extract_tb(tb)[-1]
            msg = 'analysis error %s: %s (%s:%s)' % (et.__name__, msg, os.path.basename(f.filename), f.lineno)
            if os.environ.get('VERIF_DEBUG'):
                traceback.print_exception(et, ev, tb)
        c.und(name, wh, msg)
        return True


class Check:
    def __init__(self, pid, rule, assumptions=()):
        self.pid = pid
        self.rule = rule
        self.assumptions = list(assumptions)
        self.obl = []          # (name, status, where, detail)
        self.stats = {}
        self.notes = []
        self.t0 = time.time()
        self.samples = []

    def ok(self, name, where='', detail=''):
        self.obl.append((name, 'holds', where, detail))

    def bad(self, name, where='', detail='', key=None):
        eng = sys.modules.get('engine') or sys.modules.get('analysis.engine')
        if eng is not None and eng.RECENT:
            # what that call does is not known, so the judgement rests on nothing
            return self.und(name, where, 'depends on unmodelled call of %s' % ', '.join(sorted(eng.RECENT))[:200])
        self.obl.append((name, 'violated', where, detail, key or name))

    def und(self, name, where='', detail=''):
        self.obl.append((name, 'undecided', where, detail))

    def expect(self, cond, name, where='', detail='', key=None):
        if cond:
            self.ok(name, where)
        else:
            self.bad(name, where, detail, key)
        return cond

    def guard(self, name, where=''):
        return _Guard(self, name, where)

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def known(self):
        ks = {}
        f = os.path.join(VERIF, 'known_findings.txt')
        if os.path.exists(f):
            for l in open(f):
                l = l.strip()
                if l.startswith('known: property=%s ' % self.pid):
                    rest = l.split(' ', 2)[2]
                    if rest.startswith('key='):
                        k, _, d = rest[4:].partition(' ')
                        ks[k] = d
        return ks

    def finish(self):
        known = self.known()
        tier = os.environ.get('VERIF_TIER', 'quick')
        viol, kf = [], []
        for o in self.obl:
            if o[1] == 'violated':
                (kf if o[4] in known else viol).append(o)
        holds = [o for o in self.obl if o[1] == 'holds']
        und = [o for o in self.obl if o[1] == 'undecided']
        seen = set()
        for o in kf:
            if o[4] in seen:
                continue
            seen.add(o[4])
            print('KNOWN-FINDING: property=%s %s: %s' % (self.pid, o[0], known[o[4]]))
        for o in und[:20]:
            print('UNDECIDED property=%s %s %s: %s' % (self.pid, o[0], o[2], o[3]))
        rule_counts = {}
        for o in self.obl:
            rule_counts.setdefault(o[0].split(' [')[0].split(': ')[0], [0, 0, 0])[('holds', 'violated', 'undecided').index(o[1])] += 1
        ev = {
            'property': self.pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
            'coverage': {
                'explanation': self.rule,
                'rule': self.rule,
                'obligations': len(self.obl),
                'discharged': len(holds),
                'undecided': [dict(obligation=o[0], where=o[2], reason=o[3]) for o in und[:50]],
                'known_findings': sorted(seen),
                'measured': self.stats,
                'per_rule_holds_violated_undecided': rule_counts,
                'samples': [dict(obligation=o[0], where=o[2]) for o in (holds[:6] + holds[len(holds) // 2:len(holds) // 2 + 3])] + self.samples[:10],
            },
            'assumptions': self.assumptions,
            'wall_s': round(time.time() - self.t0, 3),
            'violations': len(viol),
        }
        evd = os.environ.get('VERIF_EVIDENCE') or os.path.join(VERIF, 'evidence')
        os.makedirs(evd, exist_ok=True)
        json.dump(ev, open(os.path.join(evd, self.pid + '.json'), 'w'), indent=1)
        rp = os.path.join(evd, self.pid + '.violation.txt')
        if os.path.exists(rp):
            os.remove(rp)
        if viol:
            with open(rp, 'w') as f:
                f.write('rule: %s\n' % self.rule)
                for o in viol:
                    f.write('%s\n  at %s\n  %s\n' % (o[0], o[2], o[3]))
            for o in viol[:10]:
                print('  %s at %s: %s' % (o[0], o[2], str(o[3])[:600]))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        if not holds and not kf:
            print('NO-ANSWER property=%s: nothing could be decided' % self.pid)
            return 2
        print('OK property=%s obligations=%d discharged=%d undecided=%d known=%d (%.1fs)' % (
            self.pid, len(self.obl), len(holds), len(und), len(kf), time.time() - self.t0))
        return 0


def where(sp, fn=''):
    return '%s:%s%s' % (sp[0], sp[1], ' in ' + fn if fn else '')
