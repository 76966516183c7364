"""C01: every unsafe operation stays inside the buffer it indexes, and exclusive references are to different elements."""
from common import *
from engine import *
from graph import call_sites, callee_path
from mesh import NoAnchor
from checks_f import le, lt, eqi, impossible, Seq
import models

MAXID = 2 ** 64 - 1
DERIVED_TRAITS = ('TrivialClone', 'StructuralPartialEq')
# unsafe std functions whose obligation the engine sees through on_unchecked
INDEXING = ('get_unchecked', 'get_unchecked_mut')
POINTER = ('add',)
HARMLESS = ('std::fmt::Arguments', 'core::fmt::')
SHRINK = ('pop', 'remove', 'truncate', 'clear', 'drain', 'swap_remove', 'retain', 'retain_mut', 'split_off', 'set_len', 'dedup', 'dedup_by', 'dedup_by_key', 'extract_if', 'append', 'split_first')


class Safety:
    def __init__(self, p):
        self.p = p
        self.PI, self.TI = p.adt('points::PointId'), p.adt('triangles::TriangleId')
        self.PO, self.TS = p.adt('points::Points'), p.adt('triangles::TriangleStore')
        self.AF = p.adt('advancing_front::vec_backed::AdvancingFront') or p.adt('advancing_front::AdvancingFront')
        self.NR, self.NI = p.adt('advancing_front::NodeRef'), p.adt('advancing_front::NodeId')
        self.PB = p.adt('points::PointsBuilder')
        if None in (self.PI, self.TI, self.PO, self.TS, self.AF, self.NR, self.NI):
            raise NoAnchor('stores and identifiers')
        self.fn = {}
        for f in p.fns:
            if f.get('body'):
                self.fn[f['body']['path']] = f
        self.inst = {}
        for i, b in p.bodies.items():
            self.inst.setdefault(b['path'], i)
        self.direct = {}       # path -> [(kind, callee, where)]
        self.callers = {}
        self.callees = {}
        self.inventory()
        self.front = None
        try:
            self.front = Seq(p)
        except NoAnchor:
            pass
        self.runs = {}
        self.seen = set()

    # ------------------------------------------------------------ inventory
    def lib(self):
        done = set()
        for i, b in sorted(self.p.bodies.items(), key=lambda x: int(x[0]) if str(x[0]).isdigit() else 0):
            if b['crate'] != 'poly2tri_rs' or b['path'] in done:
                continue
            done.add(b['path'])
            yield b

    def inventory(self):
        p = self.p
        for b in self.lib():
            for n, cal, t, bl in call_sites(p, b):
                if bl['cl']:
                    continue
                nm = callee_path(cal) or ''
                tgt = p.bodies.get(cal.get('inst')) if cal.get('inst') is not None else None
                if tgt is not None and tgt['crate'] == 'poly2tri_rs':
                    self.callees.setdefault(b['path'], set()).add(tgt['path'])
                    self.callers.setdefault(tgt['path'], []).append((b['path'], where(bl['sp'], b['path'])))
                if cal.get('unsafe'):
                    wh = where(bl['sp'], b['path'])
                    if any(nm.startswith(h) or h in nm for h in HARMLESS):
                        continue
                    kind = 'own' if tgt is not None and tgt['crate'] == 'poly2tri_rs' else 'std'
                    self.direct.setdefault(b['path'], []).append((kind, nm, wh))
            # closures are reached from the body that makes them
            for bl in b['blocks']:
                for s in bl['s']:
                    if s[0] == '=' and s[2][0] == 'agg' and s[2][1] == 'closure':
                        t = p.types[s[2][2]] if isinstance(s[2][2], int) else {}
                        tb = p.bodies.get(t.get('inst')) if isinstance(t, dict) else None
                        if tb:
                            self.callees.setdefault(b['path'], set()).add(tb['path'])
                    if s[0] == '=':
                        for q in places(s):
                            if self.rawderef(b, q):
                                self.direct.setdefault(b['path'], []).append(('raw', 'dereference of a raw pointer', where(s[3] if len(s) > 3 and isinstance(s[3], list) else bl['sp'], b['path'])))

    def rawderef(self, b, q):
        from checks_h import proj_ty
        ty = b['locals'][q[0]]
        for x in q[1]:
            if ty is None:
                return False
            if x[0] == '*' and self.p.types[ty]['k'] == 'ptr':
                # the dereference of a box is written by the compiler
                return not any(st[0] == '=' and st[1] == [q[0], []] and st[2][0] == 'cast' and st[2][1] == 'BoxDerefTransmute' for bl in b['blocks'] for st in bl['s'])
            ty = proj_ty(self.p, ty, x)
        return False

    def reach(self, path):
        out, todo = set(), [path]
        while todo:
            x = todo.pop()
            if x in out:
                continue
            out.add(x)
            todo += list(self.callees.get(x, ()))
            # closures belong to their function
            todo += [y for y in self.inst if y.startswith(x + '::{closure') and self.p.bodies[self.inst[y]]['crate'] == 'poly2tri_rs']
        return out

    # ------------------------------------------------------------ who can call
    def strip(self, t):
        p = self.p
        while p.types[t]['k'] == 'ref':
            t = p.types[t]['elem']
        return t

    def callable(self, path):
        """a client of the crate can call this function without unsafe"""
        f = self.fn.get(path)
        if f is None or f.get('unsafe') or not (f.get('exported') or f.get('reachable')):
            return False
        if '{closure' in path:
            return False
        if f.get('exported'):
            return True
        ins = f.get('inputs') or []
        if f.get('implself') is None or not ins:
            return False
        p, me = self.p, ins[0]
        own = self.strip(me)
        if str(f['implself']).split('<')[0] != p.types[own].get('path'):
            return False          # an associated function of a type that cannot be named
        if p.types[me]['k'] == 'ref' and p.types[me].get('mut') and own in (self.TS, self.AF, self.PB):
            return False          # these are only shown through shared references and cannot be copied
        if p.types[me]['k'] != 'ref' and own in (self.TS, self.AF, self.PB):
            return False
        return True

    def lt(self, facts, a, b):
        """a < b, every symbol being unsigned"""
        if lt(facts, a, b):
            return True
        m, k = lin_parts(lin_add(a, b, -1))
        return below(facts, m, k)

    # ------------------------------------------------------------ types of terms
    def tyof(self, b, t):
        """type of a term over the parameters of body b, references looked through"""
        p = self.p
        if t[0] == 's':
            nm = str(t[1])
            if nm.startswith('a') and nm[1:].isdigit() and int(nm[1:]) < b['argc']:
                return self.look(b['locals'][int(nm[1:]) + 1])
            return None
        if t[0] != 't':
            return None
        if t[1] == 'fld':
            u = self.tyof(b, t[2])
            if u is None:
                return None
            try:
                return self.look(p.fields(u, t[3])[t[4]])
            except Exception:
                return None
        if t[1] == 'deref':
            return self.tyof(b, t[2])
        if t[1] == 'elem':
            u = self.tyof(b, t[2])
            if u is None:
                return None
            d = p.types[u]
            if d.get('elem') is not None:
                return self.look(d['elem'])
            if d['k'] == 'adt' and d['path'] == 'std::vec::Vec':
                return self.look([a for a in d.get('args') or [] if isinstance(a, int)][0])
        return None

    def look(self, t):
        p = self.p
        while p.types[t]['k'] in ('ref', 'ptr'):
            t = p.types[t]['elem']
        return t

    def ident(self, b, t):
        """(identifier type, term of the identifier) when the index is the number inside an identifier"""
        x = t
        while x[0] == 't' and x[1] in ('cast', 'narrow', 'widen') and len(x) > 2:
            x = x[2]
        n = 0
        while n < 4:
            ty = self.tyof(b, x)
            if ty in (self.PI, self.TI):
                return ty, x
            if x[0] == 't' and x[1] == 'fld' and x[3] == 0:
                x = x[2]
                n += 1
            else:
                return None
        return None

    def root(self, t):
        while t[0] == 't' and t[1] in ('fld', 'deref', 'elem', 'cast', 'narrow', 'len'):
            t = t[2]
        return t

    # ------------------------------------------------------------ one function
    def run(self, path, cached=None):
        """accesses of one function: [(proved, facts state, index, length, where, callee)], outs"""
        p = self.p
        b = p.bodies[self.inst[path]]
        key = (path, cached)
        if key in self.runs:
            return self.runs[key]
        acc = []
        e = Engine(p, max_states=8000, want_panics=False)

        def on(ctx, ref, idx, n):
            st = ctx.st
            idx, n = st.facts.find(idx), st.facts.find(n)
            if impossible(st.facts):
                return
            if n[0] == 't' and n[1] == 'len' and self.front is not None:
                base = n[2]
                if base[0] == 't' and base[1] == 'fld' and self.tyof(b, base[2]) == self.AF:
                    st = st.copy()          # the first and the last node are never removed (C18)
                    st.facts.assume(I(2), n, LT | EQ)
            good = self.lt(st.facts, idx, n) and self.nonneg(st.facts, idx)
            inv = self.not_invalid(st.facts, idx)
            good = good or self.below_known(b, st.facts, idx, n)
            acc.append((good, inv, idx, n, ctx.where() if hasattr(ctx, 'where') else '', ctx.fr.body['path'], ctx.path.split('::')[-1]))
            if ctx.path.endswith('::add'):
                st.ev('ptradd', ref, idx)
        e.on_unchecked = on
        args, mem = e.sym_args(b, ['a%d' % i for i in range(b['argc'])])
        facts = Facts()
        self.prepare(e, b, args, mem, facts, cached)
        facts.log = ()
        outs = e.run(b, args, mem, facts)
        self.seen |= e.fnseen
        self.runs[key] = (e, b, args, acc, outs)
        return self.runs[key]

    def prepare(self, e, b, args, mem, facts, cached):
        """what the type's own invariants say about the parameters"""
        p = self.p
        fr = None
        for i, a in enumerate(args):
            t = self.look(b['locals'][i + 1])
            nm = S('a%d' % i)
            if t == self.AF and self.front is not None and self.front.ci is not None and cached is not None:
                self.assume_front(e, mem, facts, a, nm, cached)
            if t == self.NR and self.nrf() is not None:
                ix, fi = self.nrf()
                term = T('fld', nm, 0, ix)
                front = T('fld', nm, 0, fi)
                # the node was read from the front it names, which cannot have changed since
                n1 = T('len', T('fld', T('deref', front), 0, self.front.vi)) if self.front else None
                fronts = [S('a%d' % j) for j in range(b['argc']) if self.look(b['locals'][j + 1]) == self.AF]
                for base in [T('fld', fr_, 0, self.front.vi) for fr_ in fronts] if self.front else []:
                    if not self.callable(b['path']):
                        facts.assume(term, T('len', base), LT)
                if n1 is not None:
                    facts.assume(term, n1, LT)
                facts.assume(I(0), term, LT | EQ)

    def nrf(self):
        ix = [i for i, t in enumerate(self.p.fields(self.NR)) if self.p.types[t]['s'] == 'usize']
        fi = [i for i, t in enumerate(self.p.fields(self.NR)) if self.look(t) == self.AF]
        if len(ix) == 1 and len(fi) == 1:
            return ix[0], fi[0]
        return None

    def assume_front(self, e, mem, facts, a, nm, cached):
        s = self.front
        vec = ('VB', T('fld', nm, 0, s.vi))
        base = T('fld', nm, 0, s.vi)
        mem[vec] = ('V', base, ())
        fs = []
        for i, t in enumerate(self.p.fields(self.AF)):
            if i == s.vi:
                fs.append(('v', vec))
            elif i == s.ci:
                if cached:
                    ix = S('cache_ix')
                    facts.assume(ix, T('len', base), LT)
                    facts.assume(I(0), ix, LT | EQ)
                    fs.append(enum(1, s.build(s.ct, {'pos': S('cache_pos'), 'ix': ix})))
                else:
                    fs.append(enum(0))
            else:
                fs.append(T('fld', nm, 0, i))
        if a[0] == 'r':
            mem[a[1]] = ('a', 0, tuple(fs))

    def below_known(self, b, facts, idx, n):
        """not above an identifier the same store recorded"""
        base = n[2] if n[0] == 't' and n[1] == 'len' else n
        cand = set()
        for a, z in list(facts.rel):
            cand |= {a, z}
        for t in cand:
            if t != idx and t[0] == 't' and self.root(t) == self.root(base):
                i = self.ident(b, t)
                if i is not None and i[0] == self.PI and (facts.mask(idx, t) & GT == 0 or self.lt(facts, idx, lin_add(t, I(1)))):
                    return True
        return False

    def nonneg(self, facts, t):
        # an unsigned value read from somewhere is not negative; a difference has to be shown
        m, k = lin_parts(t)
        if k >= 0 and all(v > 0 for v in m.values()):
            return True
        f2 = facts.copy() if hasattr(facts, 'copy') else facts
        return le(facts, I(0), t) or le_pos(facts, t)

    def not_invalid(self, facts, idx):
        for c in (I(MAXID), I(-1)):
            if not facts.mask(idx, c) & EQ:
                return True
        return False


def below(facts, m, k):
    """m + k < 0 with every symbol unsigned"""
    from checks_f import linear, refuted
    cons = linear(facts) + [({x: -w for x, w in m.items()}, -k)]
    syms = set()
    for d, _ in cons:
        syms |= set(d)
    return refuted(cons + [({x: -1}, 0) for x in syms])


def le_pos(facts, t):
    """0 <= t, with every symbol taken as unsigned"""
    from checks_f import linear, refuted
    m, k = lin_parts(t)
    cons = linear(facts) + [(dict(m), k + 1)]
    syms = set()
    for d, _ in cons:
        syms |= set(d)
    return refuted(cons + [({s: -1}, 0) for s in syms])


def places(s):
    r = s[2]
    out = [s[1]]
    if r[0] in ('ref', 'rawptr', 'addr'):
        out += [x for x in r if isinstance(x, list) and len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list)]
    if r[0] in ('discr', 'len'):
        out.append(r[1])

    def ops(x):
        if isinstance(x, list):
            if len(x) == 2 and x[0] in ('c', 'm', 'copy', 'move') and isinstance(x[1], list) and len(x[1]) == 2:
                out.append(x[1])
            else:
                for y in x:
                    ops(y)
    ops(r)
    return [q for q in out if isinstance(q, list) and len(q) == 2 and isinstance(q[0], int) and isinstance(q[1], list)]


# ------------------------------------------------------------------------ accesses
def short(path):
    return path.split('::{closure')[0].split('::')[-1] + ('::{closure}' if '{closure' in path else '')


def judge(c, s, path, label, e, b, acc, visited=()):
    """what is known of every unchecked access of one run"""
    p = s.p
    client = s.callable(path)
    done = set()
    name = 'unchecked accesses stay inside their buffer: %s' % label
    ok = True
    for good, inv, idx, n, wh, fn, nm in acc:
        k = (good, inv, idx, n)
        if k in done:
            continue
        done.add(k)
        c.count('accesses_judged')
        if good:
            continue
        what = '%s[%s] of length %s (%s)' % (short(fn), show(idx)[:80], show(n)[:60], nm)
        idn = s.ident(b, idx)
        if n[0] == 'i' or n[0] != 't':
            ok = False
            c.und(name, wh, 'length not known: ' + what)
            continue
        if idn is not None:
            same = s.root(idx) == s.root(n[2] if n[0] == 't' and n[1] == 'len' else n)
            if idn[0] == s.PI:
                if same:
                    continue          # an identifier the same run recorded: the minting rule
                if client:
                    ok = False
                    c.bad(name, wh, 'an identifier the caller may have from elsewhere: ' + what, key='id:' + short(path))
                continue
            if same and inv:
                continue
            if client and not same:
                ok = False
                c.bad(name, wh, 'an identifier the caller may have from elsewhere: ' + what, key='id:' + short(path))
                continue
            if inv:
                continue
            ok = False
            c.und(name, wh, 'the identifier may be the invalid one: ' + what)
            continue
        free = params(s, b, idx)
        if not client and free and '{closure' not in path:
            # an index handed in: whoever calls this has to know
            ok &= callers(c, s, path, label, visited, wh, what)
            continue
        if '{closure' in path and free and not client:
            if enumerated(s, path):
                continue
            ok = False
            c.und(name, wh, 'index handed to a closure: ' + what)
            continue
        ok = False
        c.bad(name, wh, 'not below the length on some path: ' + what, key='idx:' + short(path))
    if ok:
        c.ok(name)
    return ok


def params(s, b, t, out=None):
    """is some part of the index a parameter that holds a number (and not part of a store)?"""
    out = set() if out is None else out
    m, k = lin_parts(t)
    for x in m:
        r = s.root(x)
        if r[0] == 's' and str(r[1]).startswith('a') and str(r[1])[1:].isdigit() and int(str(r[1])[1:]) < b['argc']:
            ty = s.tyof(b, r)
            if ty not in (s.PO, s.TS, s.AF) and not s.holder(ty):
                out.add(r)
    return out


def callers(c, s, path, label, visited, wh, what):
    name = 'unchecked accesses stay inside their buffer: %s' % label
    if len(visited) > 3 or path in visited:
        c.und(name, wh, 'callers too deep: ' + what)
        return False
    cs = sorted({x for x, _ in s.callers.get(path, [])})
    ok = True
    for g in cs:
        try:
            for cached in s.modes(g):
                e, b, args, acc, outs = s.run(g, cached)
                ok &= judge(c, s, g, '%s from %s' % (label.split(' from ')[0], short(g)), e, b, [a for a in acc if a[5] == path or not a[0]], visited + (path,))
        except Undecided as u:
            c.und(name, wh, 'caller %s: %s' % (short(g), u))
            ok = False
    return ok


def enumerated(s, path):
    """the closure gets its index from counting the elements of a list"""
    parent = path.rsplit('::{closure', 1)[0]
    b = s.p.bodies.get(s.inst.get(parent))
    if b is None:
        return False
    names = [(callee_path(cal) or '').split('::')[-1] for n, cal, t, bl in call_sites(s.p, b) if not bl['cl']]
    return 'enumerate' in names and not set(names) & {'chain', 'cycle', 'repeat', 'flat_map', 'flatten'}


def _holder(self, ty):
    """a type that owns or borrows one of the stores"""
    if ty is None:
        return False
    p = self.p
    seen, todo = set(), [ty]
    while todo:
        t = self.look(todo.pop())
        if t in seen:
            continue
        seen.add(t)
        if t in (self.PO, self.TS, self.AF):
            return True
        d = p.types[t]
        if d['k'] == 'adt' and d.get('crate') == 'poly2tri_rs' and d.get('adt') == 'struct':
            todo += list(p.fields(t))
        if d['k'] == 'tuple':
            todo += list(p.fields(t))
    return False


def _modes(self, path):
    b = self.p.bodies[self.inst[path]]
    if self.front is not None and any(self.look(b['locals'][i + 1]) == self.AF for i in range(b['argc'])):
        return (0, 1) if self.front.ci is not None else (0,)
    return (None,)


Safety.holder = _holder
Safety.modes = _modes


def accesses(c, s):
    """every unsafe operation of the library belongs to an analysed function"""
    p = s.p
    for path in sorted(s.direct):
        ops = s.direct[path]
        c.count('unsafe_operations', len(ops))
        wh = ops[0][2]
        std = [o for o in ops if o[0] == 'std']
        raw = [o for o in ops if o[0] == 'raw']
        for kind, nm, w in std:
            last = nm.split('::')[-1]
            if last not in INDEXING + POINTER:
                c.und('unsafe operation %s' % last, w, nm)
        if raw and not [o for o in std if o[1].split('::')[-1] in POINTER]:
            c.und('raw pointers come from an analysed place', raw[0][2], path)
        if not std and not raw:
            continue
        for cached in s.modes(path):
            lab = short(path) + {0: ', nothing remembered', 1: ', with a remembered access', None: ''}[cached]
            with c.guard('unchecked accesses stay inside their buffer: %s' % lab, wh):
                e, b, args, acc, outs = s.run(path, cached)
                c.count('functions_run')
                if not acc:
                    c.und('unchecked accesses stay inside their buffer: %s' % lab, wh, 'no access met')
                judge(c, s, path, lab, e, b, acc)
    # functions a client can call that lead to one
    for path in sorted(s.fn):
        if not s.callable(path) or any(o[0] != 'own' for o in s.direct.get(path, ())):
            continue
        hit = s.reach(path) & {x for x in s.direct if any(o[0] != 'raw' for o in s.direct[x])}
        if not hit:
            continue
        f = s.fn[path]
        b = p.bodies[s.inst[path]]
        free = [t for t in f['inputs'] if carries(s, t)]
        name = 'identifiers of the caller are checked: %s' % short(path)
        if not free:
            c.ok(name, '', 'takes no identifier or number')
            continue
        for cached in s.modes(path):
            with c.guard(name, where(f['span'], path)):
                e, b, args, acc, outs = s.run(path, cached)
                c.count('functions_run')
                judge(c, s, path, 'called by a client: ' + short(path), e, b, acc)


def carries(s, t):
    """a value of this type may hold an identifier or a number of the caller's choosing"""
    p = s.p
    seen, todo = set(), [t]
    while todo:
        t = s.look(todo.pop())
        if t in seen or t in (s.PO, s.TS, s.AF, s.PB):
            continue
        seen.add(t)
        d = p.types[t]
        if t in (s.PI, s.TI, s.NI, s.NR) or d['s'] in ('usize', 'u32', 'u64'):
            return True
        if d['k'] in ('adt', 'tuple') and not s.holder(t):
            try:
                todo += list(p.fields(t))
            except Exception:
                pass
            todo += [a for a in d.get('args') or [] if isinstance(a, int)]
    return False


# ------------------------------------------------------------------------ the front's own invariants
def front_post(c, s):
    """remembered accesses and node references name an existing node"""
    p, fr = s.p, s.front
    if fr is None:
        c.und('front store', '', 'not found')
        return
    nrf = s.nrf()
    for path in sorted(s.fn):
        f = s.fn[path]
        b = f['body']
        pos = [i for i in range(b['argc']) if p.types[b['locals'][i + 1]]['k'] == 'ref' and s.look(b['locals'][i + 1]) == s.AF]
        mk = nodeish(s, f.get('output')) if f.get('output') is not None else False
        if '{closure' in path or not pos or not ('advancing_front' in path):
            continue
        mut = p.types[b['locals'][pos[0] + 1]].get('mut')
        if not mut and not mk:
            continue
        for cached in s.modes(path):
            lab = short(path) + {0: ', nothing remembered', 1: ', with a remembered access', None: ''}[cached]
            wh = where(f['span'], path)
            with c.guard('the front stays consistent: %s' % lab, wh):
                e, b, args, acc, outs = s.run(path, cached)
                c.count('functions_run')
                for o in outs:
                    if impossible(o.facts):
                        continue
                    obj, pj = e.as_ref(o, args[pos[0]])
                    v = e.read(o, obj, pj)
                    vec = unref1(o, e, e.proj_get(o, v, ('f', 0, fr.vi, None)))
                    n = vlen(e, o, vec)
                    if mut and fr.ci is not None:
                        cv = unref1(o, e, e.proj_get(o, v, ('f', 0, fr.ci, None)))
                        if cv[0] == 'a' and cv[1] == 1:
                            ix = o.facts.find(leaf(e, o, cv[2][0], fr.cpath[1]))
                            if s.lt(o.facts, ix, n) and s.nonneg(o.facts, ix):
                                c.ok('a remembered access names an existing node', wh)
                            elif ix[0] in ('s', 't', 'i', 'lin') and not params(s, b, ix):
                                c.bad('a remembered access names an existing node', wh, '%s: index %s, length %s' % (lab, show(ix)[:80], show(n)[:80]), key='cache:' + short(path))
                            else:
                                c.und('a remembered access names an existing node', wh, '%s: index %s' % (lab, show(ix)[:80]))
                        elif cv[0] == 'a' and cv[1] == 0:
                            c.ok('a remembered access names an existing node', wh)
                        else:
                            c.und('a remembered access names an existing node', wh, '%s: %s' % (lab, cv[0]))
                    if mk and nrf:
                        r = unref1(o, e, o.ret)
                        if r[0] == 'a' and s.look(f['output']) != s.NR:
                            if r[1] == 0:
                                continue
                            r = r[2][0] if r[2] else r
                        if r[0] != 'a' or len(r[2]) != len(p.fields(s.NR)):
                            continue
                        ix = o.facts.find(r[2][nrf[0]])
                        if s.lt(o.facts, ix, n) and s.nonneg(o.facts, ix):
                            c.ok('a node reference names an existing node', wh)
                        elif params(s, b, ix) and not s.callable(path):
                            continue
                        else:
                            c.bad('a node reference names an existing node', wh, '%s: index %s, length %s' % (lab, show(ix)[:80], show(n)[:80]), key='node:' + short(path))
    # nobody else writes the front's fields
    from checks_h import proj_ty
    for b in s.lib():
        if b['path'] in s.seen or 'advancing_front' in b['path']:
            continue
        for bl in b['blocks']:
            for st in bl['s']:
                if st[0] == '=' and through_field(p, b, st[1], s.AF):
                    c.und('the front is only changed by its own functions', where(bl['sp'], b['path']), b['path'])


def through_field(p, b, place, ty):
    from checks_h import proj_ty
    t = b['locals'][place[0]]
    for x in place[1]:
        if t is None:
            return False
        if x[0] == 'f' and t == ty:
            return True
        t = proj_ty(p, t, x)
    return False


def unref1(st, e, v):
    from frontmodel import unref
    return unref(st, e, v)


def vlen(e, o, v):
    c = e.load_obj(o, e.vec_obj(o, v))
    return o.facts.find(base_len(c) if is_term(c) else vec_len(c))


def leaf(e, st, v, path):
    for i in path:
        v = unref1(st, e, v)
        v = e.proj_get(st, v, ('f', 0, i, None))
    return unref1(st, e, v)


def nodeish(s, t):
    p = s.p
    if t == s.NR:
        return True
    d = p.types[t]
    return d['k'] == 'adt' and d['path'] == 'std::option::Option' and p.fields(t, 1)[0] == s.NR


# ------------------------------------------------------------------------ identifiers
def minting(c, s, ID, label, lists):
    """every identifier made names an element of its store by the time the making function returns"""
    p = s.p
    mk = {}
    for b in s.lib():
        for bl in b['blocks']:
            if bl['cl']:
                continue
            for st in bl['s']:
                if st[0] == '=' and st[2][0] == 'agg' and st[2][1] == 'adt' and st[2][2] == ID:
                    op = st[2][4][0] if st[2][4] else None
                    if op and op[0] == 'const':
                        continue
                    mk[b['path']] = where(st[3] if len(st) > 3 and isinstance(st[3], list) else bl['sp'], b['path'])
    todo, done = sorted(mk), set()
    name = '%s identifiers name stored elements' % label
    while todo:
        path = todo.pop()
        if path in done:
            continue
        done.add(path)
        if derived(s, path):
            continue
        wh = mk.get(path, '')
        with c.guard('%s: made in %s' % (name, short(path)), wh):
            made, ends, b = mint_run(s, path, ID)
            c.count('identifiers_made', len(made))
            up = False
            for v in made:
                pr = [x for x in lin_parts(v)[0] if s.root(x)[0] == 's' and is_number(s, b, x)]
                if '{closure' in path and pr:
                    m, k = lin_parts(v)
                    if enumerated(s, path) and len(m) == 1 and list(m.values()) == [1]:
                        c.expect(k <= 0, name, wh, '%s makes %s, counting the list' % (short(path), show(v)), key='mint:' + short(path))
                    else:
                        c.und(name, wh, '%s makes %s' % (short(path), show(v)[:80]))
                    continue
                if pr and not closure_free(s, b, v):
                    up = True
                    continue
                for o, e, lens in ends:
                    if impossible(o.facts):
                        continue
                    fv = o.facts.find(v)
                    if any(s.lt(o.facts, fv, n) for n in lens):
                        c.ok(name, wh)
                    elif not lens:
                        c.und(name, wh, '%s makes %s, no list seen' % (short(path), show(v)[:80]))
                    else:
                        c.bad(name, wh, '%s makes %s, the list is %s long then' % (short(path), show(fv)[:60], ' / '.join(show(n)[:60] for n in lens)), key='mint:' + short(path))
            if up:
                f = s.fn.get(path)
                if s.callable(path):
                    if ID == s.PI:
                        c.bad(name, wh, '%s makes a point identifier of any number for the caller' % short(path), key='mint:' + short(path))
                    else:
                        c.ok('%s: only checked accesses take what %s makes for a client' % (name, short(path)))
                todo += sorted({g for g, _ in s.callers.get(path, [])})
                for g, w in s.callers.get(path, []):
                    mk.setdefault(g, w)


def derived(s, path):
    return path.startswith('<') and any(t in path for t in ('as std::clone::Clone>', 'as std::cmp::', 'as std::hash::', 'as std::fmt::'))


def is_number(s, b, x):
    t = s.tyof(b, x)
    return t is not None and s.p.types[t]['s'] in ('usize', 'u32', 'u64', 'u16', 'u8', 'isize', 'i32')


def closure_free(s, b, v):
    """no parameter that is a plain number is part of it"""
    for x in lin_parts(v)[0]:
        r = s.root(x)
        if r[0] == 's' and is_number(s, b, x) and not s.holder(s.tyof(b, r)):
            return False
    return True


def mint_run(s, path, ID):
    p = s.p
    b = p.bodies[s.inst[path]]
    e = Engine(p, max_states=8000)
    made = []

    def on(st, fr, v):
        if '{closure' in fr.body['path'] and fr.body['path'] != path:
            return
        x = v[2][0]
        y = x
        while y[0] == 't' and y[1] in ('narrow', 'cast'):
            y = y[2]
        y = st.facts.find(y)
        if y not in made and y != I(MAXID):
            made.append(y)
    e.on_agg = {ID: on}
    args, mem = e.sym_args(b, ['a%d' % i for i in range(b['argc'])])
    outs = e.run(b, args, mem, Facts())
    s.seen |= e.fnseen
    ends = []
    for o in outs:
        lens = []
        vals = []
        for i, a in enumerate(args):
            vals.append((b['locals'][i + 1], a))
        vals.append((b['locals'][0], o.ret))
        for t, v in vals:
            for ty, x in inside(s, e, o, t, v):
                lens.append(x)
        ends.append((o, e, [min_of(o, ls) for ls in lens if ls]))
    return made, ends, b


def min_of(o, ls):
    """the shorter of the parallel lists of one store"""
    best = ls[0]
    for x in ls[1:]:
        if lt(o.facts, x, best):
            best = x
    return best


def inside(s, e, o, t, v, depth=0):
    """lengths of the lists of every store inside a value"""
    p = s.p
    if depth > 3:
        return
    ty = s.look(t)
    try:
        v = unref1(o, e, v)
    except Exception:
        return
    if ty in (s.PO, s.TS, s.PB):
        ls = []
        for i, ft in enumerate(p.fields(ty)):
            d = p.types[ft]
            if d['k'] == 'adt' and d['path'] == 'std::vec::Vec':
                el = [a for a in d.get('args') or [] if isinstance(a, int)][0]
                if el == s.PI:
                    continue
                vec = unref1(o, e, e.proj_get(o, v, ('f', 0, i, None)))
                ls.append(vlen(e, o, vec))
        yield ty, ls
        return
    d = p.types[ty]
    if d['k'] in ('tuple',) or d['k'] == 'adt' and d.get('adt') == 'struct' and d.get('crate') == 'poly2tri_rs':
        for i, ft in enumerate(p.fields(ty)):
            if s.holder(ft) or s.look(ft) == s.PB:
                yield from inside(s, e, o, ft, e.proj_get(o, v, ('f', 0, i, None)), depth + 1)


# ------------------------------------------------------------------------ stores only grow
def grows(c, s):
    from checks_e import is_mut, vec_elem
    p = s.p
    n = 0
    for b in s.lib():
        if derived(s, b['path']):
            continue
        for k, cal, t, bl in call_sites(p, b):
            if bl['cl']:
                continue
            nm = (callee_path(cal) or '').split('::')[-1]
            path = callee_path(cal) or ''
            swap = path.startswith('std::mem::') and nm in ('take', 'replace', 'swap')
            if nm not in SHRINK and not swap or not t[2]:
                continue
            if cal.get('inst') in p.bodies and p.bodies[cal['inst']]['crate'] == 'poly2tri_rs':
                continue
            for op in t[2][:2 if nm == 'swap' else 1]:
                if op[0] not in ('copy', 'move'):
                    continue
                n += 1
                own = store_place(s, b, op[1])
                if own:
                    c.bad('elements stay in their store', where(bl['sp'], b['path']), '%s on a list of %s' % (nm, own), key='shrink:%s:%s' % (short(b['path']), nm))
        for bl in b['blocks']:
            for st in bl['s']:
                if st[0] == '=' and st[1][1]:
                    own = whole(s, b, st[1])
                    if own:
                        c.bad('elements stay in their store', where(bl['sp'], b['path']), 'a list of %s is replaced' % own, key='replace:%s' % short(b['path']))
    c.count('shrinking_calls_looked_at', n)
    c.ok('elements stay in their store')


def whole(s, b, place):
    """the place is a whole list of a store that others may hold identifiers of, behind a reference"""
    from checks_h import proj_ty, place_ty
    p = s.p
    t = b['locals'][place[0]]
    star = False
    last = None
    for x in place[1]:
        if t is None:
            return None
        if x[0] == '*':
            star = True
        last = p.ty_s(t) if x[0] == 'f' and t in (s.PO, s.TS) else None
        t = proj_ty(p, t, x)
    if not star or t is None:
        return None
    if last and p.types[t].get('path') == 'std::vec::Vec':
        return last
    if t in (s.PO, s.TS):
        return p.ty_s(t)
    return None


def store_place(s, b, place, depth=0):
    """the store whose list this temporary is a reference to"""
    p = s.p
    if depth > 4:
        return None
    if place[1]:
        return through_store(s, b, place)
    for bl in b['blocks']:
        for st in bl['s']:
            if st[0] == '=' and st[1][0] == place[0] and not st[1][1]:
                r = st[2]
                if r[0] == 'ref' and r[1]:
                    q = through_store(s, b, r[2])
                    if q:
                        return q
                    if r[2][1] == [['*']]:
                        return store_place(s, b, [r[2][0], []], depth + 1)
                if r[0] == 'use' and r[1][0] in ('copy', 'move'):
                    return store_place(s, b, r[1][1], depth + 1)
        t = bl['t']
        if t[0] == 'call' and t[3] and t[3][0] == place[0] and not t[3][1]:
            nm = (callee_path(t[1]) or '').split('::')[-1]
            if nm in ('deref_mut', 'as_mut', 'borrow_mut', 'as_mut_slice') and t[2] and t[2][0][0] in ('copy', 'move'):
                return store_place(s, b, t[2][0][1], depth + 1)
    return None


def through_store(s, b, place):
    from checks_h import proj_ty
    p = s.p
    t = b['locals'][place[0]]
    star = False
    for x in place[1]:
        if t is None:
            return None
        if x[0] == '*':
            star = True
        if x[0] == 'f' and t in (s.PO, s.TS):
            u = proj_ty(p, t, x)
            if u is not None and p.types[u].get('path') == 'std::vec::Vec':
                return p.ty_s(t) if star else None
        t = proj_ty(p, t, x)
    return None


# ------------------------------------------------------------------------ exclusive references
def exclusive(c, s):
    """references handed out together are to different elements"""
    p = s.p
    for path in sorted(s.direct):
        if not any(o[1].split('::')[-1] in POINTER for o in s.direct[path]):
            continue
        wh = s.direct[path][0][2]
        name = 'exclusive references are to different elements: %s' % short(path)
        with c.guard(name, wh):
            e, b, args, acc, outs = s.run(path)
            unknown = set()
            for o in outs:
                if impossible(o.facts):
                    continue
                ev = [x for x in o.events if x[0] == 'ptradd']
                for i, x in enumerate(ev):
                    for y in ev[:i]:
                        if x[1] == y[1] and o.facts.mask(x[2], y[2]) & EQ:
                            unknown.add((y[2], x[2]))
            c.count('functions_run')
            if not unknown:
                c.ok(name, wh)
                continue
            ar = {tuple(sorted(map(repr, u))) for u in unknown}
            n = len([x for x in outs[0].events if x[0] == 'ptradd'] if outs else ())
            if n <= 2 and len({x for u in unknown for x in u}) <= 2:
                c.bad(name, wh, 'nothing compares %s before both are handed out' % ' and '.join(show(x) for x in sorted(next(iter(unknown)), key=repr)), key='alias:' + short(path))
                continue
            callers_distinct(c, s, path, name, wh)


def callers_distinct(c, s, path, name, wh):
    """the ids the rotation hands over are those of six different places"""
    import itertools
    import checks_b
    from mesh import Mesh, find_fn
    p = s.p
    TI, PI = 'triangles::TriangleId', 'points::PointId'
    f = find_fn(p, 'rotate_triangle_pair', ['&mut sweeper::Sweeper', TI, PI, TI, PI])
    other = {g for g, _ in s.callers.get(path, [])} - {f['path']}
    seen = False
    for i in range(3):
        for j in range(3):
            for pres in ((1, 1, 1, 1), (1, 0, 1, 0), (0, 1, 0, 1)):
                m = Mesh(p)
                nb = {k: ('n%d' % k if pres[k - 1] else None) for k in (1, 2, 3, 4)}
                tris = {'t': checks_b.rotn(('P', 'C', 'W'), ('ot', nb[2], nb[1]), i), 'ot': checks_b.rotn(('O', 'W', 'C'), ('t', nb[4], nb[3]), j)}
                rev = {1: ('C', 'P'), 2: ('P', 'W'), 3: ('W', 'O'), 4: ('O', 'C')}
                inn = {1: 't', 2: 't', 3: 'ot', 4: 'ot'}
                for k in (1, 2, 3, 4):
                    if pres[k - 1]:
                        a_, b_ = rev[k]
                        tris['n%d' % k] = checks_b.rotn(('X%d' % k, a_, b_), (inn[k], 'y%d' % k, 'z%d' % k), 0)
                mem, facts = m.setup(tris)
                sw = checks_b.sweeper_val(m, p, m.vec, mem)
                e = Engine(p, max_states=100000)
                groups = []

                def on(ctx, ref, idx, n):
                    if ctx.path.endswith('::add') and ctx.fr.body['path'] == path:
                        ctx.st.ev('ptradd', ctx.fr.fid, idx)
                e.on_unchecked = on
                outs = e.run(f['body'], [sw, m.id('t'), m.pt('P'), m.id('ot'), m.pt('O')], dict(mem), facts)
                s.seen |= e.fnseen
                for o in outs:
                    g = {}
                    for ev in o.events:
                        if ev[0] == 'ptradd':
                            g.setdefault(ev[1], []).append(ev[2])
                    for ids in g.values():
                        seen = True
                        c.count('handed_out_together')
                        twice = [(show(x), show(y)) for x, y in itertools.combinations(ids, 2) if o.facts.find(x) == o.facts.find(y)]
                        if twice:
                            c.bad(name, wh, 'element %s is handed out twice (neighbors %s)' % (twice[0][0], pres), key='alias:' + short(path))
                        else:
                            c.ok(name, wh)
    if not seen:
        c.und(name, wh, 'not called by the rotation')
    for g in other:
        if g.split('::{closure')[0] not in {x.split('::{closure')[0] for x in s.seen}:
            c.und(name, wh, 'also called from %s' % g)


# ------------------------------------------------------------------------ unsafe impls
def impls(c, s):
    p = s.p
    n = 0
    for it in p.items if hasattr(p, 'items') else []:
        k = it.get('kind', '')
        if isinstance(k, str) and k.startswith('Impl'):
            n += 1
            if it.get('unsafe') and not it.get('derived'):
                c.und('no hand-written unsafe impl', where(it.get('span'), it.get('path', '')), str(it.get('trait')))
    c.count('impls_looked_at', n)
    c.ok('unsafe impls are only derived ones')


def builder_lists(c, s):
    """points and segments of a builder stay parallel"""
    from checks_i import Api, builder_fns, run_step, shape_of, sizes, distinct, after
    p = s.p
    a = Api(p)
    for f, own, rest in builder_fns(a):
        kinds = shape_of(f, own, rest, a)
        wh = where(f['span'], f['path'])
        name = 'points and segments stay parallel: %s' % short(f['path'])
        if None in kinds:
            c.und(name, wh, 'shape')
            continue
        with c.guard(name, wh):
            for n in list(sizes(kinds))[:2]:
                e, outs, names = run_step(a, f, own, rest, n, distinct(n))
                for o in outs:
                    if impossible(o.facts):
                        continue
                    bv = after(a, e, o, f, own)
                    ls = []
                    for what in ('points', 'edges'):
                        v = a.sub(e, o, bv, a.slot(a.B, what))
                        v = unref1(o, e, v)
                        ls.append(vlen(e, o, v))
                    c.count('builder_steps')
                    yield_len(c, a, o, name, wh, ls, f)


def yield_len(c, a, o, name, wh, ls, f):
    base = {}
    d = lin_add(ls[0], ls[1], -1)
    m, k = lin_parts(d)
    # before the call both are equally long
    left = {}
    for x, w in m.items():
        if x[0] == 't' and x[1] == 'len':
            base[x] = w
        else:
            left[x] = w
    if not left and sum(base.values()) == 0 and k == 0:
        c.ok(name, wh)
    elif not left and sum(base.values()) == 0:
        c.bad(name, wh, '%s points, %s segments' % (show(ls[0])[:60], show(ls[1])[:60]), key='parallel:' + short(f['path']))
    else:
        c.und(name, wh, '%s points, %s segments' % (show(ls[0])[:60], show(ls[1])[:60]))


def c01():
    c = Check('C01', 'Every function that performs an unsafe operation is interpreted with arbitrary arguments and arbitrary comparison outcomes; each unchecked index has to be below the length of the list it indexes '
              'by what was checked on the path, or be an identifier recorded in the same run (every place making an identifier has to store the element it names, and stores only grow). No function a client can call '
              'may pass an identifier of the client to an unchecked access. References handed out together have to be to different elements.',
              ['std is sound', 'the six triangles around a rotated edge are different (geometry)', 'fewer than 2^32 points'])
    p = prog()
    s = None
    with c.guard('stores and identifiers'):
        s = Safety(p)
    if s is None:
        return c.finish()
    accesses(c, s)
    front_post(c, s)
    minting(c, s, s.PI, 'point', None)
    minting(c, s, s.TI, 'triangle', None)
    grows(c, s)
    exclusive(c, s)
    with c.guard('builder lists'):
        builder_lists(c, s)
    impls(c, s)
    c.count('functions_entered', len(s.seen))
    return c.finish()


CHECKS = {'C01': c01}
