"""C17: the front as a sorted sequence under an abstract total order of positions."""
from common import *
from engine import *
from frontmodel import Front, World, unref
from mesh import Mesh, NoAnchor, find_fn
from checks_c import entry_fields, at, run_unit, fill_fn
import models
from models import seq_ref, seq_len, elem_ref


def linear(facts):
    """the order facts as linear constraints  sum + const <= 0  over integers"""
    out = []

    def add(a, b, c):
        d = lin_add(a, b, -1)
        m, k = lin_parts(d)
        out.append((dict(m), k + c))
    for (a, b), m in facts.rel.items():
        if a[0] == 'fl' or b[0] == 'fl':
            continue
        if m == LT:
            add(a, b, 1)
        elif m == LT | EQ:
            add(a, b, 0)
        elif m == GT:
            add(b, a, 1)
        elif m == GT | EQ:
            add(b, a, 0)
        elif m == EQ:
            add(a, b, 0)
            add(b, a, 0)
    for a, b in facts.uf.items():
        if a[0] != 'fl' and b[0] != 'fl' and (is_term(a) or a[0] == 'i') and (is_term(b) or b[0] == 'i'):
            add(a, b, 0)
            add(b, a, 0)
    return out


def refuted(cons):
    """Fourier-Motzkin elimination: no solution?"""
    todo = list({(tuple(sorted(m.items(), key=repr)), k) for m, k in cons})
    while True:
        nxt, var = [], None
        for m, k in todo:
            if not m:
                if k > 0:
                    return True
                continue
            nxt.append((m, k))
        if not nxt:
            return False
        vs = {}
        for m, k in nxt:
            for v, x in m:
                lo, hi = vs.get(v, (0, 0))
                vs[v] = (lo + (x < 0), hi + (x > 0))
        var = min(vs, key=lambda v: (vs[v][0] * vs[v][1], repr(v)))
        ps = [(dict(m), k) for m, k in nxt if dict(m).get(var, 0) > 0]
        ng = [(dict(m), k) for m, k in nxt if dict(m).get(var, 0) < 0]
        rest = [(m, k) for m, k in nxt if var not in dict(m)]
        new = set(rest)
        for m1, k1 in ps:
            for m2, k2 in ng:
                x, y = m1[var], -m2[var]
                d = {}
                for m, w in ((m1, y), (m2, x)):
                    for v, q in m.items():
                        d[v] = d.get(v, 0) + q * w
                d = {v: q for v, q in d.items() if q}
                new.add((tuple(sorted(d.items(), key=repr)), k1 * y + k2 * x))
        todo = list(new)
        if len(todo) > 2000:
            return False


def le(facts, a, b):
    m, k = lin_parts(lin_add(b, a, -1))
    return refuted(linear(facts) + [(dict(m), k + 1)])


def lt(facts, a, b):
    return le(facts, lin_add(a, I(1)), b)


def eqi(facts, a, b):
    return facts.mask(a, b) == EQ or le(facts, a, b) and le(facts, b, a)


def impossible(facts):
    return refuted(linear(facts))


class Seq:
    """a strictly sorted front of unknown length and the order facts known about it"""

    def __init__(self, p):
        self.p = p
        self.AFT, self.vi, self.el, self.F = entry_fields(p)
        self.PT, self.PI, self.TI = p.adt('shape::Point'), p.adt('points::PointId'), p.adt('triangles::TriangleId')
        self.NI, self.NR = p.adt('advancing_front::NodeId'), p.adt('advancing_front::NodeRef')
        if None in (self.PT, self.PI, self.TI, self.NI, self.NR):
            raise NoAnchor('front types')
        self.base = S('nodes')
        self.vec = ('VB', self.base)
        self.xi, self.yi = p.field_index(self.PT, 'x'), p.field_index(self.PT, 'y')
        kt = set()
        for f in p.fns:
            if f.get('body') and f['path'].startswith('<advancing_front::') and f['path'].endswith('as std::cmp::Ord>::cmp'):
                kt.add(p.deref_ty(f['inputs'][0]))
        self.keytypes = kt
        # remembered access: Option of (position, index) in any nesting
        self.ci, self.cpath = None, None
        for i, t in enumerate(p.fields(self.AFT)):
            d = p.types[t]
            if i != self.vi and d['k'] == 'adt' and d['path'] == 'std::option::Option':
                inner = p.fields(t, 1)[0]
                got = self.walk(inner)
                if self.ci is None and len(got['pos']) == 1 and len(got['ix']) == 1:
                    self.ci, self.ct = i, inner
                    self.cpath = (got['pos'][0], got['ix'][0])
                    continue
            if i != self.vi and d['k'] not in ('tuple',) and d.get('path') != 'std::marker::PhantomData':
                raise NoAnchor('front field %d of type %s' % (i, d['s']))

    def walk(self, t):
        out = {'pos': [], 'ix': []}

        def go(t, path):
            if t == self.PT:
                out['pos'].append(path)
            elif self.p.types[t]['s'] == 'usize':
                out['ix'].append(path)
            elif self.p.types[t]['k'] in ('adt', 'tuple') and self.p.types[t].get('adt') != 'enum':
                for i, x in enumerate(self.p.fields(t)):
                    go(x, path + (i,))
        go(t, ())
        return out

    def build(self, t, leaf):
        """value of type t with its position / index leaves given"""
        if t == self.PT:
            return leaf['pos']
        if self.p.types[t]['s'] == 'usize':
            return leaf['ix']
        return ('a', 0, tuple(self.build(x, leaf) for x in self.p.fields(t)))

    def pos(self, i):
        return at(T('elem', self.base, i), self.F['key'])

    def pid(self, i):
        return self.inner(self.PI, at(T('elem', self.base, i), self.F['pid']))

    def inner(self, ty, t):
        while True:
            fs = self.p.fields(ty) if self.p.types[ty]['k'] in ('adt', 'tuple') else None
            if not fs or len(fs) != 1:
                return t
            t, ty = at(t, (0,)), fs[0]

    # -- a run of one method
    def run(self, f, cached, prep=None):
        p = self.p
        e = Engine(p, max_states=6000)
        self.install(e)
        args, mem = e.sym_args(f['body'], ['a%d' % i for i in range(f['body']['argc'])])
        loc = f['body']['locals']
        facts = Facts()
        for i, a in enumerate(args):
            t = p.types[loc[i + 1]]
            if t['k'] == 'ref' and t['elem'] == self.AFT:
                obj = a[1]
                break
        else:
            raise NoAnchor('front argument of %s' % f['path'])
        mem[self.vec] = ('V', self.base, ())
        n = T('len', self.base)
        fs = []
        for i, t in enumerate(p.fields(self.AFT)):
            if i == self.vi:
                fs.append(('v', self.vec))
            elif i == self.ci:
                if cached:
                    ix = S('cache_ix')
                    facts.assume(ix, n, LT)
                    facts.assume(I(0), ix, LT | EQ)
                    fs.append(enum(1, self.build(self.ct, {'pos': self.pos(ix), 'ix': ix})))
                else:
                    fs.append(enum(0))
            else:
                fs.append(S('front.%d' % i))
        mem[obj] = ('a', 0, tuple(fs))
        if prep:
            prep(args, mem, facts)
        facts.log = ()
        outs = [o for o in e.run(f['body'], args, mem, facts) if not impossible(o.facts)]
        self.obj = obj
        return e, args, outs

    def install(self, e):
        h = e.hooks
        self.e = e
        if hasattr(e, 'force_unroll'):
            pass
        names = {'cmp': 'o', 'partial_cmp': 'p', 'eq': EQ, 'ne': LT | GT, 'lt': LT, 'le': LT | EQ, 'gt': GT, 'ge': GT | EQ}
        for nm, what in names.items():
            tr = 'std::cmp::Ord' if nm == 'cmp' else 'std::cmp::PartialEq' if nm in ('eq', 'ne') else 'std::cmp::PartialOrd'
            hk = (lambda what: lambda ctx: self.compare(ctx, what))(what)
            h['%s::%s' % (tr, nm)] = hk
            for k in self.keytypes:
                h['<%s as %s>::%s' % (self.p.ty_s(k), tr, nm)] = hk
        h['shape::Point::eq'] = lambda ctx: self.compare(ctx, EQ, True)
        h['<shape::Point as std::cmp::PartialEq>::eq'] = lambda ctx: self.compare(ctx, EQ, True)
        h['core::slice::<impl [T]>::binary_search_by_key'] = lambda ctx: self.search(ctx, 'key')
        h['core::slice::<impl [T]>::binary_search_by'] = lambda ctx: self.search(ctx, 'by')
        h['core::slice::<impl [T]>::partition_point'] = lambda ctx: self.search(ctx, 'part')

    def iskey(self, ty):
        for _ in range(3):
            if self.p.types[ty]['k'] == 'ref':
                ty = self.p.types[ty]['elem']
        return ty in self.keytypes or ty == self.PT

    def posterm(self, st, v):
        v = unref(st, self.e, v)
        n = 0
        while v[0] == 'a' and len(v[2]) == 1 and n < 4:
            v = v[2][0]
            n += 1
        if v[0] == 'a' and len(v[2]) == 2:
            x, y = v[2][self.xi], v[2][self.yi]
            if all(q[0] == 't' and q[1] == 'fld' for q in (x, y)) and x[2] == y[2] and (x[4], y[4]) == (self.xi, self.yi):
                return st.facts.find(self.canon(x[2]))
            raise Undecided('position built by hand')
        if is_term(v):
            return st.facts.find(self.canon(v))
        raise Undecided('position value %s' % v[0])

    def canon(self, t):
        # the field of a one-field wrapper around a position is that position; name the innermost
        return t

    def keyterm(self, st, v, ty):
        """position inside a key (of wrapper type or a bare point)"""
        p = self.p
        for _ in range(4):
            if p.types[ty]['k'] == 'ref':
                o, pj = self.e.as_ref(st, v)
                v = self.e.read(st, o, pj)
                ty = p.types[ty]['elem']
        while ty != self.PT:
            fs = p.fields(ty) if p.types[ty]['k'] in ('adt', 'tuple') else None
            if not fs or len(fs) != 1:
                raise Undecided('position of a key')
            v = at(v, (0,))
            ty = fs[0]
        return self.posterm(st, v)

    def compare(self, ctx, what, exact=False):
        e, st = self.e, ctx.st
        if len(ctx.atys) < 2 or not (self.iskey(ctx.atys[0]) and self.iskey(ctx.atys[1])):
            return NotImplemented
        a, b = (self.keyterm(st, ctx.args[i], ctx.atys[i]) for i in (0, 1))
        if what in ('o', 'p'):
            if e.rel(st, a, b, LT):
                r = enum(0)
            elif e.rel(st, a, b, EQ):
                r = enum(1)
            else:
                r = enum(2)
        else:
            r = I(int(e.rel(st, a, b, what)))
        for t in (a, b):
            self.note(st, t)
        return some(r) if what == 'p' else r

    def note(self, st, t):
        pass

    # -- binary search on a sorted slice: what its contract says about the place it returns
    def search(self, ctx, kind):
        e, st = self.e, ctx.st
        key = ('pend', ctx.fr.fid, ctx.fr.bb)
        if key in st.aux:
            return st.aux.pop(key)
        ref = seq_ref(e, st, ctx.args[0], ctx.atys[0])
        n = seq_len(e, st, ref)
        st.nfid += 1
        i = S('bs#%d' % st.nfid)

        def probe(s, idx, want):
            """states in which the element at idx compares as wanted"""
            out = []
            if kind == 'key':
                for s2, val in e.sub_call(s, ctx, ctx.args[2], ctx.atys[2], [elem_ref(e, s, ref, idx)]):
                    kt = self.p.types[ctx.atys[1]]['elem']
                    if not self.iskey(kt):
                        raise Undecided('search by another key')
                    a, b = self.keyterm(s2, val, kt), self.keyterm(s2, ctx.args[1], ctx.atys[1])
                    if s2.facts.assume(a, b, want):
                        out.append(s2)
                return out
            for s2, val in e.sub_call(s, ctx, ctx.args[1], ctx.atys[1], [elem_ref(e, s, ref, idx)]):
                if kind == 'by':
                    if val[0] != 'a':
                        raise Undecided('search by an unknown comparison')
                    if {0: LT, 1: EQ, 2: GT}[val[1]] == want:
                        out.append(s2)
                else:
                    b = e.scal(val)
                    if b[0] != 'i':
                        raise Undecided('search by an unknown predicate')
                    if bool(b[1]) == (want == LT):
                        out.append(s2)
            return out
        outs = []
        if kind != 'part':
            s = st.copy()
            if s.facts.assume(i, n, LT) and s.facts.assume(I(0), i, LT | EQ):
                for s2 in probe(s, i, EQ):
                    s2.aux[key] = enum(0, i)
                    outs.append(s2)
        for lo in (True, False):
            for hi in (True, False):
                s = st.copy()
                if not (s.facts.assume(I(0), i, EQ if lo else LT) and s.facts.assume(i, n, EQ if hi else LT)):
                    continue
                ss = [s]
                if not lo:
                    ss = [y for x in ss for y in probe(x, lin_add(i, I(-1)), LT)]
                if not hi:
                    ss = [y for x in ss for y in probe(x, i, GT)]
                for s2 in ss:
                    s2.aux[key] = s2.facts.find(i) if kind == 'part' else enum(1, i)
                    s2.ev('place', i)
                    outs.append(s2)
        return ('enter', ('states', outs))

    # -- what follows from the facts of an outcome, for a strictly sorted front
    def related(self, st, K):
        """[(index, mask)]: indices whose node is known to compare with K"""
        K = st.facts.find(K)
        out = []
        tag = self.pos(S('?'))
        seen = set()
        terms = set()
        for (a, b) in list(st.facts.rel):
            terms |= {a, b}
        terms |= set(st.facts.uf)
        terms.add(self.pos(S('cache_ix')))
        terms.add(K)
        for t in terms:
            i = self.index_of(t)
            if i is None or i in seen:
                continue
            seen.add(i)
            m = st.facts.mask(self.pos(i), K)
            out.append((i, m))
        return out

    def index_of(self, t):
        """index i when t is the position of node i"""
        for _ in self.F['key']:
            if t[0] == 't' and t[1] == 'fld':
                t = t[2]
            else:
                return None
        if t[0] == 't' and t[1] == 'elem' and t[2] == self.base:
            return t[3]
        return None

    def before(self, st, r, K):
        """every node before place r is below K"""
        if le(st.facts, r, I(0)):
            return True
        return any(m & ~LT == 0 and le(st.facts, lin_add(r, I(-1)), i) or m & ~(LT | EQ) == 0 and lt(st.facts, lin_add(r, I(-1)), i) for i, m in self.related(st, K))

    def after(self, st, r, K):
        """every node from place r on is above K"""
        if le(st.facts, T('len', self.base), r):
            return True
        return any(m & ~GT == 0 and le(st.facts, i, r) or m & ~(GT | EQ) == 0 and lt(st.facts, i, r) for i, m in self.related(st, K))

    def isat(self, st, r, K):
        if st.facts.mask(self.pos(r), K) == EQ:
            return True
        return any(m == EQ and eqi(st.facts, i, r) for i, m in self.related(st, K))

    def absent(self, st, K):
        n = T('len', self.base)
        cand = [I(0), n]
        for i, _ in self.related(st, K):
            cand += [i, lin_add(i, I(1))]
        return any(self.before(st, r, K) and self.after(st, r, K) for r in cand)


def c17():
    c = Check('C17', 'Every operation of the front store is run on a strictly sorted front of arbitrary length under an abstract total order of positions, with and without a remembered access that '
              'names an existing node; the facts known in every outcome have to imply what the operation promises (the node asked for, the place where it would be, the direct neighbor), '
              'that the front stays sorted, and that a remembered access still names its node. Binary search is represented by its contract, with the comparison the code passes.',
              ['the order of positions is total (C09)', 'one point per position', 'a reference to a node is not used after the front changed (borrow checker)'])
    p = prog()
    s = None
    with c.guard('front store'):
        s = Seq(p)
    if s is None:
        return c.finish()
    units = front_units(p, s)
    done = set()
    for f in units:
        nm = f['path'].split('::')[-1]
        with c.guard('%s keeps its promise' % nm, where(f['span'], f['path'])):
            one_op(c, s, f)
            done.add(nm)
    for nm in SPEC:
        if nm not in [f['path'].split('::')[-1] for f in units]:
            c.und('%s keeps its promise' % nm, '', 'no such function')
    with c.guard('first front is sorted'):
        first(c, s)
    with c.guard('node references'):
        accessors(c, s)
    with c.guard('indices are fresh'):
        fresh_index(c, p)
    return c.finish()


def front_units(p, s):
    """methods of the front that are used from outside of it (or are not used by other methods)"""
    from graph import edges
    ms = [f for f in p.fns if f.get('body') and '::AdvancingFront' in f['path'] and not f['path'].endswith('::new') and
          any(p.types[t]['k'] == 'ref' and p.types[t]['elem'] == s.AFT for t in f.get('inputs') or [])]
    g = edges(p)
    ids = {f['id'] for f in ms}
    closures = {i for i, b in p.bodies.items() if '::AdvancingFront' in b['path'] and '{closure' in b['path']}
    out = []
    for f in ms:
        callers = [i for i in g if f['id'] in g[i]]
        inside = [i for i in callers if i in ids or i in closures]
        if f['path'].split('::')[-1] in SPEC or not inside or len(inside) < len(callers):
            out.append(f)
    return out


def arg_of(s, f, args, ty, ref=False):
    loc = f['body']['locals']
    for i, a in enumerate(args):
        t = loc[i + 1]
        if s.p.types[t]['k'] == 'ref':
            t = s.p.types[t]['elem']
            if t == ty:
                return S('a%d' % i)
        elif t == ty:
            return a
    raise NoAnchor('argument of %s' % f['path'])


def fld_of(s, ty, want):
    out = [i for i, t in enumerate(s.p.fields(ty)) if t == want or want == 'usize' and s.p.types[t]['s'] == 'usize']
    if len(out) != 1:
        raise NoAnchor('field of %s' % s.p.types[ty]['s'])
    return out[0]


def node_ref(c, s, st, v, wh, nm):
    """a returned node reference describes one node of the front as it is now; returns its index"""
    p = s.p
    e = s.e
    if v[0] == 'r':
        v = unref(st, e, v)
    if v[0] != 'a':
        raise Undecided('node reference %s' % show(v))
    fs = p.fields(s.NR)
    ix = e.scal(v[2][fld_of(s, s.NR, 'usize')])
    ix = st.facts.find(ix)
    el = T('elem', s.base, ix)
    # contents after the operation: overlay or base
    o = ('E', s.vec, ix)
    cur = st.mem.get(o)
    name = '%s: a node reference shows the node at its index' % nm
    got = v[2][fld_of(s, s.NR, s.PI)]
    fine = True
    for what, ty in (('pid', s.PI), ('key', s.PT)):
        x = v[2][fld_of(s, s.NR, ty)]
        w = at(cur if cur is not None else el, s.F[what])
        fine &= same(s, st, x, w, ty)
    opt = next((i for i, t in enumerate(fs) if p.types[t].get('path') == 'std::option::Option'), None)
    if opt is not None:
        x = v[2][opt]
        t = s.inner(s.TI, at(cur if cur is not None else el, s.F['tri']))
        m = st.facts.mask(t, I(2 ** 64 - 1))
        if x[0] == 'a' and x[1] == 0:
            fine &= m == EQ
        elif x[0] == 'a' and x[1] == 1:
            y = s.inner(s.TI, x[2][0])
            fine &= m & EQ == 0 and st.facts.find(y) == st.facts.find(t)
        else:
            raise Undecided('triangle of a node reference')
    c.expect(fine, name, wh, 'its point or triangle is not that of node %s' % show(ix))
    c.expect(lt(st.facts, ix, T('len', s.base)), '%s: a reported node exists' % nm, wh, 'index %s is not known to be inside the front' % show(ix))
    return ix


def same(s, st, x, w, ty):
    if ty == s.PT:
        a, b = s.posterm(st, x), s.posterm(st, w)
        return a == b
    return st.facts.find(s.inner(ty, x)) == st.facts.find(s.inner(ty, w))


def option(v):
    if v[0] == 'a' and v[1] in (0, 1):
        return None if v[1] == 0 else v[2][0]
    raise Undecided('result %s' % show(v))


def id_at(s, st, j, pid, P):
    """node j is the one the identifier names"""
    if s.isat(st, j, P):
        return True
    if st.facts.mask(s.pid(j), pid) == EQ:
        return True
    for t in {a for k in st.facts.rel for a in k} | set(st.facts.uf):
        # an index known to equal j whose node has the identifier's point
        x = t
        while x[0] == 't' and x[1] == 'fld':
            x = x[2]
        if x[0] == 't' and x[1] == 'elem' and x[2] == s.base and eqi(st.facts, x[3], j) and st.facts.mask(s.pid(x[3]), pid) == EQ:
            return True
    return False


def known_ids(s, st, pid):
    out = []
    for t in {a for k in st.facts.rel for a in k} | set(st.facts.uf):
        x = t
        while x[0] == 't' and x[1] == 'fld':
            x = x[2]
        if x[0] == 't' and x[1] == 'elem' and x[2] == s.base and st.facts.mask(s.pid(x[3]), pid) == EQ and x[3] not in out:
            out.append(x[3])
    return out


# ---- what each operation promises: fn(c, s, st, f, args, wh, nm)
def sp_get(c, s, st, f, args, wh, nm):
    K = arg_of(s, f, args, s.PT)
    r = option(st.ret)
    if r is None:
        c.expect(s.absent(st, K), '%s reports nothing only if there is no node at the position' % nm, wh, 'a node at the position is not excluded')
    else:
        i = node_ref(c, s, st, r, wh, nm)
        c.expect(s.isat(st, i, K), '%s reports the node at the position' % nm, wh, 'node %s is not known to be at the position' % show(i))


def sp_locate(c, s, st, f, args, wh, nm):
    K = arg_of(s, f, args, s.PT)
    r = option(st.ret)
    if r is None:
        c.expect(s.after(st, I(0), K), '%s reports nothing only left of the front' % nm, wh, 'a node at or before the position is not excluded')
    else:
        i = node_ref(c, s, st, r, wh, nm)
        ok = s.isat(st, i, K) or s.before(st, lin_add(i, I(1)), K) and s.after(st, lin_add(i, I(1)), K)
        c.expect(ok, '%s reports the last node not after the position' % nm, wh, 'node %s is not known to be that node' % show(i))


def ident(s, f, args):
    N = arg_of(s, f, args, s.NI)
    return s.inner(s.PI, at(N, (fld_of(s, s.NI, s.PI),))), at(N, (fld_of(s, s.NI, s.PT),))


def sp_by_id(c, s, st, f, args, wh, nm):
    pid, P = ident(s, f, args)
    r = option(st.ret)
    if r is None:
        c.expect(s.absent(st, P), '%s reports nothing only if the node is gone' % nm, wh, 'the node is not known to be gone')
    else:
        i = node_ref(c, s, st, r, wh, nm)
        c.expect(id_at(s, st, i, pid, P), '%s reports the node of the identifier' % nm, wh, 'node %s has neither the point nor the position asked for' % show(i))


def sp_side(d):
    def go(c, s, st, f, args, wh, nm):
        pid, P = ident(s, f, args)
        r = option(st.ret)
        n = T('len', s.base)
        side = 'after' if d > 0 else 'before'
        if r is None:
            end = lin_add(n, I(-1)) if d > 0 else I(0)
            ok = s.before(st, n, P) if d > 0 else s.after(st, I(0), P)
            # the node itself is the last (first)
            cand = known_ids(s, st, pid) + [i for i, m in s.related(st, P) if m == EQ]
            for i in cand:
                ok = ok or (le(st.facts, lin_add(n, I(-1)), i) if d > 0 else le(st.facts, i, I(0)))
            c.expect(ok, '%s reports nothing only at the end of the front' % nm, wh, 'a node %s the position is not excluded' % side)
        else:
            i = node_ref(c, s, st, r, wh, nm)
            j = lin_add(i, I(-d))
            ok = id_at(s, st, j, pid, P)
            if not ok:
                ok = s.before(st, i, P) and s.after(st, i, P) if d > 0 else s.before(st, lin_add(i, I(1)), P) and s.after(st, lin_add(i, I(1)), P)
            c.expect(ok, '%s reports the node directly %s' % (nm, side), wh, 'node %s is not known to be that node' % show(i))
    return go


def sp_next(d):
    def go(c, s, st, f, args, wh, nm):
        N = arg_of(s, f, args, s.NR)
        x = st.facts.find(at(N, (fld_of(s, s.NR, 'usize'),)))
        r = option(st.ret)
        n = T('len', s.base)
        if r is None:
            ok = le(st.facts, lin_add(n, I(-1)), x) if d > 0 else le(st.facts, x, I(0))
            c.expect(ok, '%s reports nothing only at the end of the front' % nm, wh, 'the end of the front is not known')
        else:
            i = node_ref(c, s, st, r, wh, nm)
            c.expect(eqi(st.facts, i, lin_add(x, I(d))), '%s reports the direct neighbor' % nm, wh, 'index %s' % show(i))
    return go


def sp_nth(c, s, st, f, args, wh, nm):
    k = next(a for i, a in enumerate(args) if s.p.ty_s(f['body']['locals'][i + 1]) == 'usize')
    r = option(st.ret)
    if r is None:
        c.expect(le(st.facts, T('len', s.base), k), '%s reports nothing only past the end' % nm, wh, 'index is not known to be past the end')
    else:
        i = node_ref(c, s, st, r, wh, nm)
        c.expect(eqi(st.facts, i, k), '%s reports the node at the index' % nm, wh, 'index %s' % show(i))


def edits(s, st):
    """changes of the node sequence, first to last"""
    v = s.e.read(st, s.obj, ())
    if v[0] != 'a' or v[2][s.vi][0] != 'v':
        raise Undecided('front is replaced')
    t = models.freeze(s.e, st, v[2][s.vi][1])
    out = []
    while t != s.base:
        if t[0] == 't' and t[1] in ('vset', 'rem', 'ins'):
            out.append(t)
            t = t[2]
        elif t[0] == 't' and t[1] == 'vecof' and t[2] is not None and len(t) == 4:
            # push: insertion at the end
            if t[2] != s.base:
                raise Undecided('front becomes %s' % show(t))
            out.append(T('ins', t[2], T('len', s.base), t[3]))
            t = t[2]
        else:
            raise Undecided('front becomes %s' % show(t))
    return out[::-1], v


def sp_update(c, s, st, f, args, wh, nm):
    K, tr = arg_of(s, f, args, s.PT), arg_of(s, f, args, s.TI)
    ed, _ = edits(s, st)
    ok = len(ed) == 1 and ed[0][1] == 'vset' and s.isat(st, ed[0][3], K)
    c.expect(ok, '%s changes the node at the position' % nm, wh, 'changes: %s' % [(x[1], show(x[3])) for x in ed])
    if ok:
        x = ed[0][4]
        old = T('elem', s.base, ed[0][3])
        c.expect(st.facts.find(s.inner(s.TI, at(x, s.F['tri']))) == st.facts.find(s.inner(s.TI, tr)) and same(s, st, at(x, s.F['pid']), at(old, s.F['pid']), s.PI),
                 '%s sets the triangle of that node and nothing else' % nm, wh, 'node becomes %s' % show(x) if is_term(x) else 'other content')


def sp_insert(c, s, st, f, args, wh, nm):
    K, tr, pi = arg_of(s, f, args, s.PT), arg_of(s, f, args, s.TI), arg_of(s, f, args, s.PI)
    ed, _ = edits(s, st)
    if not c.expect(len(ed) == 1 and ed[0][1] in ('vset', 'ins'), '%s adds or replaces one node' % nm, wh, 'changes: %s' % [x[1] for x in ed]):
        return
    x = ed[0][4]
    c.expect(st.facts.find(s.inner(s.TI, at(x, s.F['tri']))) == st.facts.find(s.inner(s.TI, tr)) and st.facts.find(s.inner(s.PI, at(x, s.F['pid']))) == st.facts.find(s.inner(s.PI, pi)) and
             s.posterm(st, at(x, s.F['key'])) == st.facts.find(K), '%s puts the point, its position and its triangle on the front' % nm, wh, 'node has other content')
    if ed[0][1] == 'vset':
        c.expect(s.isat(st, ed[0][3], K), '%s replaces only the node at the position' % nm, wh, 'node %s is replaced' % show(ed[0][3]))


def sp_none(c, s, st, f, args, wh, nm):
    pass


SPEC = {'get_node': sp_get, 'get_node_with_cache': sp_get, 'locate_node': sp_locate, 'get_node_with_id': sp_by_id, 'locate_next_node': sp_side(1), 'locate_prev_node': sp_side(-1),
        'next_node': sp_next(1), 'prev_node': sp_next(-1), 'nth': sp_nth, 'update_triangle': sp_update, 'insert': sp_insert, 'update_and_delete_by_index': sp_none}


def one_op(c, s, f):
    p = s.p
    nm = f['path'].split('::')[-1]
    wh = where(f['span'], f['path'])
    loc = f['body']['locals']
    mut = any(p.types[loc[i + 1]]['k'] == 'ref' and p.types[loc[i + 1]]['elem'] == s.AFT and p.types[loc[i + 1]].get('mut') for i in range(f['body']['argc']))

    def prep(args, mem, facts):
        n = T('len', s.base)
        for i, a in enumerate(args):
            t = p.types[loc[i + 1]]
            if t['k'] == 'ref' and t['elem'] == s.NR:
                x = at(S('a%d' % i), (fld_of(s, s.NR, 'usize'),))
                facts.assume(x, n, LT)
                facts.assume(I(0), x, LT | EQ)
            if nm == 'update_and_delete_by_index' and t['s'] == 'usize':
                facts.assume(a, n, LT)
        if nm == 'update_and_delete_by_index':
            ix = [a for i, a in enumerate(args) if p.types[loc[i + 1]]['s'] == 'usize']
            facts.assume(ix[0], ix[1], LT | GT)
    for cached in ((False, True) if s.ci is not None else (False,)):
        e, args, outs = s.run(f, cached, prep)
        c.count('functions_analysed')
        c.count('abstract_outcomes', len(outs))
        for st in outs:
            if any(x[0] == 'loop' for x in st.events):
                raise Undecided('walks the front in a loop')
            if nm in SPEC:
                SPEC[nm](c, s, st, f, args, wh, nm)
            elif p.ty_s(f['output']).startswith('std::option::Option<advancing_front::NodeRef'):
                r = option(st.ret)
                if r is not None:
                    node_ref(c, s, st, r, wh, nm)
            invariant(c, s, st, wh, nm)


def invariant(c, s, st, wh, nm):
    ed, v = edits(s, st)
    f = st.facts
    for k, t in enumerate(ed):
        if t[1] == 'vset':
            old = T('elem', s.base, t[3]) if t[2] == s.base or all(x[1] == 'vset' for x in ed) else None
            if old is None:
                raise Undecided('node changed after the sequence changed')
            a, b = s.posterm(st, at(t[4], s.F['key'])), f.find(at(old, s.F['key']))
            c.expect(f.mask(a, b) == EQ or s.isat(st, t[3], a), '%s leaves every node at its position' % nm, wh, 'node %s moves' % show(t[3]))
        elif t[1] == 'ins':
            if any(x[1] in ('ins', 'rem') for x in ed[:k]):
                raise Undecided('several changes of the sequence')
            K = s.posterm(st, at(t[4], s.F['key']))
            c.expect(s.before(st, t[3], K) and s.after(st, t[3], K), '%s keeps the front sorted with one node per position' % nm, wh,
                     'inserts at %s without knowing that all nodes before are below and all others above the new position' % show(t[3]))
    if s.ci is None:
        return
    cv = v[2][s.ci]
    if cv[0] != 'a':
        raise Undecided('remembered access %s' % show(cv))
    name = '%s: a remembered access names a node of the front as it is now' % nm
    if cv[1] == 0:
        c.ok(name, wh)
        return
    K = s.posterm(st, at(cv[2][0], s.cpath[0]))
    i = f.find(s.e.scal(at(cv[2][0], s.cpath[1])))
    mv = [t for t in ed if t[1] in ('ins', 'rem')]
    n = T('len', s.base)

    def old(j):
        return s.isat(st, j, K)
    if not mv:
        ok = old(i) and lt(f, i, n)
    elif len(mv) == 1 and mv[0][1] == 'ins':
        j = mv[0][3]
        ok = (eqi(f, i, j) and f.mask(s.posterm(st, at(mv[0][4], s.F['key'])), K) == EQ) or lt(f, i, j) and old(i) or lt(f, j, i) and old(lin_add(i, I(-1)))
    elif len(mv) == 1:
        j = mv[0][3]
        ok = lt(f, i, j) and old(i) or le(f, j, i) and old(lin_add(i, I(1)))
    else:
        raise Undecided('several changes of the sequence')
    c.expect(ok, name, wh, 'remembers %s at index %s, which may be another node%s' % (show(K)[:60], show(i), ' after the front changed' if mv else ''))


def first(c, s):
    p = s.p
    f = find_fn(p, 'new', near='AdvancingFront')
    wh = where(f['span'], f['path'])
    e = Engine(p)
    w = Front(p, e)
    sorts = []

    def on_sort(ctx, ref, base):
        st = ctx.st.copy()
        et = p.types[p.deref_ty(ctx.atys[0])]['elem']
        meth = ctx.path.split('::')[-1]
        if et != s.el:
            sorts.append((ctx, None))
            return
        oa, ob = ('P', 'elA'), ('P', 'elB')
        st.mem[oa], st.mem[ob] = S('elA'), S('elB')
        A, B = (at(S(x), s.F['key']) for x in ('elA', 'elB'))
        s.install(e)
        res = []
        if meth.endswith('by_key'):
            for s2, val in e.sub_call(st, ctx, ctx.args[1], ctx.atys[1], [('r', oa, ())]):
                x = val
                while x[0] == 'a' and len(x[2]) == 1:
                    x = x[2][0]
                res.append(x in [at(S('elA'), s.F['key'][:k]) for k in range(1, len(s.F['key']) + 1)])
        else:
            for s2, val in e.sub_call(st, ctx, ctx.args[1], ctx.atys[1], [('r', oa, ()), ('r', ob, ())]):
                res.append(s2.facts.mask(A, B) == {0: LT, 1: EQ, 2: GT}.get(val[1]))
        sorts.append((ctx, bool(res) and all(res)))
    e.on_sort = on_sort
    args, mem = e.sym_args(f['body'], ['a%d' % i for i in range(f['body']['argc'])])
    outs = e.run(f['body'], args, mem)
    c.count('functions_analysed')
    for st in outs:
        v = unref(st, e, st.ret)
        vec = v[2][s.vi]
        t = models.freeze(e, st, vec[1])
        if t[0] == 't' and t[1] == 'sorted':
            c.expect(all(x[1] for x in sorts) and sorts, 'the first front is sorted by position', wh, 'sorted by something else')
        else:
            c.und('the first front is sorted by position', wh, 'nodes are %s' % show(t)[:80])
        if s.ci is not None:
            cv = v[2][s.ci]
            c.expect(cv[0] == 'a' and cv[1] == 0, 'a new front remembers no access', wh, 'remembers %s' % show(cv))
    if not outs:
        c.und('the first front is sorted by position', wh, 'no outcome')


def accessors(c, s):
    """references and identifiers report what they were made from; next and prev ask the front about this very node"""
    p = s.p
    for ty, nm in ((s.NR, 'NodeRef'), (s.NI, 'NodeId')):
        for f in p.fns:
            if not f.get('body') or ('advancing_front::%s' % nm) not in f['path'] or f['body']['argc'] != 1 or ' as ' in f['path']:
                continue
            loc = f['body']['locals'][1]
            it = p.types[loc]['elem'] if p.types[loc]['k'] == 'ref' else loc
            if it != ty:
                continue
            short = f['path'].split('::')[-1]
            wh = where(f['span'], f['path'])
            with c.guard('%s::%s' % (nm, short), wh):
                e = Engine(p)
                asked = []

                def ask(d):
                    def h(ctx):
                        x = unref(ctx.st, e, ctx.args[1])
                        asked.append((d, x))
                        return T('answer', I(d))
                    return h
                AF = 'advancing_front::vec_backed::AdvancingFront::'
                e.hooks[AF + 'next_node'] = ask(1)
                e.hooks[AF + 'prev_node'] = ask(-1)
                args, mem = e.sym_args(f['body'], ['a0'])
                outs = e.run(f['body'], args, mem)
                c.count('functions_analysed')
                for st in outs:
                    r = st.ret
                    out = f['output']
                    if short in ('next', 'prev') and ty == s.NR:
                        d = 1 if short == 'next' else -1
                        if not asked:
                            c.und('%s asks the front for the neighbor' % short, wh, 'no question')
                            continue
                        c.expect(r == T('answer', I(d)) and asked[-1] == (d, S('a0')), '%s asks the front for the neighbor of this node' % short, wh, 'reports %s' % show(r))
                    elif out in (s.PT, s.PI) or p.ty_s(out) == 'usize':
                        want = at(S('a0'), (fld_of(s, ty, out if out in (s.PT, s.PI) else 'usize'),))
                        ok = same(s, st, r, want, out) if out != s.PT else st.facts.find(r) == st.facts.find(want) if is_term(r) else s_point(s, e, st, r) == want
                        c.expect(ok, '%s reports its own %s' % (nm, {s.PT: 'position', s.PI: 'point'}.get(out, 'index')), wh, 'reports %s' % show(r))
                    elif out == s.NI and ty == s.NR:
                        got = r[2]
                        ok = True
                        for w in (s.PI, s.PT, 'usize'):
                            x, y = got[fld_of(s, s.NI, w)], at(S('a0'), (fld_of(s, s.NR, w),))
                            if w == s.PT:
                                ok &= (x == y or x[0] == 'a' and s_point(s, e, st, x) == y)
                            elif w == 'usize':
                                ok &= e.scal(x) == y
                            else:
                                ok &= s.inner(s.PI, x) == s.inner(s.PI, y)
                        c.expect(ok, 'an identifier names the point, position and index of its node', wh, 'other content')


def s_point(s, e, st, v):
    s.e = e
    return s.posterm(st, v)


def fresh_index(c, p):
    """an index handed to the front was read from a node since the front last changed"""
    f = fill_fn(p)
    wh = where(f['span'], f['path'])
    e, w, outs, args = run_unit(c, p, f, [])
    if not w.index_uses:
        c.und('indices are fresh', wh, 'no use of an index')
    for n, ok, at_ in w.index_uses:
        c.expect(ok, 'an index is used only while the front is unchanged', at_, 'index of %s was read before the front changed' % show(n))


CHECKS = {'C17': c17}
