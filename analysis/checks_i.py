"""What the builder stores: associated data (C05), the list of points (C06), segments (C08); what the result shows (C07)."""
from common import *
from graph import *
from engine import *
from mesh import *
from frontmodel import *
from checks_d import Sweep, subst, segments, is_rep, same_upto, run_events
import itertools

SOURCE = 'points_and_data'
BIG = 14


class Api:
    def __init__(self, p):
        self.p = p
        self.w = Sweep(p)
        self.B, self.C, self.TR = p.adt('cdt::Builder'), p.adt('cdt::CDT'), p.adt('cdt::Triangles')
        self.PT, self.PI, self.PE, self.PO = self.w.PT, self.w.PI, self.w.PE, self.w.PO
        self.TI, self.IT = p.adt('triangles::TriangleId'), p.adt('shape::InnerTriangle')
        if None in (self.B, self.C, self.TR, self.TI, self.IT):
            raise NoAnchor('builder, problem and result types')
        self.x, self.y = p.field_index(self.PT, 'x'), p.field_index(self.PT, 'y')
        if self.x is None or self.y is None or len(p.fields(self.PT)) != 2:
            raise NoAnchor('coordinates')
        self.sources = {}

    # ------------------------------------------------------------- types
    def is_vec(self, t):
        return self.p.types[t]['k'] == 'adt' and self.p.types[t]['path'] == 'std::vec::Vec'

    def slots(self, ty, depth=0):
        """(place, what) of the sequences inside a value of this type"""
        p = self.p
        if depth > 4 or p.types[ty]['k'] != 'adt' or p.types[ty].get('adt') != 'struct':
            return
        for i, t in enumerate(p.fields(ty)):
            if self.is_vec(t):
                el = [a for a in p.types[t].get('args') or [] if isinstance(a, int)][0]
                what = {self.PT: 'points', self.PE: 'edges', self.PI: 'order', self.TI: 'result', self.IT: 'triangles'}.get(el)
                if what is None and p.types[el]['k'] == 'param':
                    what = 'data'
                if what:
                    yield (i,), what
            elif p.types[t]['k'] == 'adt' and p.types[t].get('crate') == 'poly2tri_rs':
                for pl, wh in self.slots(t, depth + 1):
                    yield (i,) + pl, wh

    def slot(self, ty, what):
        c = [pl for pl, w in self.slots(ty) if w == what]
        if len(c) != 1:
            raise NoAnchor('%s of %s' % (what, self.p.ty_s(ty)))
        return c[0]

    def sub(self, e, st, v, pl):
        for i in pl:
            v = unref(st, e, v)
            v = e.proj_get(st, v, ('f', 0, i, None))
        return v

    def term(self, base, pl):
        for i in pl:
            base = T('fld', base, 0, i)
        return base

    # ------------------------------------------------------------- sequences
    def flat(self, e, st, v):
        """(symbolic first part or None, the elements after it); elements of the first part that were overwritten"""
        obj = e.vec_obj(st, unref(st, e, v))
        c = e.load_obj(st, obj)
        if is_term(c):
            c = ('V', c, ())
        if c[0] != 'V':
            raise Undecided('not a sequence')
        base, els = self.expand(st, c[1], list(c[2]))
        over = []
        for j in st.mem.get(('W', obj)) or ():
            val = st.mem.get(('E', obj, j))
            if val is not None and not (base is not None and val == T('elem', base, j)):
                over.append((j, val))
        return base, els, over

    def expand(self, st, base, els):
        while base is not None and base[0] == 't':
            k = base[1]
            if k == 'vecof':
                els = list(base[3:]) + els
                base = base[2]
            elif k == 'concat':
                b2, e2 = self.expand(st, base[3], [])
                if b2 is not None:
                    raise Undecided('two unknown parts')
                els = e2 + els
                base = base[2]
            elif k == 'resized':
                b2, e2 = self.expand(st, base[2], [])
                n = st.facts.find(base[3])
                old = st.facts.find(lin_add(base_len(b2), I(len(e2))))
                d = lin_add(n, old, -1)
                d = self.fold(st, d)
                if d[0] != 'i':
                    raise Undecided('length after resizing: %s' % show(d))
                if d[1] < 0:
                    e2 = e2[:len(e2) + d[1]] if -d[1] <= len(e2) else None
                    if e2 is None:
                        raise Undecided('resized below the known part')
                    els = e2 + els
                else:
                    els = e2 + [base[4]] * d[1] + els
                base = b2
            elif k == 'filled':
                n = st.facts.find(base[2])
                if n[0] != 'i':
                    break
                els = [base[3]] * n[1] + els
                base = None
            elif k == 'trunc':
                b2, e2 = self.expand(st, base[2], [])
                d = self.fold(st, lin_add(base[3], lin_add(base_len(b2), I(len(e2))), -1))
                if d[0] == 'i' and d[1] > 0:
                    d = I(0)
                if d[0] != 'i' or -d[1] > len(e2):
                    break
                els = e2[:len(e2) + d[1]] + els
                base = b2
            else:
                break
        return base, els

    def fold(self, st, t):
        """simplify a length difference with what is known"""
        t = st.facts.find(t)
        if t[0] == 'lin':
            d, c = lin_parts(t)
            out = I(c)
            for k, x in d.items():
                kk = st.facts.find(k)
                dd, cc = lin_parts(kk)
                out = lin_add(out, lin_make({a: b * x for a, b in dd.items()}, cc * x))
            return out
        return t

    def point(self, nm):
        r = [None, None]
        r[self.x], r[self.y] = S('x' + nm), S('y' + nm)
        return ('a', 0, tuple(r))

    def supply(self, e, st, nm, n):
        return agg(e.new_vec(st, None, [self.point('%s%d' % (nm, i)) for i in range(n)]), e.new_vec(st, None, [S('d%s%d' % (nm, i)) for i in range(n)]))

    def engine(self, **kw):
        e = Engine(self.p, max_states=20000, want_panics=True, **kw)
        e.force_unroll = BIG

        def src(ctx):
            a = unref(ctx.st, e, ctx.args[0])
            if a not in self.sources:
                raise Undecided('points of an unknown source')
            return self.supply(e, ctx.st, *self.sources[a])
        e.hooks['PointDataSource::' + SOURCE] = src
        e.virt = over_list
        return e

    def id_of(self, e, st, v):
        v = unref(st, e, v)
        while v[0] == 'a' and len(v[2]) == 1:
            v = v[2][0]
        return self.fold(st, v)

    def edges_of(self, e, st, v):
        """identifiers recorded with a point, None if not known"""
        v = unref(st, e, v)
        if v[0] != 'a' or v[1] not in self.w.var:
            return None
        return [self.id_of(e, st, x) for x in v[2][:self.w.var[v[1]]]]


def over_list(ctx):
    """a list handed to a generic parameter that is iterated"""
    import models
    if ctx.path.endswith('IntoIterator::into_iter') and ctx.args[0][0] == 'v':
        return models.vec_into_iter(ctx)
    if ctx.path.endswith('Iterator::next'):
        return models.it_next(ctx)
    return NotImplemented


def orders(n, ties=True):
    """all orders of n different points: (rank, group of equal y) per point"""
    for perm in itertools.permutations(range(n)):
        cuts = itertools.product((0, 1), repeat=n - 1) if ties else [(1,) * (n - 1), (0,) * (n - 1)]
        for cut in cuts:
            grp = [0]
            for x in cut:
                grp.append(grp[-1] + x)
            yield [(perm[i], grp[perm[i]]) for i in range(n)]


def order_facts(a, facts, nm, o, same=()):
    for i, (r, g) in enumerate(o):
        for j in range(i):
            r2, g2 = o[j]
            xi, xj, yi, yj = (S('%s%s%d' % (k, nm, m)) for k, m in (('x', i), ('x', j), ('y', i), ('y', j)))
            if (j, i) in same:
                facts.assume(yj, yi, EQ)
                facts.assume(xj, xi, EQ)
                continue
            facts.assume(yj, yi, LT if g2 < g else GT if g2 > g else EQ)
            if g2 == g:
                facts.assume(xj, xi, LT if r2 < r else GT)


class Op:
    """one way of supplying points, with its list of points"""

    def __init__(self, a, name, kind, f):
        self.a, self.name, self.kind, self.f = a, name, kind, f


def builder_fns(a):
    """public functions that make or extend a builder, by what they take"""
    p = a.p
    for f in p.fns:
        if not f.get('body') or f.get('implself') is None and not f['path'].startswith('cdt::Builder') or 'inputs' not in f:
            continue
        if not f['path'].startswith('cdt::Builder::'):
            continue
        ins, out = f['inputs'], f['output']
        own = [i for i, t in enumerate(ins) if t == a.B or p.deref_ty(t) == a.B]
        rest = [i for i in range(len(ins)) if i not in own]
        if out != a.B and not (own and p.deref_ty(ins[own[0]]) == a.B):
            continue
        yield f, own, rest


def arg_kind(a, t):
    p = a.p
    if t == a.PT:
        return 'point'
    s = p.ty_s(t)
    if 'IntoIterator' in s:
        return 'sources'
    if 'PointDataSource' in s:
        return 'source'
    if p.types[t]['k'] == 'param':
        return 'data'
    return None


class Step:
    """one call on a builder: what it supplies (names of points), and the arguments"""


def run_step(a, f, own, rest, n, setup=None, prior='self'):
    """(engine, outcomes, names of supplied points) of one call, with lists of n points"""
    p = a.p
    e = a.engine()
    names = []
    args, mem = e.sym_args(f['body'], ['a%d' % i for i in range(f['body']['argc'])])
    facts = Facts()
    for i in own:
        s = S('a%d' % i)
        facts.assume(T('len', a.term(s, a.slot(a.B, 'points'))), T('len', a.term(s, a.slot(a.B, 'edges'))), EQ)
    a.sources = {}
    for i in rest:
        k = arg_kind(a, f['inputs'][i])
        if k == 'point':
            args[i] = a.point('p0')
            names.append('p0')
        elif k == 'data':
            args[i] = S('dp0')
        elif k == 'source':
            a.sources[args[i]] = ('p', n)
            names += ['p%d' % j for j in range(n)]
        elif k == 'sources':
            obj = ('H', 900)
            subs = [S('src%d' % j) for j in range(len(n))]
            mem[obj] = ('V', None, tuple(subs))
            args[i] = ('v', obj)
            for j, s in enumerate(subs):
                a.sources[s] = ('q%d.' % j, n[j])
                names += ['q%d.%d' % (j, m) for m in range(n[j])]
        else:
            raise Undecided('argument %s' % p.ty_s(f['inputs'][i]))
    if setup:
        setup(facts)
    facts.log = ()
    outs = e.run(f['body'], args, mem, facts)
    return e, outs, names


def after(a, e, st, f, own):
    """the builder after the call"""
    if f['output'] == a.B:
        return st.ret
    return ('r', ('P', 'a%d' % own[0]), ())


def same_base(st, base, want):
    """whether the first part of a list is the wanted list: True, False, or None"""
    if base == want:
        return True
    if base is None or base[0] != 't':
        return False if base is None else None
    k = base[1]
    if k in ('ins', 'rem', 'vset', 'sorted'):
        x = base[4] if k == 'sorted' else base[2]
        return False if same_base(st, x, want) is not None else None
    if k in ('trunc', 'resized'):
        if same_base(st, base[2], want) is None:
            return None
        m = st.facts.mask(base[3], base_len(base[2]))
        return False if m == LT or m == GT and k == 'resized' else None
    if k == 'fld':
        return False
    return None


def judge_base(c, st, base, want, *args, **kw):
    r = same_base(st, base, want)
    if r is None:
        raise Undecided('list is %s' % show(base))
    return c.expect(r, *args, **kw)


def expect_base(c, st, base, want, over, *args, **kw):
    r = same_base(st, base, want)
    if r is None:
        raise Undecided('list is %s' % show(base))
    return c.expect(r and not over, *args, **kw)


def stored(a, e, st, val, what, own):
    base, els, over = a.flat(e, st, a.sub(e, st, val, a.slot(a.B, what)))
    want = a.term(S('a%d' % own[0]), a.slot(a.B, what)) if own else None
    return base, els, over, want


def shape_of(f, own, rest, a):
    return tuple(arg_kind(a, f['inputs'][i]) for i in rest)


def sizes(kinds):
    if kinds == ('source',):
        return [0, 1, 2, 3]
    if kinds == ('sources',):
        return [(), (3,), (3, 3), (0, 3)]
    return [1]


def distinct(n):
    def g(facts):
        pre = 'p'
        if isinstance(n, int):
            order_facts(None, facts, pre, [(i, i) for i in range(n)])
        else:
            for j, m in enumerate(n):
                order_facts(None, facts, 'q%d.' % j, [(i, i) for i in range(m)])
    return g


def same_val(st, u, v):
    if u == v:
        return True
    if u[0] == 'a' and v[0] == 'a':
        return u[1] == v[1] and len(u[2]) == len(v[2]) and all(same_val(st, x, y) for x, y in zip(u[2], v[2]))
    if is_term(u) and is_term(v):
        return st.facts.find(u) == st.facts.find(v)
    return False


def appended(c, a, what, nm, val_of, key=''):
    """every way of supplying points appends exactly the supplied values, in order"""
    for f, own, rest in builder_fns(a):
        short = f['path'].split('::')[-1]
        wh = where(f['span'], f['path'])
        kinds = shape_of(f, own, rest, a)
        if None in kinds or len(own) > 1:
            c.und('%s by %s' % (nm, short), wh, 'arguments not known')
            continue
        c.count('functions_analysed')
        for n in sizes(kinds):
            lab = '%s by %s%s' % (nm, short, '' if kinds not in (('source',), ('sources',)) else ' [%s points]' % (n,))
            with c.guard(lab, wh):
                e, outs, names = run_step(a, f, own, rest, n, distinct(n))
                c.count('runs')
                c.count('states', len(outs))
                want = [val_of(x) for x in names]
                if not outs:
                    if kinds == ('source',) and n in (1, 2):
                        continue    # not an outline; may be refused
                    if e.panics:
                        c.bad(lab, wh, 'no outcome: every path ends in %s' % str(e.panics[0].panic[1])[:80], key='%s:%s' % (nm, short))
                    else:
                        c.und(lab, wh, 'no outcome')
                    continue
                for st in outs:
                    with c.guard(lab, wh):
                        val = after(a, e, st, f, own)
                        base, els, over, old = stored(a, e, st, val, what, own)
                        judge_base(c, st, base, old, '%s: what was there stays, in front' % lab, wh, 'the list starts with %s, not %s' % (show(base) if base else 'nothing', show(old) if old else 'nothing'), key='%s:%s' % (nm, short))
                        c.expect(not over or what == 'edges', '%s: what was there is not changed' % lab, wh, 'element %s is overwritten' % (show(over[0][0]) if over else ''), key='%s:%s' % (nm, short))
                        ok = len(els) == len(want) and all(same_val(st, x, y) for x, y in zip(els, want))
                        c.expect(ok, '%s: the supplied ones follow, in order' % lab, wh, 'appended %s, supplied %s' % (', '.join(map(show, els)), ', '.join(map(show, want))), key='%s:%s' % (nm, short))


def sources(c, a, both=True):
    """the library's own sources hand out their points unchanged with as many data"""
    p = a.p
    for f in p.fns:
        if not f.get('body') or f['path'].split('::')[-1] != SOURCE or f['body']['argc'] != 1:
            continue
        t = f['body']['locals'][1]
        ty = p.types[t]
        wh = where(f['span'], f['path'])
        nm = 'source %s' % p.ty_s(t)
        for n in (0, 1, 3):
            with c.guard(nm, wh):
                e = Engine(p, max_states=2000, want_panics=True)
                e.force_unroll = BIG
                pts = [a.point('p%d' % i) for i in range(n)]
                o1, o2 = ('H', 900), ('H', 901)
                mem = {o1: ('V', None, tuple(pts)), o2: ('V', None, tuple(S('d%d' % i) for i in range(n)))}
                if a.is_vec(t):
                    arg, data = ('v', o1), None
                elif ty['k'] == 'tuple' and len(p.fields(t)) == 2 and all(a.is_vec(x) for x in p.fields(t)):
                    arg, data = agg(('v', o1), ('v', o2)), [S('d%d' % i) for i in range(n)]
                else:
                    raise Undecided('source of another form')
                outs = e.run(f['body'], [arg], mem)
                c.count('functions_analysed')
                for st in outs:
                    r = st.ret
                    b, els, ov = a.flat(e, st, r[2][0])
                    c.expect(b is None and not ov and len(els) == n and all(same_val(st, x, y) for x, y in zip(els, pts)), '%s: points handed out unchanged [%d]' % (nm, n), wh, 'hands out %s' % ', '.join(map(show, els)), key=nm)
                    if both:
                        b, els, ov = a.flat(e, st, r[2][1])
                        if b is not None:
                            raise Undecided('data list')
                        c.expect(len(els) == n and (data is None or all(same_val(st, x, y) for x, y in zip(els, data))), '%s: one datum per point, in order [%d]' % (nm, n), wh, 'hands out %s' % ', '.join(map(show, els)), key=nm)
                if not outs:
                    c.bad('%s hands out its points' % nm, wh, 'no outcome', key=nm)


def any_number(c, a, what, nm, val):
    """the same for lists of any length: the list after the call is the one before, then one element per supplied point"""
    p = a.p
    for f, own, rest in builder_fns(a):
        kinds = shape_of(f, own, rest, a)
        if kinds != ('source',):
            continue
        short = f['path'].split('::')[-1]
        wh = where(f['span'], f['path'])
        lab = '%s by %s, any number' % (nm, short)
        with c.guard(lab, wh):
            e = Engine(p, max_states=20000, want_panics=True)
            e.force_unroll = 3

            def src(ctx):
                return agg(e.new_vec(ctx.st, S('pts')), e.new_vec(ctx.st, S('dat')))
            e.hooks['PointDataSource::' + SOURCE] = src
            args, mem = e.sym_args(f['body'], ['a%d' % i for i in range(f['body']['argc'])])
            facts = Facts()
            facts.assume(T('len', S('pts')), T('len', S('dat')), EQ)
            for i in own:
                s = S('a%d' % i)
                facts.assume(T('len', a.term(s, a.slot(a.B, 'points'))), T('len', a.term(s, a.slot(a.B, 'edges'))), EQ)
            facts.log = ()
            outs = e.run(f['body'], args, mem, facts)
            c.count('functions_analysed')
            S0 = S('pts') if what == 'points' else S('dat')
            for st in outs:
                with c.guard(lab, wh):
                    v = a.sub(e, st, after(a, e, st, f, own), a.slot(a.B, what))
                    obj = e.vec_obj(st, unref(st, e, v))
                    cont = e.load_obj(st, obj)
                    if is_term(cont):
                        cont = ('V', cont, ())
                    segs = segments(e, cont[1]) + ([('lit', list(cont[2]))] if cont[2] else [])
                    old = a.term(S('a%d' % own[0]), a.slot(a.B, what)) if own else None
                    if old is not None:
                        if not segs or segs[0] != ('base', old):
                            raise Undecided('first part')
                        segs = segs[1:]
                    if segs == [('base', S0)]:
                        c.ok(lab, wh)
                        continue
                    if not segs:
                        z = st.facts.find(T('len', S0))
                        if z == I(0):
                            c.ok(lab, wh)
                            continue
                        raise Undecided('nothing appended')
                    if len(segs) != 1 or segs[0][0] != 'rep' or len(segs[0][3]) != 1 or len(segs[0][3][0]) != 1:
                        raise Undecided('list of another form')
                    _, K, cnt, alts, summ = segs[0]
                    v = alts[0][0]
                    c.expect(v == T('elem', S0, K), '%s: element by element' % lab, wh, 'place %s gets %s' % (show(K), show(v)), key='%s:%s' % (nm, short))
                    c.expect(same_upto(st, cnt, T('len', S0)), '%s: as many' % lab, wh, '%s of them' % show(cnt), key='%s:%s' % (nm, short))


def whole_lists(c, p, a, what, nm):
    """the run from problem to result passes the list on; building does"""
    f, e, args, outs, wh = run_events(p)
    c.count('functions_analysed')
    pl = a.slot(a.C, what)
    pr = a.slot(a.TR, what)
    want = a.term(S('a0'), pl)
    for st in outs:
        with c.guard('%s in the result' % nm, wh):
            if st.ret[0] != 'a':
                raise Undecided('result not built here')
            base, els, over = a.flat(e, st, a.sub(e, st, st.ret, pr))
            r = same_base(st, base, want)
            if r is None:
                raise Undecided('list is %s' % show(base))
            c.expect(r and not els and not over, '%s reach the result as they are' % nm, wh, 'the result has %s%s' % (show(base) if base else 'nothing', ', '.join([''] + list(map(show, els)))), key=nm + ':triangulate')
    if not outs:
        c.und('%s in the result' % nm, wh, 'no outcome')


def build_fn(a):
    p = a.p
    cs = [f for f in p.fns if f.get('body') and 'inputs' in f and f['output'] == a.C and [t for t in f['inputs']] == [a.B]]
    if len(cs) != 1:
        raise NoAnchor('function from builder to problem')
    return cs[0]


def run_build(a):
    f = build_fn(a)
    e = Engine(a.p, max_states=20000, want_panics=True)
    args, mem = e.sym_args(f['body'], ['a0'])
    facts = Facts()
    s = S('a0')
    facts.assume(T('len', a.term(s, a.slot(a.B, 'points'))), T('len', a.term(s, a.slot(a.B, 'edges'))), EQ)
    facts.log = ()
    return f, e, e.run(f['body'], args, mem, facts)


def c05():
    c = Check('C05', 'Abstract interpretation of every public way to supply points and of building and running: the list of data afterwards is the list before followed by the supplied data, element by element, '
              'for symbolic data and lists of 0 to 3 points and for lists of any length; the same for the points; the library\'s own sources hand out one datum per point in order.',
              ['sources written by users hand out as many data as points'])
    p = prog()
    a = Api(p)
    for what, nm, val in (('data', 'data', lambda x: S('d' + x)), ('points', 'points', a.point)):
        with c.guard(nm):
            appended(c, a, what, nm, val)
        with c.guard(nm + ', any number'):
            any_number(c, a, what, nm, val)
    with c.guard('sources'):
        sources(c, a)
    with c.guard('build'):
        f, e, outs = run_build(a)
        wh = where(f['span'], f['path'])
        c.count('functions_analysed')
        for st in outs:
            with c.guard('data in the problem', wh):
                base, els, over = a.flat(e, st, a.sub(e, st, st.ret, a.slot(a.C, 'data')))
                r = same_base(st, base, a.term(S('a0'), a.slot(a.B, 'data')))
                if r is None:
                    raise Undecided('list is %s' % show(base))
                c.expect(r and not els and not over, 'data reach the problem as they are', wh, 'the problem has %s and %d more' % (show(base) if base else 'nothing', len(els)), key='data:build')
    with c.guard('run'):
        whole_lists(c, p, a, 'data', 'data')
    with c.guard('shown data'):
        shown(c, a, 'data')
    return c.finish()


def id_offsets(a):
    """{place of an identifier in the point store: its distance from the end of the supplied points}, as the build sets it"""
    p = a.p
    out = {}
    try:
        f, e, outs = run_build(a)
        pts = a.slot(a.C, 'points')[:-1]
        n = T('len', a.term(S('a0'), a.slot(a.B, 'points')))
        for k, t in enumerate(p.fields(a.PO)):
            if t != a.PI:
                continue
            ds = set()
            for st in outs:
                v = a.id_of(e, st, a.sub(e, st, st.ret, pts + (k,)))
                ds.add(lin_add(a.fold(st, st.facts.find(v)), a.fold(st, st.facts.find(n)), -1))
            d = ds.pop() if len(ds) == 1 else None
            if d is not None and d[0] == 'i':
                out[(k,)] = d[1]
    except (Undecided, NoAnchor):
        pass
    return out


def shown(c, a, what):
    """accessors of the result that return a slice of the list"""
    p = a.p
    el = a.PT if what == 'points' else None
    found = 0
    offs = id_offsets(a) if what == 'points' else {}
    for f in p.fns:
        if not f.get('body') or 'inputs' not in f or len(f['inputs']) != 1 or p.deref_ty(f['inputs'][0]) != a.TR:
            continue
        o = p.types[f['output']]
        if o['k'] != 'ref' or p.types[o['elem']]['k'] != 'slice':
            continue
        t = p.types[o['elem']]['elem']
        if not (t == el or el is None and p.types[t]['k'] == 'param'):
            continue
        found += 1
        wh = where(f['span'], f['path'])
        nm = 'list shown by %s' % f['path'].split('::')[-1]
        with c.guard(nm, wh):
            pl = a.slot(a.TR, what)
            e = Engine(p, max_states=2000, want_panics=True)
            args, mem = e.sym_args(f['body'], ['a0'])
            L = a.term(S('a0'), pl)
            obj = ('VB', L)
            two = 2 if what == 'points' else 0
            mem[obj] = ('V', S('supplied'), tuple(S('fake%d' % i) for i in range(two)))
            facts = Facts()
            for q, d in (offs.items() if what == 'points' else ()):
                facts.assume(T('fld', a.term(S('a0'), pl[:-1] + q), 0, 0), lin_add(T('len', S('supplied')), I(d)), EQ)
            facts.log = ()
            outs = e.run(f['body'], args, mem, facts)
            c.count('functions_analysed')
            for st in outs:
                r = st.ret
                lo, hi, o2 = I(0), None, r[1] if r[0] == 'r' else None
                if r[0] != 'r' or r[2]:
                    raise Undecided('returns %s' % show(r))
                while o2[0] == 'SL':
                    hi = lin_add(o2[2], hi) if hi is not None else o2[3]
                    lo = lin_add(o2[2], lo)
                    o2 = o2[1]
                if hi is None:
                    hi = vec_len(st.mem[o2]) if o2 in st.mem and st.mem[o2][0] == 'V' else None
                if o2 != obj or hi is None:
                    raise Undecided('returns part of %s' % showobj(o2))
                c.expect(same_upto(st, lo, I(0)) and same_upto(st, hi, T('len', S('supplied'))), '%s is exactly the supplied one' % nm, wh, 'it goes from %s to %s of %s supplied' % (show(lo), show(hi), show(T('len', S('supplied')))), key=nm)
            if not outs:
                c.bad(nm, wh, 'no outcome', key=nm)
    if not found:
        c.und('shown %s' % what, '', 'no accessor')


# ------------------------------------------------------------------------ C06
def c06():
    c = Check('C06', 'Abstract interpretation of every way to supply points, of building the problem and of running it: the point list is the supplied list, unmodified and in order, with exactly two points added behind it '
              'that carry no segment; the accessors cut off exactly those two, and an identifier reads the element at its own index. A query over all bodies finds other changes to the stored lists.',
              ['point lists have fewer than 2^32 elements'])
    p = prog()
    a = Api(p)
    with c.guard('points'):
        appended(c, a, 'points', 'points', a.point)
    with c.guard('points, any number'):
        any_number(c, a, 'points', 'points', a.point)
    with c.guard('sources'):
        sources(c, a, both=False)
    with c.guard('build'):
        synthetic(c, a)
    with c.guard('run'):
        whole_lists(c, p, a, 'points', 'points')
        whole_lists(c, p, a, 'edges', 'segments')
    with c.guard('shown points'):
        shown(c, a, 'points')
    with c.guard('reading a point'):
        readers(c, a)
    with c.guard('raw index'):
        raw_index(c, a)
    with c.guard('other changes'):
        changes(c, a)
    return c.finish()


def synthetic(c, a):
    p = a.p
    f, e, outs = run_build(a)
    wh = where(f['span'], f['path'])
    c.count('functions_analysed')
    hd, tl = p.field_index(a.PO, 'head'), p.field_index(a.PO, 'tail')
    P = a.term(S('a0'), a.slot(a.B, 'points'))
    E = a.term(S('a0'), a.slot(a.B, 'edges'))
    for st in outs:
        with c.guard('list of points of the problem', wh):
            base, els, over = a.flat(e, st, a.sub(e, st, st.ret, a.slot(a.C, 'points')))
            expect_base(c, st, base, P, over, 'the supplied points stay in place and unmodified', wh, 'the list starts with %s%s' % (show(base) if base else 'nothing', '; %s overwritten' % show(over[0][0]) if over else ''), key='build:points')
            c.expect(len(els) == 2, 'exactly two synthetic points follow', wh, '%d points follow' % len(els), key='build:two')
        with c.guard('segments of the problem', wh):
            base, els, over = a.flat(e, st, a.sub(e, st, st.ret, a.slot(a.C, 'edges')))
            expect_base(c, st, base, E, over, 'segments of supplied points stay as they are', wh, 'the list starts with %s%s' % (show(base) if base else 'nothing', '; %s overwritten' % show(over[0][0]) if over else ''), key='build:segments')
            got = [a.edges_of(e, st, x) for x in els]
            c.expect(len(els) == 2 and all(x == [] for x in got), 'synthetic points carry no segment', wh, 'segments %s' % got, key='build:none')
        if hd is not None and tl is not None:
            with c.guard('identifiers of the synthetic points', wh):
                pts = a.slot(a.C, 'points')[:-1]
                po = a.sub(e, st, st.ret, pts)
                ids = sorted(show(a.id_of(e, st, a.sub(e, st, po, (k,)))) for k in (hd, tl))
                n = T('len', P)
                def upto(t):
                    return show(a.fold(st, st.facts.find(t)))
                c.expect(ids == sorted([upto(n), upto(lin_add(n, I(1)))]), 'the synthetic points are the last two of the list', wh, 'their identifiers are %s' % ids, key='build:ids')
    if not outs:
        c.und('build', wh, 'no outcome')


def readers(c, a):
    """functions from an identifier to a point read the element at that index"""
    p = a.p
    found = 0
    for f in p.fns:
        if not f.get('body') or 'inputs' not in f or len(f['inputs']) != 2:
            continue
        ins = [p.deref_ty(t) if p.types[t]['k'] == 'ref' else t for t in f['inputs']]
        if sorted(ins) != sorted([a.PI, a.PO]):
            continue
        o = p.types[f['output']]
        opt = o['k'] == 'adt' and o['path'] == 'std::option::Option' and [x for x in o['args'] if isinstance(x, int)] == [a.PT]
        if f['output'] != a.PT and not opt:
            continue
        found += 1
        wh = where(f['span'], f['path'])
        nm = 'reading a point with %s' % f['path'].split('::')[-1]
        with c.guard(nm, wh):
            e = Engine(p, max_states=2000, want_panics=True)
            args, mem = e.sym_args(f['body'], ['a0', 'a1'])
            outs = e.run(f['body'], args, mem)
            c.count('functions_analysed')
            k = ins.index(a.PO)
            P = T('fld', S('a%d' % k), 0, a.w.f['points'])
            i = T('fld', S('a%d' % (1 - k)), 0, 0)
            for st in outs:
                r = st.ret
                if opt:
                    if r[0] == 'a' and r[1] == 0:
                        m = st.facts.mask(i, T('len', P))
                        c.expect(not (m & LT), '%s: nothing only for identifiers outside' % nm, wh, 'nothing for a valid identifier', key=nm)
                        continue
                    if r[0] != 'a' or r[1] != 1:
                        raise Undecided('returns %s' % show(r))
                    r = r[2][0]
                r = unref(st, e, r)
                want = T('elem', P, i)
                ok = r == want or r[0] == 'a' and all(x == T('fld', want, 0, n) for n, x in enumerate(r[2]))
                c.expect(ok, '%s gives the point at that index' % nm, wh, 'gives %s' % show(r), key=nm)
    if not found:
        c.und('reading a point', '', 'no reader')


def raw_index(c, a):
    """the number an identifier shows is its index"""
    p = a.p
    for f in p.fns:
        if not f.get('body') or 'inputs' not in f or len(f['inputs']) != 1 or f.get('derived'):
            continue
        t = f['inputs'][0]
        if not (t == a.PI or p.deref_ty(t) == a.PI) or p.types[f['output']]['k'] != 'uint' or p.ty_s(f['output']) not in ('u32', 'usize', 'u64'):
            continue
        if f['path'].split('::')[-1] in ('hash',):
            continue
        wh = where(f['span'], f['path'])
        nm = 'number shown by %s' % f['path'].split('::')[-1]
        with c.guard(nm, wh):
            e = Engine(p, max_states=2000, want_panics=True)
            args, mem = e.sym_args(f['body'], ['a0'])
            outs = e.run(f['body'], args, mem)
            c.count('functions_analysed')
            for st in outs:
                c.expect(e.scal(st.ret) == T('fld', S('a0'), 0, 0), '%s is the index' % nm, wh, 'is %s' % show(st.ret), key=nm)


def deep(e, st, v):
    v = unref(st, e, v)
    if v[0] == 'a':
        return ('a', v[1], tuple(deep(e, st, x) for x in v[2]))
    return v


REORDER = ('sort', 'sort_by', 'sort_by_key', 'sort_unstable', 'sort_unstable_by', 'sort_unstable_by_key', 'sort_by_cached_key', 'swap', 'reverse', 'rotate_left', 'rotate_right', 'remove', 'swap_remove',
           'truncate', 'pop', 'push', 'insert', 'clear', 'dedup', 'dedup_by', 'dedup_by_key', 'retain', 'retain_mut', 'drain', 'extend', 'extend_from_slice', 'resize', 'append', 'split_off', 'fill')


def changes(c, a):
    """mutable access to the stored lists outside the analysed functions"""
    from checks_h import place_ty, proj_ty
    p = a.p
    seen = set()
    for f, own, rest in builder_fns(a):
        kinds = shape_of(f, own, rest, a)
        if None in kinds:
            continue
        try:
            e, outs, names = run_step(a, f, own, rest, sizes(kinds)[-1], distinct(sizes(kinds)[-1]))
            seen |= e.fnseen
        except Undecided:
            pass
    f, e, outs = run_build(a)
    seen |= e.fnseen
    f, e, args, outs, wh = run_events(p)
    seen |= e.fnseen
    n = 0
    for f in p.fns:
        b = f.get('body')
        if not b or b['path'] in seen:
            continue
        for bl in b['blocks']:
            if bl['cl']:
                continue
            for s in bl['s']:
                if s[0] != '=':
                    continue
                n += 1
                pl = s[2][2] if s[2][0] == 'ref' and s[2][1] else None
                for q, isref in ((pl, True), (s[1], False)):
                    if q is None or not passes(p, b, q, a):
                        continue
                    wh = where(s[3] if isinstance(s[3], list) else bl['sp'], f['path']) if len(s) > 3 else where(bl['sp'], f['path'])
                    t = bl['t']
                    nm = (callee_path(t[1]) or '').split('::')[-1] if t[0] == 'call' else ''
                    if not isref:
                        c.bad('stored lists change only where points are supplied', wh, 'element or list assigned', key='write:' + owner_name(f))
                    elif nm in REORDER:
                        c.bad('stored lists change only where points are supplied', wh, '%s on a stored list' % nm, key='write:' + owner_name(f))
                    else:
                        c.und('stored lists change only where points are supplied', wh, 'mutable reference')
    c.count('statements_scanned', n)
    c.ok('stored lists change only where points are supplied (%d functions analysed there)' % len(seen))


def owner_name(f):
    return f['path'].split('::{closure')[0]


def passes(p, b, place, a):
    """the place lies inside a list of points or segments of the point store"""
    from checks_h import proj_ty
    ty = b['locals'][place[0]]
    hit = False
    for x in place[1]:
        if ty is None:
            return False
        if x[0] == 'f' and ty == a.PO and x[1] in (a.w.f['points'], a.w.f['edges']):
            hit = True
        ty = proj_ty(p, ty, x)
    return hit


# ------------------------------------------------------------------------ C07
def result_value(a, extra=None):
    """a result as the run makes it, with a list of n result triangles put in"""
    p = a.p
    f, e, args, outs, wh = run_events(p)
    for st in outs:
        if st.ret[0] == 'a':
            return e, st
    raise Undecided('result not built here')


def concrete_result(a, n):
    """(value, memory, result ids, point list term, triangle list term)"""
    e, st = result_value(a)
    v = st.ret
    pl = {w: a.slot(a.TR, w) for w in ('points', 'result', 'triangles')}
    mem = {}
    objs = {}
    for w, pth in pl.items():
        objs[w] = ('VB', S('res.' + w))
    mem[objs['points']] = ('V', S('res.points'), ())
    mem[objs['triangles']] = ('V', S('res.triangles'), ())
    ids = [S('r%d' % i) for i in range(n)] if n is not None else None
    mem[objs['result']] = ('V', None, tuple(agg(x) for x in ids)) if n is not None else ('V', S('res.result'), ())

    def put(v, pth, x):
        if not pth:
            return x
        if v[0] != 'a':
            raise Undecided('result not built here')
        fs = list(v[2])
        fs[pth[0]] = put(fs[pth[0]], pth[1:], x)
        return ('a', v[1], tuple(fs))
    for w, pth in pl.items():
        v = put_sym(a, v, a.TR, pth, ('v', objs[w]))
    return v, mem, ids


def any_cursor(a, v):
    """the result after some triangles were taken from it"""
    fs = list(v[2])
    for i, t in enumerate(a.p.fields(a.TR)):
        if a.p.ty_s(t) == 'usize':
            fs[i] = S('cur%d' % i)
    return ('a', v[1], tuple(fs))


def put_sym(a, v, ty, pth, x):
    if not pth:
        return x
    ts = a.p.fields(ty)
    if v[0] != 'a':
        fs = [T('fld', v, 0, i) if is_term(v) else S('res.f%d' % i) for i in range(len(ts))]
    else:
        fs = list(v[2])
    fs[pth[0]] = put_sym(a, fs[pth[0]], ts[pth[0]], pth[1:], x)
    return ('a', 0, tuple(fs))


def c07():
    c = Check('C07', 'Abstract interpretation of the index list and of the iterator step on a result with symbolic triangles: the list has the three corner indices of every result triangle in order, '
              'for any number of triangles; the iterator step yields the points of the triangle at the cursor in the same corner order, advances by one, and at the end yields nothing and stays there.', [])
    p = prog()
    a = Api(p)
    fi = [f for f in p.fns if f.get('body') and 'inputs' in f and len(f['inputs']) == 1 and p.deref_ty(f['inputs'][0]) == a.TR and a.is_vec(f['output']) and p.ty_s(f['output']).endswith('<u32>')]
    fx = [f for f in p.fns if f.get('body') and f['path'].endswith('Iterator>::next') and 'Triangles' in f['path']]
    cf = p.field_index(a.IT, 'points')
    if cf is None:
        raise NoAnchor('corners')
    R, TS, P = S('res.result'), S('res.triangles'), S('res.points')

    def corner(rid, k):
        return T('fld', T('fld', T('fld', T('elem', TS, rid), 0, cf), 0, k), 0, 0)

    def corner_alts(rid, k):
        return (corner(rid, k), T('fld', T('elem', T('fld', T('elem', TS, rid), 0, cf), I(k)), 0, 0))
    for f in fi:
        wh = where(f['span'], f['path'])
        c.count('functions_analysed')
        for n in (0, 1, 2, 3):
            with c.guard('index list', wh):
                v, mem, ids = concrete_result(a, n)
                v = any_cursor(a, v)
                e = Engine(p, max_states=2000, want_panics=True)
                e.force_unroll = BIG
                o = ('P', 'self')
                mem[o] = v
                outs = e.run(f['body'], [('r', o, ())], mem)
                for st in outs:
                    b, els, ov = a.flat(e, st, st.ret)
                    if b is not None:
                        raise Undecided('list of another form: %s %s' % (show(b)[:200], ' '.join(map(show, els))[:200]))
                    want = [corner(i, k) for i in ids for k in range(3)]
                    got = [e.scal(x) for x in els]
                    c.expect(len(got) == len(want), 'three indices per result triangle [%d]' % n, wh, '%d indices' % len(got), key='indices:number')
                    c.expect(got == want or len(got) != len(want) or False, 'index list holds the corners in order [%d]' % n, wh, 'holds %s' % ' '.join(map(show, got)), key='indices:order')
                if not outs:
                    c.bad('index list', wh, 'no outcome', key='indices:none')
        for n in (1, 2, 3):
            for k in range(1, n + 2):
                with c.guard('index list after some triangles were taken', wh):
                    for m, fa, ids, o in taken(a, fx, n, k):
                        e = Engine(p, max_states=2000, want_panics=True)
                        e.force_unroll = BIG
                        for st in e.run(f['body'], [('r', o, ())], m, fa):
                            b, els, ov = a.flat(e, st, st.ret)
                            if b is not None:
                                raise Undecided('list of another form')
                            want = [corner(i, j) for i in ids for j in range(3)]
                            got = [e.scal(x) for x in els]
                            c.expect(got == want, 'index list is the same after %d of %d triangles were taken' % (min(k, n), n), wh, 'holds %s' % ' '.join(map(show, got)), key='indices:order' if len(got) == len(want) else 'indices:number')
        with c.guard('index list, any number', wh):
            v, mem, ids = concrete_result(a, None)
            v = any_cursor(a, v)
            e = Engine(p, max_states=2000, want_panics=True)
            e.force_unroll = 3
            o = ('P', 'self')
            mem[o] = v
            outs = e.run(f['body'], [('r', o, ())], mem)
            for st in outs:
                obj = e.vec_obj(st, st.ret)
                cont = e.load_obj(st, obj)
                segs = segments(e, cont[1]) + ([('lit', list(cont[2]))] if cont[2] else [])
                if not segs and st.facts.find(T('len', R)) == I(0):
                    c.ok('index list, any number', wh)
                    continue
                if len(segs) != 1 or segs[0][0] != 'rep' or len(segs[0][3]) != 1:
                    raise Undecided('list of another form: %s' % str(segs)[:300])
                _, K, cnt, alts, summ = segs[0]
                got = [e.scal(x) for x in alts[0]]
                rid = T('fld', T('elem', R, K), 0, 0)
                c.expect(got == [corner(rid, k) for k in range(3)], 'index list holds the corners of the triangle, any number', wh, 'adds %s for triangle %s' % (' '.join(map(show, got)), show(K)), key='indices:order')
                c.expect(same_upto(st, cnt, T('len', R)), 'three indices per result triangle, any number', wh, '%s triples' % show(cnt), key='indices:number')
    if not fi:
        c.und('index list', '', 'no function')
    for f in fx:
        wh = where(f['span'], f['path'])
        c.count('functions_analysed')
        for n in (0, 1, 2, 3):
            with c.guard('iterator', wh):
                v, mem, ids = concrete_result(a, n)
                o = ('P', 'self')
                mem[o] = v
                cur = [(mem, None, [])]
                for step in range(n + 2):
                    nxt = []
                    for m, fa, items in cur:
                        e = Engine(p, max_states=2000, want_panics=True)
                        e.force_unroll = BIG
                        outs = e.run(f['body'], [('r', o, ())], m, fa)
                        for st in outs:
                            r = st.ret
                            if r[0] != 'a':
                                raise Undecided('yields %s' % show(r))
                            it = None if r[1] == 0 else tri_value(a, e, st, r[2][0])
                            m2 = {k: x for k, x in st.mem.items() if k[0] != 'L'}
                            nxt.append((m2, st.facts, items + [it]))
                        if not outs:
                            c.bad('iterator yields triangle or end', wh, 'no outcome at step %d of %d triangles' % (step, n), key='iterator:none')
                    cur = nxt
                for m, fa, items in cur:
                    want = [[T('elem', P, corner(i, k)) for k in range(3)] for i in ids] + [None, None]
                    c.expect([x is None for x in items] == [x is None for x in want], 'iterator yields one triangle per result triangle, then ends and stays ended [%d]' % n, wh,
                             'yields %s' % ''.join('-' if x is None else 'T' for x in items), key='iterator:number')
                    for i, (g, w) in enumerate(zip(items, want)):
                        if g is not None and w is not None:
                            c.expect(g == w, 'triangle %d of the iterator has the corners the index list names [%d]' % (i, n), wh, 'has %s' % ' '.join(map(show, g)), key='iterator:corners')
        with c.guard('iterator step', wh):
            v, mem, ids = concrete_result(a, None)
            o = ('P', 'self')
            # the cursor: the numbers among the fields
            cf_ = [i for i, t in enumerate(p.fields(a.TR)) if p.ty_s(t) == 'usize']
            if len(cf_) != 1:
                raise Undecided('no single cursor')
            k = cf_[0]
            if e_int(v[2][k]) != 0:
                c.bad('the iterator starts at the first triangle', wh, 'starts at %s' % show(v[2][k]), key='iterator:start')
            else:
                c.ok('the iterator starts at the first triangle', wh)
            fs = list(v[2])
            fs[k] = S('cur')
            mem[o] = ('a', 0, tuple(fs))
            e = Engine(p, max_states=2000, want_panics=True)
            outs = e.run(f['body'], [('r', o, ())], mem)
            n = T('len', R)
            for st in outs:
                m = st.facts.mask(S('cur'), n)
                after_ = st.mem[o]
                c2 = after_[2][k] if after_[0] == 'a' else None
                if st.ret[0] != 'a' or c2 is None:
                    raise Undecided('step of another form')
                if st.ret[1] == 0:
                    c.expect(not (m & LT), 'the iterator ends only after the last triangle', wh, 'ends while the cursor may be inside', key='iterator:end')
                    ok = st.facts.find(c2) == st.facts.find(S('cur')) or lin_add(c2, S('cur'), -1)[0] == 'i' and lin_add(c2, S('cur'), -1)[1] >= 0
                    c.expect(ok, 'the iterator stays ended', wh, 'cursor becomes %s' % show(c2), key='iterator:stay')
                else:
                    c.expect(m == LT, 'the iterator yields only while triangles are left', wh, 'yields with the cursor possibly outside', key='iterator:end')
                    c.expect(lin_add(c2, S('cur'), -1) == I(1), 'the iterator advances by one', wh, 'cursor becomes %s' % show(c2), key='iterator:advance')
                    g = tri_value(a, e, st, st.ret[2][0])
                    rid = T('fld', T('elem', R, S('cur')), 0, 0)
                    c.expect(g == [T('elem', P, corner(rid, j)) for j in range(3)], 'the iterator yields the triangle at the cursor', wh, 'yields %s' % ' '.join(map(show, g)), key='iterator:corners')
    for f in p.fns:
        m_ = re.match(r'^<(?:&mut |&)?cdt::Triangles<.*> as std::(?:iter::)?[\w:]*?(Iterator|DoubleEndedIterator|ExactSizeIterator)>::(\w+)$', f['path'])
        if f.get('body') and m_ and m_.group(2) != 'next':
            shortcut(c, a, fx, f, m_.group(2), lambda i, k: T('elem', P, corner(i, k)))
    if not fx:
        c.und('iterator', '', 'no function')
    return c.finish()


def taken(a, fx, n, k):
    """states of a result of n triangles after k steps of its iterator: (memory, facts, ids, place)"""
    if len(fx) != 1:
        raise Undecided('no single iterator step')
    v, mem, ids = concrete_result(a, n)
    o = ('P', 'self')
    mem[o] = v
    cur = [(mem, None)]
    for _ in range(k):
        nxt = []
        for m, fa in cur:
            e = Engine(a.p, max_states=2000, want_panics=True)
            e.force_unroll = BIG
            for st in e.run(fx[0]['body'], [('r', o, ())], m, fa):
                nxt.append(({k_: x for k_, x in st.mem.items() if k_[0] != 'L'}, st.facts))
        cur = nxt
    return [(dict(m), fa, ids, o) for m, fa in cur]


def shortcut(c, a, fx, f, name, pt):
    """an iterator method of the result's own: it must agree with repeated steps"""
    p = a.p
    wh = where(f['span'], f['path'])
    c.count('functions_analysed')
    byval = p.types[f['inputs'][0]]['k'] != 'ref'
    if name not in ('nth', 'count', 'last', 'size_hint', 'len'):
        c.und('iterator method %s' % name, wh, 'unmodelled')
        return

    def item(e, st, r):
        if r[0] != 'a':
            raise Undecided('gives %s' % show(r)[:100])
        return None if r[1] == 0 else tri_value(a, e, st, r[2][0])
    for n in (0, 1, 2, 3):
        for k in range(n + 2):
            for arg in range(n + 2) if name == 'nth' else (0,):
                with c.guard('iterator method %s' % name, wh):
                    left = max(n - k, 0)
                    for m, fa, ids, o in taken(a, fx, n, k):
                        want = [[pt(i, j) for j in range(3)] for i in ids][k:]
                        e = Engine(p, max_states=2000, want_panics=True)
                        e.force_unroll = BIG
                        sf = m[o] if byval else ('r', o, ())
                        outs = e.run(f['body'], [sf] + ([I(arg)] if name == 'nth' else []), m, fa)
                        nm = 'the iterator method %s agrees with taking one triangle after another [%d of %d taken]' % (name, min(k, n), n)
                        if not outs:
                            c.bad(nm, wh, 'no outcome', key='iterator:%s' % name)
                        for st in outs:
                            r = st.ret
                            if name in ('count', 'len'):
                                if r[0] != 'i':
                                    raise Undecided('gives %s' % show(r)[:100])
                                c.expect(r[1] == left, nm, wh, 'gives %d with %d triangles left' % (r[1], left), key='iterator:%s' % name)
                            elif name == 'size_hint':
                                lo, hi = (r[2] if r[0] == 'a' and len(r[2]) == 2 else (NONE, NONE))
                                if lo[0] != 'i' or hi[0] != 'a' or hi[1] == 1 and hi[2][0][0] != 'i':
                                    raise Undecided('gives %s' % show(r)[:100])
                                c.expect(lo[1] <= left and (hi[1] == 0 or left <= hi[2][0][1]), nm, wh, 'gives (%d, %s) with %d triangles left' % (lo[1], show(hi), left), key='iterator:%s' % name)
                            elif name == 'last':
                                c.expect(item(e, st, r) == (want[-1] if want else None), nm, wh, 'gives another triangle than the last', key='iterator:%s' % name)
                            else:
                                got = item(e, st, r)
                                w = want[arg] if arg < len(want) else None
                                c.expect(got == w, nm, wh, 'nth(%d) gives %s' % (arg, 'the end' if got is None else ' '.join(map(show, got))), key='iterator:nth')
                                m2 = {k_: x for k_, x in st.mem.items() if k_[0] != 'L'}
                                e2 = Engine(p, max_states=2000, want_panics=True)
                                e2.force_unroll = BIG
                                for st2 in e2.run(fx[0]['body'], [('r', o, ())], m2, st.facts):
                                    w = want[arg + 1] if arg + 1 < len(want) else None
                                    c.expect(item(e2, st2, st2.ret) == w, nm, wh, 'after nth(%d) the iterator goes on with another triangle' % arg, key='iterator:nth')


def e_int(v):
    return v[1] if v[0] == 'i' else None


def tri_value(a, e, st, v):
    v = deep(e, st, v)
    n = 0
    while v[0] == 'a' and len(v[2]) == 1 and n < 4:
        v = v[2][0]
        n += 1
    if v[0] != 'a' or len(v[2]) != 3:
        raise Undecided('triangle of another form')
    out = []
    for x in v[2]:
        if x[0] == 'a' and len(x[2]) == 2:
            y = x[2][0]
            if y[0] == 't' and y[1] == 'fld' and x == ('a', x[1], tuple(T('fld', y[2], 0, i) for i in range(2))):
                x = y[2]
        out.append(x)
    return out


# ------------------------------------------------------------------------ C08
def c08():
    c = Check('C08', 'Abstract interpretation of the functions that take an outline or a hole, on symbolic points of every relative order (lists of 3 to 5 points, ties in y included) and, by induction over the loop, '
              'on lists of any length: every consecutive pair and the closing pair is recorded once, with the later endpoint, naming the other; equal consecutive points end in a panic; steiner points get no segment.',
              ['coordinates are numbers that compare (no NaN)'])
    p = prog()
    a = Api(p)
    with c.guard('outlines'):
        outlines(c, a)
    with c.guard('repeated points'):
        repeats(c, a)
    with c.guard('steiner points'):
        steiner(c, a)
    with c.guard('endpoints of a segment'):
        endpoints(c, a)
    with c.guard('recording'):
        recording(c, a)
    with c.guard('outline of any length'):
        induction(c, a)
    with c.guard('problem'):
        synthetic_none(c, a)
    return c.finish()


def line_fns(a):
    """functions that take an outline or hole: decided by what a three point list does to the segments"""
    for f, own, rest in builder_fns(a):
        kinds = shape_of(f, own, rest, a)
        if kinds in (('source',), ('sources',)):
            yield f, own, rest, kinds


LINES = ('new', 'add_hole', 'add_holes')


def check_edges(c, a, e, st, f, own, lists, ranks, lab, wh, key):
    val = after(a, e, st, f, own)
    base, els, over, old = stored(a, e, st, val, 'edges', own)
    pb, pels, po, pold = stored(a, e, st, val, 'points', own)
    expect_base(c, st, base, old, over, '%s: segments of earlier points stay' % lab, wh, 'the list starts with %s%s' % (show(base) if base else 'nothing', '; %s overwritten' % show(over[0][0]) if over else ''), key=key)
    tot = sum(lists)
    if not c.expect(len(els) == tot, '%s: one entry per point' % lab, wh, '%d entries for %d points' % (len(els), tot), key=key):
        return
    n0 = a.fold(st, T('len', a.term(S('a%d' % own[0]), a.slot(a.B, 'points')))) if own else I(0)
    at = 0
    for n, rk in zip(lists, ranks):
        for i in range(n):
            got = a.edges_of(e, st, els[at + i])
            if got is None:
                x = unref(st, e, els[at + i])
                if x[0] == 't' and x[1] == 'elem' and old is not None and x[2] == old:
                    c.bad('%s: a new point does not take over segments of another' % lab, wh, 'point %d gets %s' % (at + i, show(x)), key=key)
                    continue
                raise Undecided('segments of a point: %s' % show(els[at + i]))
            want = []
            if rk is not None:
                for j in sorted({(i - 1) % n, (i + 1) % n}):
                    if rk[j] < rk[i]:
                        want.append(a.fold(st, lin_add(n0, I(at + j))))
            g = sorted(show(x) for x in got)
            w = sorted(show(x) for x in want)
            if any(x[0] not in ('i', 'lin') and not (is_term(x) and x == n0) for x in got):
                raise Undecided('identifier %s' % [show(x) for x in got])
            c.expect(g == w, '%s: each point is joined to its earlier neighbors in the outline' % lab, wh, 'point %d of order %s is joined to %s, expected %s' % (at + i, rk, g, w), key=key)
        at += n


def outlines(c, a):
    top = 5 if os.environ.get('VERIF_TIER') != 'thorough' else 6
    for f, own, rest, kinds in line_fns(a):
        short = f['path'].split('::')[-1]
        if short not in LINES:
            if 'steiner' not in short:
                c.und('segments by %s' % short, where(f['span'], f['path']), 'not known whether this supplies an outline')
            continue
        wh = where(f['span'], f['path'])
        c.count('functions_analysed')
        lab = 'segments by %s' % short
        todo = []
        if kinds == ('source',):
            todo += [(0, [])]
            for n in range(3, top + 1):
                todo += [(n, o) for o in orders(n, ties=n < 5)]
        else:
            todo += [((), [])] + [((3,), [o]) for o in orders(3)] + [((3, 3), [o, o]) for o in orders(3)] + [((3, 3), [o, o[::-1]]) for o in orders(3)] + [((0, 3), [[], o]) for o in orders(3)]
        for n, o in todo:
            with c.guard(lab, wh):
                lists = [n] if isinstance(n, int) else list(n)
                os_ = [o] if isinstance(n, int) else o

                def setup(facts):
                    for j, oo in enumerate(os_):
                        order_facts(a, facts, 'p' if isinstance(n, int) else 'q%d.' % j, oo)
                e, outs, names = run_step(a, f, own, rest, n, setup)
                c.count('runs')
                if not outs:
                    c.bad(lab, wh, 'different points of order %s are refused: %s' % (os_, [str(x.panic[1])[:60] for x in e.panics][:2]), key='refused:' + short)
                for st in outs:
                    with c.guard(lab, wh):
                        check_edges(c, a, e, st, f, own, lists, [[r for r, g in oo] for oo in os_], lab, wh, 'segments:' + short)


def repeats(c, a):
    for f, own, rest, kinds in line_fns(a):
        short = f['path'].split('::')[-1]
        if short not in LINES or kinds != ('source',):
            continue
        wh = where(f['span'], f['path'])
        for n in (3, 4):
            for i in range(n):
                pair = tuple(sorted((i, (i + 1) % n)))
                with c.guard('repeated points in %s' % short, wh):
                    def setup(facts):
                        order_facts(a, facts, 'p', [(k, k) for k in range(n)], same=()) if False else None
                        o = [(k if k != pair[1] else pair[0],) * 2 for k in range(n)]
                        order_facts(a, facts, 'p', o, same=(pair,))
                    e, outs, names = run_step(a, f, own, rest, n, setup)
                    c.count('runs')
                    c.expect(not outs and e.panics, 'equal neighbors in the list given to %s are refused' % short, wh, 'points %d and %d of %d are equal and a builder is returned' % (pair + (n,)), key='repeat:' + short)


def steiner(c, a):
    for f, own, rest in builder_fns(a):
        short = f['path'].split('::')[-1]
        kinds = shape_of(f, own, rest, a)
        if 'steiner' not in short and 'point' not in kinds:
            continue
        wh = where(f['span'], f['path'])
        c.count('functions_analysed')
        for n in ([0, 1, 2, 3] if kinds == ('source',) else [1]):
            lab = 'steiner points by %s' % short
            with c.guard(lab, wh):
                e, outs, names = run_step(a, f, own, rest, n, distinct(n))
                c.count('runs')
                for st in outs:
                    with c.guard(lab, wh):
                        check_edges(c, a, e, st, f, own, [n], [None], lab, wh, 'steiner:' + short)
                if not outs:
                    c.bad(lab, wh, 'no outcome', key='steiner:' + short)


def endpoints(c, a):
    """the segment constructor on all nine comparisons"""
    p = a.p
    fs = [f for f in p.fns if f.get('body') and 'inputs' in f and f['output'] == a.w.ED and len(f['inputs']) == 2 and not f.get('derived')]
    for f in fs:
        t = p.types[f['inputs'][0]]
        if t['k'] != 'tuple' or f['inputs'][0] != f['inputs'][1]:
            continue
        wh = where(f['span'], f['path'])
        c.count('functions_analysed')
        for my in (LT, EQ, GT):
            for mx in (LT, EQ, GT):
                with c.guard('endpoints of a segment', wh):
                    e = Engine(p, max_states=2000, want_panics=True)
                    mem = {('P', 'A'): a.point('A'), ('P', 'B'): a.point('B')}
                    args = [agg(agg(S('iA')), ('r', ('P', 'A'), ())), agg(agg(S('iB')), ('r', ('P', 'B'), ()))]
                    facts = Facts()
                    facts.assume(S('yA'), S('yB'), my)
                    facts.assume(S('xA'), S('xB'), mx)
                    outs = e.run(f['body'], args, mem, facts)
                    s = {LT: '<', EQ: '=', GT: '>'}
                    lab = 'endpoints of a segment [y%s x%s]' % (s[my], s[mx])
                    if my == EQ and mx == EQ:
                        c.expect(not outs, lab + ' refused', wh, 'a segment is made of two equal points', key='endpoints:equal')
                        continue
                    low = 'A' if my == LT or my == EQ and mx == LT else 'B'
                    if not outs:
                        c.bad(lab, wh, 'no segment is made', key='endpoints:none')
                    for st in outs:
                        r = st.ret
                        lo, hi = a.id_of(e, st, r[2][a.w.ep]), a.id_of(e, st, r[2][a.w.eq])
                        c.expect((lo, hi) == (S('i' + low), S('i' + ('B' if low == 'A' else 'A'))), lab, wh, 'lower %s, higher %s' % (show(lo), show(hi)), key='endpoints')


def recording(c, a):
    """adding to the segments of one point; reading them back"""
    p = a.p
    inv = {n: k for k, n in a.w.var.items()}
    for f in p.fns:
        if not f.get('body') or 'inputs' not in f or f.get('derived'):
            continue
        ins = f['inputs']
        wh = where(f['span'], f['path'])
        if len(ins) == 2 and p.deref_ty(ins[0]) == a.PE and ins[1] == a.PI:
            c.count('functions_analysed')
            for n in (0, 1, 2):
                with c.guard('recording a segment', wh):
                    e = Engine(p, max_states=2000, want_panics=True)
                    o = ('P', 's')
                    mem = {o: ('a', inv[n], tuple(agg(S('o%d' % i)) for i in range(n)))}
                    outs = e.run(f['body'], [('r', o, ()), agg(S('new'))], mem)
                    if n == 2:
                        for st in outs:
                            c.bad('a third segment is refused', wh, 'it is dropped or replaces another', key='recording:third')
                        continue
                    if not outs:
                        c.bad('recording a segment [%d present]' % n, wh, 'refused', key='recording:refused')
                    for st in outs:
                        got = a.edges_of(e, st, st.mem[o])
                        if got is None:
                            raise Undecided('segments of a point')
                        c.expect(sorted(map(show, got)) == sorted(['new'] + ['o%d' % i for i in range(n)]), 'recording a segment keeps the others [%d present]' % n, wh, 'recorded %s' % [show(x) for x in got], key='recording')
        if len(ins) == 1 and p.deref_ty(ins[0]) == a.PE and f['path'].endswith('::next'):
            c.count('functions_analysed')
            for n in (0, 1, 2):
                with c.guard('reading segments', wh):
                    o = ('P', 's')
                    mem = {o: ('a', inv[n], tuple(agg(S('o%d' % i)) for i in range(n)))}
                    cur = [(mem, [])]
                    for step in range(n + 1):
                        nxt = []
                        for m, items in cur:
                            e = Engine(p, max_states=2000, want_panics=True)
                            for st in e.run(f['body'], [('r', o, ())], m):
                                r = st.ret
                                if r[0] != 'a':
                                    raise Undecided('yields %s' % show(r))
                                nxt.append(({o: st.mem[o]}, items + [None if r[1] == 0 else show(a.id_of(e, st, r[2][0]))]))
                        cur = nxt
                    for m, items in cur:
                        c.expect(items[-1] is None and sorted(map(str, items[:-1])) == ['o%d' % i for i in range(n)], 'every recorded segment is read once [%d]' % n, wh, 'reads %s' % items, key='reading')


def induction(c, a):
    """the loop over the points of an outline, for any number of points"""
    p = a.p
    pb = [t for i, t in enumerate(p.fields(a.B)) if p.types[t]['k'] == 'adt' and p.types[t].get('crate') == 'poly2tri_rs']
    fs = [f for f in p.fns if f.get('body') and 'inputs' in f and len(f['inputs']) == 2 and p.ty_s(f['inputs'][0]) == '&[shape::Point]' and pb and p.deref_ty(f['inputs'][1]) == pb[0]]
    edge = [f for f in p.fns if f.get('body') and 'inputs' in f and f['output'] == a.w.ED and len(f['inputs']) == 2 and p.types[f['inputs'][0]]['k'] == 'tuple']
    push = [f for f in p.fns if f.get('body') and 'inputs' in f and len(f['inputs']) == 2 and p.deref_ty(f['inputs'][0]) == a.PE and f['inputs'][1] == a.PI]
    if len(fs) != 1 or len(edge) != 1 or len(push) != 1:
        raise NoAnchor('the function over an outline')
    f = fs[0]
    wh = where(f['span'], f['path'])
    e = Engine(p, max_states=20000, want_panics=True)
    e.force_unroll = 3

    def enew(ctx):
        st = ctx.st
        prs = tuple(pair(ctx.st, e, x) for x in ctx.args)
        k = sum(1 for x in flat(st.events) if x[0] == 'edge')
        st.ev('edge', prs, ctx.where())
        out = [None, None]
        out[a.w.ep], out[a.w.eq] = agg(T('low', *flatpair(prs))), agg(T('high', *flatpair(prs)))
        return ('a', 0, tuple(out))

    def pu(ctx):
        ctx.st.ev('attach', ctx.args[0], unref(ctx.st, e, ctx.args[1]), ctx.where())
        return UNIT
    e.hooks[edge[0]['path']] = enew
    e.hooks[push[0]['path']] = pu
    args, mem = e.sym_args(f['body'], ['poly', 'pb'])
    facts = Facts()
    se = [pl for pl, w in a.slots(pb[0]) if w == 'edges'][0]
    sp = [pl for pl, w in a.slots(pb[0]) if w == 'points'][0]
    PP, EE = a.term(S('pb'), sp), a.term(S('pb'), se)
    facts.assume(T('len', PP), T('len', EE), EQ)
    facts.log = ()
    outs = e.run(f['body'], args, mem, facts)
    c.count('functions_analysed')
    n = T('len', S('poly'))
    POLY = S('poly')
    loops = [(l, ss) for l, ss in e.loop_summ.items() if any(any(x[0] in ('edge', 'attach') for x in b.events) for s in ss for b in s['backs'] + s['exits'])]
    if len(loops) != 1:
        raise Undecided('%d loops record segments' % len(loops))
    lid, ss = loops[0]
    s = ss[-1]
    K = S(lid + ':K')

    def place(st, pr):
        """index in the outline of a (identifier, point) pair"""
        pid, pt = (resolve(e, st, x) for x in pr)
        while pid[0] == 'a' and len(pid[2]) == 1:
            pid = pid[2][0]
        pid = a.fold(st, pid)
        pt = unref(st, e, pt) if pt[0] == 'r' else pt
        if pt[0] != 't' or pt[1] != 'elem' or pt[2] != POLY:
            if pt[0] == 'r' and pt[1][0] == 'E':
                pt = T('elem', POLY, pt[1][2])
            else:
                raise Undecided('point %s' % show(pt))
        i = pt[3]
        d = a.fold(st, lin_add(lin_add(pid, i, -1), a.fold(st, T('len', PP)), -1))
        return i, d

    # iterations: the pair (j, j+1) in iteration j, entered with j = 0
    entry, head = s['entry'], s['head']
    if len(s['backs']) != 1:
        raise Undecided('%d ways through the loop' % len(s['backs']))
    b = s['backs'][0]
    eds = [x for x in b.events if x[0] == 'edge']
    if len(eds) != 1:
        c.expect(len(eds) == 0 and False, 'one segment per iteration', wh, '%d segments in one iteration' % len(eds), key='any:number')
        return
    # symbols of the head that stand for what is carried from one iteration to the next
    carried = {}
    for o, v in head.mem.items():
        if is_term(v) and v[0] == 's' and v[1].startswith(lid + ':'):
            carried[v] = o

    def at_state(st):
        m = {}
        for sym, o in carried.items():
            if o in st.mem:
                m[sym] = st.mem[o]
        return m
    first = at_state(entry)
    # what the loop carries, as a pair of the outline: entry and after an iteration
    x = eds[0]
    held = [q for q in x[1] if any(sym in syms(z) for z in q for sym in carried)]
    new = [q for q in x[1] if q not in held]
    if len(held) != 1 or len(new) != 1:
        raise Undecided('carried pair')
    sub0 = {k: v for k, v in first.items()}
    st0 = entry
    h0 = tuple(subst_ref(z, sub0) for z in held[0])
    i0, d0 = place(st0, h0)
    ni, nd = place(b, new[0])
    # in the first iteration the counter is zero
    i1 = subst(ni, {K: I(0)})
    c.expect(d0 == I(0) and same_upto(st0, i0, I(0)) and same_upto(st0, i1, I(1)), 'the first segment joins the first two points', wh, 'joins %s and %s' % (show(i0), show(i1)), key='any:first')
    m1 = at_state(b)
    h1 = tuple(subst_ref(z, m1) for z in held[0])
    hi_, hd = place(b, h1)
    c.expect(hd == I(0) and nd == I(0) and same_upto(b, hi_, ni), 'each segment starts where the one before ends', wh, 'carries point %s after joining point %s' % (show(hi_), show(ni)), key='any:chain')
    step = lin_add(subst(ni, {K: lin_add(K, I(1))}), ni, -1)
    c.expect(step == I(1), 'the outline is followed point by point', wh, 'advances by %s' % show(step), key='any:step')
    # recorded correctly in the iteration
    lo, hi = T('low', *flatpair(x[1])), T('high', *flatpair(x[1]))
    ats = [y for y in b.events if y[0] == 'attach']
    if len(ats) != 1 or ats[0][1][0] != 'r' or ats[0][1][1][0] != 'E':
        c.expect(len(ats) == 1, 'one record per segment', wh, '%d records' % len(ats), key='any:records')
    else:
        y = ats[0]
        val = y[2]
        while val[0] == 'a' and len(val[2]) == 1:
            val = val[2][0]
        c.expect(b.facts.find(y[1][1][2]) == b.facts.find(hi) and val == lo, 'a segment is recorded with the later endpoint, naming the other', y[3], 'recorded with %s, naming %s' % (show(y[1][1][2]), show(val)), key='any:record')
    # after the loop: the closing segment, last with first
    for st in outs:
        with c.guard('closing segment', wh):
            evs = [x for x in st.events if x[0] in ('edge', 'attach')]
            inl = [x for x in st.events if x[0] == 'loop' and x[1] == lid]
            if not inl:
                z = a.fold(st, n)
                c.expect(z == I(0) and not evs, 'without points there is no segment', wh, 'no loop over %s points' % show(z), key='any:empty')
                continue
            eds2 = [x for x in evs if x[0] == 'edge']
            ats2 = [x for x in evs if x[0] == 'attach']
            c.expect(len(eds2) == 1 and len(ats2) == 1, 'one closing segment', wh, '%d segments after the loop' % len(eds2), key='any:close')
            if len(eds2) != 1 or len(ats2) != 1:
                continue
            x = eds2[0]
            hold = [q for q in x[1] if q == held[0] or any(sym in syms(z) for z in q for sym in carried)]
            oth = [q for q in x[1] if q not in hold]
            if len(hold) != 1 or len(oth) != 1:
                c.bad('the closing segment joins the last point with the first', wh, 'joins %s' % [tuple(map(show, q)) for q in x[1]], key='any:closing')
                continue
            oi, od = place(st, oth[0])
            c.expect(od == I(0) and same_upto(st, oi, I(0)), 'the closing segment ends at the first point', wh, 'ends at point %s' % show(oi), key='any:closing')
            # the carried pair at the exit is the last point: point K, where the loop ends as point K+1 does not exist
            left = a.fold(st, lin_add(n, subst(ni, {}), -1))
            c.expect(left == I(0), 'the loop ends after the last point', wh, 'ends with %s points left' % show(left), key='any:all')
            y = ats2[0]
            lo, hi = T('low', *flatpair(x[1])), T('high', *flatpair(x[1]))
            val = y[2]
            while val[0] == 'a' and len(val[2]) == 1:
                val = val[2][0]
            if y[1][0] == 'r' and y[1][1][0] == 'E':
                c.expect(st.facts.find(y[1][1][2]) == st.facts.find(hi) and val == lo, 'the closing segment is recorded with the later endpoint, naming the other', y[3], 'recorded with %s, naming %s' % (show(y[1][1][2]), show(val)), key='any:record')


def syms(v, out=None):
    out = set() if out is None else out
    if isinstance(v, tuple):
        if len(v) == 2 and v[0] == 's':
            out.add(v)
        else:
            for x in v:
                if isinstance(x, tuple):
                    syms(x, out)
    return out


def subst_ref(v, m):
    if v[0] == 'r':
        return ('r', tuple(subst(x, m) if isinstance(x, tuple) and x and isinstance(x[0], str) else x for x in v[1]), v[2])
    v = subst(v, m)
    return project(v)


def project(v):
    """fields of known values"""
    if v[0] == 't' and v[1] == 'fld':
        b = project(v[2])
        if b[0] == 'a' and v[4] < len(b[2]):
            return b[2][v[4]]
        return T('fld', b, v[3], v[4])
    return v


def resolve(e, st, v, depth=0):
    """elements of lists collected from a sequence, by what was put at that place"""
    if depth > 6:
        return v
    if v[0] == 't' and v[1] == 'fld':
        b = resolve(e, st, v[2], depth + 1)
        if b[0] == 'r':
            b = unref(st, e, b)
        if b[0] == 'a' and v[4] < len(b[2]):
            return resolve(e, st, b[2][v[4]], depth + 1)
        return T('fld', b, v[3], v[4])
    if v[0] == 't' and v[1] == 'elem' and v[2][0] == 't' and v[2][1] == 'rep':
        sg = segments(e, v[2])
        if len(sg) == 1 and sg[0][0] == 'rep' and len(sg[0][3]) == 1 and len(sg[0][3][0]) == 1:
            return resolve(e, st, subst_ref(sg[0][3][0][0], {sg[0][1]: v[3]}), depth + 1)
    return v


def pair(st, e, v):
    """(identifier, point) of a pair value"""
    v = unref(st, e, v)
    if v[0] == 'a':
        return tuple(v[2])
    return (T('fld', v, 0, 0), T('fld', v, 0, 1))


def flat(evs):
    for x in evs:
        if x[0] == 'loop':
            for alt in x[2]:
                yield from flat(alt)
        else:
            yield x


def flatpair(prs):
    out = []
    for q in prs:
        for z in q:
            while z[0] == 'a' and len(z[2]) == 1:
                z = z[2][0]
            out.append(z if is_term(z) or z[0] in ('i', 'lin') else S(repr(z)))
    return out


def synthetic_none(c, a):
    c2 = Check('C08', '')
    synthetic(c2, a)
    for o in c2.obl:
        if 'segment' in o[0] or 'carry' in o[0] or o[1] == 'undecided':
            c.obl.append(o)


CHECKS = {'C05': c05, 'C06': c06, 'C07': c07, 'C08': c08}
