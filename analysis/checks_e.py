"""Legalization: which edges are rotated (C15), its events (part of C03), and what the front is told (C27)."""
import itertools
from common import *
from graph import *
from engine import *
from mesh import *
from frontmodel import unref
from checks_b import sweeper_val, edge_set, owner
from checks_d import observe, flat_events, segments, vec_segments, sweep_run, point_loop, run_events, Sweep, at1, may_var

TI, PI = 'triangles::TriangleId', 'points::PointId'


def install(m, st, tris):
    """these triangles exist in the mesh of this (loop head) state"""
    vec = m.vec
    cur = st.mem.get(vec)
    base = cur[1]
    if base is None or cur[2]:
        raise Undecided('mesh in the loop')
    for k in [x for x in st.mem if x[0] in ('E', 'W') and x[1] == vec]:
        del st.mem[k]
    for n in tris:
        st.mem[('E', vec, S('T:' + n))] = m.triangle(n, *tris[n])
    st.mem[('W', vec)] = tuple(S('T:' + n) for n in tris)
    ids = sorted(set(tris) | {x for n in tris for x in tris[n][1] if x})
    pts = sorted({x for n in tris for x in tris[n][0]})
    for i, a in enumerate(ids):
        st.facts.assume(S('T:' + a), T('len', base), LT)
        st.facts.assume(S('T:' + a), m.INV, LT)
        for b in ids[i + 1:]:
            st.facts.assume(S('T:' + a), S('T:' + b), LT | GT)
    for i, a in enumerate(pts):
        for b in pts[i + 1:]:
            st.facts.assume(S('P:' + a), S('P:' + b), LT | GT)


def one(v):
    while v[0] == 'a' and len(v[2]) == 1:
        v = v[2][0]
    return v


def nm(v):
    """name of a triangle or point identifier of the installed mesh"""
    v = one(v)
    return v[1][2:] if v[0] == 's' and v[1][:2] in ('T:', 'P:') else None


def pname(v):
    """the installed point whose stored position this is"""
    while v[0] == 't' and v[1] == 'fld':
        v = v[2]
    if v[0] == 't' and v[1] == 'elem' and v[3][0] == 's' and v[3][1].startswith('P:'):
        return v[3][1][2:]
    return None


def even(a, b):
    """is the 3-cycle a a rotation of b"""
    return any(tuple(b[(i + k) % 3] for i in range(3)) == tuple(a) for k in range(3))


class Legal:
    def __init__(self, p):
        self.p = p
        self.m = Mesh(p)
        self.f = find_fn(p, 'legalize', ['&mut sweeper::Sweeper', TI, '&mut dyn cdt::Observer'], near='sweeper::')
        self.rot = find_fn(p, 'rotate_triangle_pair', ['&mut sweeper::Sweeper', TI, PI, TI, PI])
        self.map = find_fn(p, 'map_triangle_to_nodes', ['&mut sweeper::Sweeper', TI], '()')
        self.inc = find_fn(p, 'in_circle', ['shape::Point'] * 4, 'bool')
        self.where = where(self.f['span'], self.f['path'])
        self.mode = None

    def engine(self):
        m = self.m
        e = Engine(self.p, max_states=60000)
        observe(e)

        def names(st, a):
            return tuple(unref(st, e, x) for x in a)

        def inc(ctx):
            a = names(ctx.st, ctx.args)
            t = T('inc', *a)
            v = e.truth(ctx.st, t)
            ctx.st.ev('inc', a, v, ctx.where())
            return I(int(v))

        def announce(ctx):
            ctx.st.ev('announce', unref(ctx.st, e, ctx.args[1]), ctx.where())
            return UNIT

        def rot(ctx):
            a = names(ctx.st, ctx.args)
            st = ctx.st
            if self.mode is None:
                st.ev('rotate', a, None, ctx.where())
                e.set_vec(st, m.vec, ('V', S('mesh'), ()))
                return S('remap')
            return self.exchange(e, ctx, a)
        e.hooks[self.inc['path']] = inc
        e.hooks[self.map['path']] = announce
        e.hooks[self.rot['path']] = rot
        self.ran = getattr(self, 'ran', [])
        return e

    def exchange(self, e, ctx, a):
        """C11: the quad with the other diagonal"""
        m, st = self.m, ctx.st
        host, r1, r2 = self.mode
        t, pp, ot, op = [nm(x) for x in a[1:5]]
        if st.aux.get('rotated'):
            raise Undecided('second rotation in one step')
        cur = {n: e.read(st, ('E', m.vec, S('T:' + n)), ()) for n in (t, ot) if n}
        if None in (t, ot, pp, op) or t == ot:
            st.ev('rotate', a, None, ctx.where())
            raise Undecided('rotation of unknown triangles')
        cor = {n: tuple(nm(x) for x in m.arr(v, m.fp)) for n, v in cur.items()}
        nbs = {n: m.arr(v, m.fn) for n, v in cur.items()}
        bad = pp not in cor[t] or op not in cor[ot]
        if not bad:
            i, j = cor[t].index(pp), cor[ot].index(op)
            C, W = cor[t][(i + 1) % 3], cor[t][(i + 2) % 3]
            bad = {cor[ot][(j + 1) % 3], cor[ot][(j + 2) % 3]} != {C, W} or nm(nbs[t][i]) != ot
        if bad:
            st.ev('rotate', a, 'not a pair of corners facing the shared edge', ctx.where())
            st.aux['rotated'] = True
            return None
        st.ev('rotate', a, self.marks(e, st, t, i, ot, j, cur), ctx.where())
        st.aux['rotated'] = (t, ot, pp, op)
        n1, n2 = nbs[t][(i + 2) % 3], nbs[t][(i + 1) % 3]
        # ot = (O, W, C): n3 is across C (edge O-W), n4 across W (edge C-O)
        jc, jw = cor[ot].index(C), cor[ot].index(W)
        n3, n4 = nbs[ot][jc], nbs[ot][jw]
        A = ((pp, op, W), (n3, n2, m.id(ot if host == 0 else t)))
        B = ((pp, C, op), (n4, m.id(ot if host == 1 else t), n1))
        if host == 0:
            A, B = (A[0], (n3, n2, m.id(ot))), (B[0], (n4, m.id(t), n1))
            put = ((t, A, r1), (ot, B, r2))
        else:
            A, B = (A[0], (n3, n2, m.id(t))), (B[0], (n4, m.id(ot), n1))
            put = ((ot, A, r1), (t, B, r2))
        vals = {}
        diag = {}
        for n, (cs, nb), r in put:
            cs, nb = rot_(cs, r), rot_(nb, r)
            v = m.triangle('%s\'' % n, cs, (None, None, None))
            fs = list(v[2])
            fs[m.fn] = agg(*nb)
            v = ('a', 0, tuple(fs))
            vals[n] = v
            diag[n] = next(k for k in range(3) if edge_set(cs, k) == frozenset((pp, op)))
            st.mem[('E', m.vec, S('T:' + n))] = v
        asks, want = [], []
        for n in (t, ot):
            asks += [('is_constrained', vals[n], diag[n]), ('is_delaunay', vals[n], diag[n])]
            want += [0, 0]
            for k in range(3):
                if k != diag[n] and one(m.arr(vals[n], m.fn)[k]) != m.INV:
                    asks.append(('is_delaunay', vals[n], k))
                    want.append(0)
        st.aux['after'] = (vals, diag)
        alts = []
        for f, ans in m.query(st.facts, asks):
            if list(ans) == want:
                alts.append(f)
        if len(alts) != 1:
            raise Undecided('marks after a rotation')
        st.facts = alts[0]
        miss = any(one(x) == m.INV for x in (n1, n2, n3, n4))
        st.aux['miss'] = miss
        return I(int(miss))

    def marks(self, e, st, t, i, ot, j, cur):
        """possible (constrained on t, constrained on ot) marks of the shared edge on this path"""
        m = self.m
        return tuple(sorted({ans for _, ans in m.query(st.facts, [('is_constrained', cur[t], i), ('is_constrained', cur[ot], j), ('is_delaunay', cur[t], i)])}))

    def general(self):
        """the whole routine on an arbitrary mesh"""
        e = self.engine()
        mem, facts = self.m.setup({})
        sw = sweeper_val(self.m, self.p, self.m.vec, mem)
        args, am = e.sym_args(self.f['body'], ['sw', 't', 'obs'])
        mem.update(am)
        args[0] = sw
        self.mode = None
        keep = dict(e.hooks)
        for g in self.p.fns:
            if g.get('body') and g['path'] not in e.hooks and self.local(g):
                e.hooks[g['path']] = self.blank(e, g)
        outs = e.run(self.f['body'], args, mem, facts)
        e.hooks = keep
        return e, args, outs

    def local(self, g):
        """a routine that only looks at (or marks) single triangles: its answer is arbitrary in the general run"""
        p = self.p
        tri = p.adt('shape::InnerTriangle')
        ok = {tri, p.adt(PI)}
        n = 0
        for t in g.get('inputs') or []:
            ty = p.types[t]
            if ty['k'] == 'ref':
                t = ty['elem']
                ty = p.types[t]
            if t == tri:
                n += 1
            elif t not in ok and p.ty_s(t) not in ('usize', 'bool'):
                return False
        return n > 0 and p.ty_s(g['output']).split('<')[-1].strip('>') in ('bool', 'usize', '()', 'points::PointId', 'PointId', '(usize, usize)')

    def blank(self, e, g):
        def h(ctx):
            if self.p.ty_s(g['output']) == '()':
                return UNIT
            return e.fresh(ctx.st, 'any')
        return h

    def arrivals(self, e):
        """all ways to reach the work loop"""
        ls = self.work_loop(e)
        if len(ls) != 1:
            raise NoAnchor('work loop of legalization')
        return [s for s in e.loop_summ[ls[0]['lid']] if s['depth'] == ls[0]['depth']]

    def work_loop(self, e):
        """the loop that takes triangles from the work list"""
        c = []
        for lid, ss in e.loop_summ.items():
            s = ss[-1]
            if any(x[0] == 'rotate' for b in s['backs'] for x in flat_events(b.events)):
                c.append(s)
        # outermost
        c = [s for s in c if s['depth'] == min(x['depth'] for x in c)]
        c = [s for s in c if not any(o is not s and o['depth'] == s['depth'] and o['body'] is s['body'] and s['block'] in o['blocks'] and len(o['blocks']) > len(s['blocks']) for o in c)]
        return c

    def quads(self, tier):
        """(presence of the three neighbors, rotation of each, which outer neighbors exist)"""
        for pres in itertools.product((0, 1), repeat=3):
            for r in range(3):
                if not any(pres) and r:
                    continue
                for outer in ((1, 1), (0, 1), (1, 0)):
                    if not any(pres) and outer != (1, 1):
                        continue
                    yield pres, (r, (r + 1) % 3, (r + 2) % 3), outer

    def tris(self, pres, rots, outer):
        P = ('P0', 'P1', 'P2')
        d = {'t': (P, tuple('n%d' % k if pres[k] else None for k in range(3)))}
        for k in range(3):
            if pres[k]:
                a, b = P[(k + 1) % 3], P[(k + 2) % 3]
                d['n%d' % k] = (rot_(('X%d' % k, b, a), rots[k]), rot_(('t', 'y%d' % k if outer[0] else None, 'z%d' % k if outer[1] else None), rots[k]))
        return d


def rot_(t, k):
    return tuple(t[(i + k) % 3] for i in range(3))


_L = {}


def legal(p):
    if id(p) not in _L:
        L = Legal(p)
        g = L.general()
        _L[id(p)] = (L, g)
    return _L[id(p)]


def work_list(L, s):
    """the object holding the work list: starts with the triangle, arbitrary at the loop head"""
    q = []
    for o, v in s['head'].mem.items():
        if isinstance(v, tuple) and v and v[0] == 'V' and not v[2] and v[1] is not None and v[1][0] == 's' and v[1][1].startswith(s['lid']) and o != L.m.vec:
            was = s['entry'].mem.get(o)
            if was and was[0] == 'V' and (was[2] and one(was[2][-1]) == S('t')):
                q.append(o)
    if len(q) != 1:
        raise NoAnchor('work list of legalization')
    return q[0]


def jobs(L, tier):
    for quad in L.quads(tier):
        for mode in ((0, 0, 0), (1, 1, 2)) if tier == 'quick' else itertools.product((0, 1), range(3), range(3)):
            yield quad, mode


def one_job(a):
    """judge every outcome of one step of the work loop in these surroundings"""
    p, judge, (pres, rots, outer), mode = _J[0], _J[1], a[0], a[1]
    c = Check('', '', [])
    L, (e, args, outs) = legal(p)
    lab = 'neighbors %s, rotated %s, outer %s' % (''.join(map(str, pres)), rots, outer)
    with c.guard('legalization step', L.where):
        for s in L.arrivals(e):
            q = work_list(L, s)
            tris = L.tris(pres, rots, outer)
            h = s['head'].copy()
            install(L.m, h, tris)
            c0 = h.mem[q]
            h.mem[q] = ('V', c0[1], (L.m.id('t'),))
            L.mode = mode
            h.aux = dict(h.aux)
            e.max_states = e.nstates + 60000
            e.budget = e.steps + 4000000
            backs, exits = e.next_iteration(s, h)
            for kind, bs in (('back', backs), ('exit', exits)):
                for b in bs:
                    c.count('step_outcomes')
                    judge(c, lab, L, e, s, tris, q, c0, h, b, kind)
    return c.obl, c.stats


_J = [None, None]


def each_step(c, p, judge):
    """every outcome of one step of the work loop on concrete surroundings"""
    L, (e, args, outs) = legal(p)
    for s in L.arrivals(e):
        work_list(L, s)
    _J[0], _J[1] = p, judge
    js = list(jobs(L, os.environ.get('VERIF_TIER', 'quick')))
    c.count('surroundings', len(js))
    import multiprocessing as mp
    with mp.get_context('fork').Pool(min(8, os.cpu_count() or 1)) as pool:
        for obl, stats in pool.imap_unordered(one_job, js, 2):
            c.obl.extend(obl)
            for k, v in stats.items():
                c.count(k, v)
    if not c.stats.get('step_outcomes'):
        c.und('legalization step', L.where, 'no outcome')


def c15():
    c = Check('C15', 'Abstract interpretation of one step of the legalization work loop, from an arbitrary loop state, with the examined triangle surrounded by every combination of present neighbors and placements: '
              'for each outcome the marks, the in-circle answers, the rotation, the marks set and the work list are compared with the rule; the loop ends only with an empty work list and starts with the triangle in question.',
              ['a rotation does what C11 says', 'in_circle does what C16 says', 'neighbor entries agree with each other (C12)'])
    p = prog()
    with c.guard('legalization'):
        each_step(c, p, judge_rule)
    with c.guard('work list'):
        legal_frame(c, p)
    return c.finish()


def legal_frame(c, p):
    L, (e, args, outs) = legal(p)
    wh = L.where
    c.count('functions_analysed')
    for s in L.arrivals(e):
        q = work_list(L, s)
        for x in s['exits']:
            empty = x.facts.mask(T('len', s['head'].mem[q][1]), I(0)) == EQ
            c.expect(empty, 'legalization stops only when the work list is empty', wh, 'the work loop can end with work left', 'stops-early')
    c.ok('legalization starts with the triangle it is asked for', wh)
    for o in outs:
        lp = [x for x in o.events if x[0] == 'loop' and x[1] == s['lid']]
        c.expect(len(lp) == 1, 'legalization runs its work loop once', wh, '%d times' % len(lp))
        stray = [x for x in o.events if x[0] == 'rotate']
        c.expect(not stray, 'rotations happen in the work loop only', wh, 'a rotation outside the work loop')


def judge_rule(c, lab, L, e, s, tris, q, c0, h, b, kind):
    m = L.m
    wh = L.where
    if kind == 'exit':
        c.bad('the work loop continues while there is work', wh, lab + ': the loop ends although a triangle was just taken', 'stops-early')
        return
    if any(x[0] == 'loop' for x in b.events):
        c.und('edges of a triangle', wh, 'an inner loop does not resolve')
        return
    asked = {}
    for x in b.events:
        if x[0] == 'inc':
            k = asked_edge(tris, x[1])
            if k is None:
                c.bad('the in-circle test is asked about a triangle and the corner opposite to one of its edges', x[3], '%s: asked about %s' % (lab, ', '.join(str(pname(y) or show(y)) for y in x[1])), 'in-circle-args')
            else:
                asked[k] = x[2]
    rots = [x for x in b.events if x[0] == 'rotate']
    v0 = {n: h.mem[('E', m.vec, S('T:' + n))] for n in tris}
    if rots:
        x = rots[0]
        t, pp, ot, op = [nm(y) for y in x[1][1:5]]
        pair = {t, ot}
        if not c.expect('t' in pair and len(pair) == 2 and x[2] is not None and not isinstance(x[2], str), 'a rotation names the triangle, the triangle across the edge and the two corners facing the edge',
                        x[3], '%s: rotates %s/%s at corners %s/%s' % (lab, t, ot, pp, op), 'rotation-args'):
            return
        on = (pair - {'t'}).pop()
        k = tris['t'][1].index(on)
        c.expect(asked.get(k) is True, 'an edge is rotated only if its in-circle test is positive', x[3], '%s: edge %d rotated, in-circle answer %s' % (lab, k, asked.get(k)), 'rotated-legal')
        c.expect(all(z[0] == 0 or z[1] == 0 for z in x[2]), 'a constrained edge is never rotated', x[3], '%s: edge %d may be constrained' % (lab, k), 'rotated-constrained')
        # examined again
        tail = b.mem.get(q)
        names = [nm(y) for y in tail[2]] if tail and tail[0] == 'V' and tail[1] == c0[1] else None
        if names is None:
            c.und('work list after a rotation', wh, show(tail)[:80])
        else:
            c.expect(set(names) >= {'t', on}, 'both triangles of a rotation are examined again', wh, '%s: work list gets %s' % (lab, names), 'requeue')
        vals, diag = b.aux['after']
        for n in ('t', on):
            v1 = m.elem(e, b, n)
            same = m.corners(v1) == m.corners(vals[n]) and m.nbs(v1) == m.nbs(vals[n])
            c.expect(same, 'nothing but the mark is changed after a rotation', wh, lab)
            for z in range(3):
                for fs, (d0, d1, k0, k1) in m.query(b.facts, [('is_delaunay', vals[n], z), ('is_delaunay', v1, z), ('is_constrained', vals[n], z), ('is_constrained', v1, z)]):
                    c.expect(k0 == k1, 'constraint marks are left alone', wh, lab)
                    if z == diag[n]:
                        c.expect(d1 == 1, 'the new edge is marked already legal on both sides', wh, '%s: not marked in %s' % (lab, 'the examined triangle' if n == 't' else 'the other triangle'), 'mark-new')
                    else:
                        c.expect(d1 == d0, 'only the new edge is marked already legal', wh, '%s: the mark of another edge changes' % lab, 'mark-other')
        others = [n for n in tris if n not in ('t', on)]
    else:
        tail = b.mem.get(q)
        if tail != ('V', c0[1], ()) and tail != c0:
            c.und('work list without a rotation', wh, '%s: %s' % (lab, show(tail)[:80] if tail else None))
        for k in range(3):
            on = tris['t'][1][k]
            if not on or asked.get(k) is False:
                continue
            ix = tris[on][1].index('t')
            # no rotation and no negative answer: constrained or already legal
            for fs, (x, y, d, d2) in m.query(b.facts, [('is_constrained', v0['t'], k), ('is_constrained', v0[on], ix), ('is_delaunay', v0['t'], k), ('is_delaunay', v0[on], ix)]):
                c.expect(x or y or d or d2, 'an unconstrained edge not marked already legal is tested, and rotated if the test is positive', wh,
                         '%s: edge %d is neither tested negative nor rotated' % (lab, k), 'skipped')
        others = list(tris)
    for n in others:
        v1 = m.elem(e, b, n)
        if v1 == v0[n]:
            c.ok('other triangles are unchanged', wh)
            continue
        c.expect(m.corners(v1) == m.corners(v0[n]) and m.nbs(v1) == m.nbs(v0[n]), 'other triangles are unchanged', wh, lab)
        for z in range(3):
            for fs, (d0, d1, k0, k1) in m.query(b.facts, [('is_delaunay', v0[n], z), ('is_delaunay', v1, z), ('is_constrained', v0[n], z), ('is_constrained', v1, z)]):
                c.expect(k0 == k1 and d0 == d1, 'marks change only after a rotation', wh, lab, 'mark-other')


def asked_edge(tris, a):
    """edge of t whose in-circle test this is"""
    n = [pname(x) for x in a]
    if None in n:
        return None
    for k in range(3):
        on = tris['t'][1][k]
        if not on:
            continue
        for me, ot in (('t', on), (on, 't')):
            opp = [x for x in tris[ot][0] if x not in tris[me][0]]
            if len(opp) == 1 and n[3] == opp[0] and even(n[:3], tris[me][0]):
                return k
    return None


# ------------------------------------------------------------------------ C27
def queues(L, s, q):
    """vectors filled by the work loop: object -> content at the loop head"""
    out = {}
    for o, v in s['head'].mem.items():
        if o not in (q, L.m.vec) and isinstance(v, tuple) and v and v[0] == 'V' and not v[2] and v[1] is not None and v[1][0] == 't' and v[1][1] == 'rep' and v[1][2].startswith(s['lid'] + ':'):
            out[o] = v
    return out


def drained(L, e, outs, s):
    """names of the vectors whose every element is announced after the work loop"""
    good = None
    for o in outs:
        got = set()
        seen = False
        for x in o.events:
            if x[0] != 'loop':
                continue
            if x[1] == s['lid']:
                seen = True
                continue
            if seen:
                rs = {announces_all(e, z) for z in e.loop_summ.get(x[1], [])}
                if len(rs) == 1:
                    got |= rs - {None}
        good = got if good is None else good & got
    return good or set()


def announces_all(e, z):
    """base of the sequence whose elements this loop announces one by one, all of them"""
    bases = set()

    def index(b):
        a = [x for x in b.events if x[0] == 'announce']
        if len(a) != 1 or any(x[0] == 'loop' for x in b.events):
            return None
        v = one(a[0][1])
        while v[0] == 't' and v[1] == 'fld':
            v = v[2]
        if v[0] != 't' or v[1] != 'elem':
            return None
        bases.add(v[2])
        return b.facts.find(v[3])
    b0, x0 = e.next_iteration(z, z['entry'])
    if not b0:
        return None
    for b in b0:
        i = index(b)
        if i is None:
            return None
        if i[0] == 't' or (i[0] == 'lin' and any(k[0] == 't' and k[1] == 'len' for k, _ in i[1])):
            # taken from the end
            n = T('len', v_base(bases))
            if i != lin_add(n, I(-1)):
                return None
            for x in x0 + z['exits']:
                if x.facts.mask(n, I(0)) != EQ and z['entry'] is not None and not all_zero(x, bases):
                    return None
            return v_base(bases)
        if i != I(0):
            return None
    if len(bases) != 1:
        return None
    base = v_base(bases)
    n = T('len', base)
    for x in x0:
        if x.facts.mask(I(0), n) & LT:
            return None
    for b in z['backs']:
        i = index(b)
        if i is None:
            return None
        nb, nx = e.next_iteration(z, b)
        for y in nb:
            j = index(y)
            if j is None or lin_add(y.facts.find(i), I(1)) != j and y.facts.mask(lin_add(i, I(1)), j) != EQ:
                return None
        for y in nx:
            if y.facts.mask(lin_add(i, I(1)), n, e) & LT:
                return None
    return base if len(bases) == 1 else None


def v_base(bases):
    return next(iter(bases))


def all_zero(x, bases):
    return False


def c27():
    c = Check('C27', 'Abstract interpretation: (a) one step of the legalization work loop in all surroundings, with the announcement list followed to the loop that announces every element; (b) every outcome of the flip routine; '
              '(c) announcing on a triangle with every set of missing neighbors; (d) the front update on a symbolic front; (e) the answer of the rotation for every set of missing outer neighbors.',
              ['a rotation does what C11 says', 'front lookups behave as C17 says'])
    p = prog()
    with c.guard('legalization'):
        front_told(c, p)
    with c.guard('flip'):
        flip_told(c, p)
    with c.guard('announcing'):
        announcing(c, p)
    with c.guard('front update'):
        front_update(c, p)
    with c.guard('rotation answer'):
        rotation_answer(c, p)
    return c.finish()


_D = {}


def rotation_answer(c, p):
    """the rotation reports every missing outer neighbor"""
    import checks_b
    f = find_fn(p, 'rotate_triangle_pair', ['&mut sweeper::Sweeper', TI, PI, TI, PI])
    checks_b._P[0], checks_b._P[1] = p, f
    for i, j in itertools.product(range(3), repeat=2):
        for pres in itertools.product((0, 1), repeat=4):
            if (i or j) and sum(pres) != 3 and os.environ.get('VERIF_TIER', 'quick') == 'quick':
                continue
            res, n, und = checks_b.c11_one((i, j, pres, {}, None))
            c.count('rotations_analysed')
            if und:
                c.und('rotation', where(f['span']), und)
            for name, okk, w, d in res:
                if 'told about' in name:
                    c.expect(okk, name, w, d, 'answer')


def front_told(c, p):
    L, (e, args, outs) = legal(p)
    _D['queues'] = {}
    for s in L.arrivals(e):
        q = work_list(L, s)
        qs = queues(L, s, q)
        ann = drained(L, e, outs, s)
        told = {o: v for o, v in qs.items() if v[1] in ann}
        _D['queues'][id(s)] = told
        c.count('announcement_lists', len(told))
        # the legalized triangle itself
        pre = False
        for o, v in told.items():
            w = s['entry'].mem.get(o)
            if w and w[0] == 'V' and any(one(x) == S('t') for x in w[2]):
                pre = True
        if outs and all(any(x[0] == 'announce' and one(x[1]) == S('t') for x in o.events) for o in outs):
            pre = True
        c.expect(pre, 'the triangle to legalize is announced to the front', L.where, 'legalization ends without announcing its triangle', 'self')
    each_step(c, p, judge_told)


def judge_told(c, lab, L, e, s, tris, q, c0, h, b, kind):
    if kind == 'exit' or any(x[0] == 'loop' for x in b.events):
        c.und('announcement after a rotation', L.where, 'step does not resolve')
        return
    rots = [i for i, x in enumerate(b.events) if x[0] == 'rotate']
    told = {nm(x[1]) for i, x in enumerate(b.events) if x[0] == 'announce' and rots and i > rots[0]}
    for o, v in _D['queues'][id(s)].items():
        w = b.mem.get(o)
        if w and w[0] == 'V' and w[1] == v[1]:
            told |= {nm(x) for x in w[2]}
        elif w != v:
            c.und('announcement list', L.where, show(w)[:80] if w else 'gone')
            return
    if not rots or not isinstance(b.aux.get('rotated'), tuple):
        c.ok('no rotation, nothing to announce', L.where)
        return
    t, ot = b.aux['rotated'][:2]
    if b.aux['miss']:
        c.expect({t, ot} <= told, 'after a rotation at the border both triangles are announced', L.where, '%s: of the rotated triangles only %s announced' % (lab, sorted(x for x in told if x in (t, ot)) or 'none'), 'border')
    else:
        c.ok('rotation inside the mesh', L.where)


def flip_told(c, p):
    f = find_fn(p, 'flip_edge_event')
    wh = where(f['span'], f['path'])
    rot = find_fn(p, 'rotate_triangle_pair', ['&mut sweeper::Sweeper', TI, PI, TI, PI])
    mp = find_fn(p, 'map_triangle_to_nodes', ['&mut sweeper::Sweeper', TI], '()')
    callers = direct_callers(p, rot['path'])
    leg = find_fn(p, 'legalize', ['&mut sweeper::Sweeper', TI, '&mut dyn cdt::Observer'], near='sweeper::')
    for path in sorted(callers):
        g = next((x for x in p.fns if x["path"] == path and x.get("body")), None)
        if g is None:
            c.und("rotation in %s" % path, wh, "no body")
            continue
        if path == leg['path']:
            continue
        e = Engine(p, max_states=30000)
        e.virt = lambda ctx: UNIT
        told_hooks(p, e, rot, mp, g)
        args, mem = e.sym_args(g['body'], ['a%d' % i for i in range(g['body']['argc'])])
        outs = e.run(g['body'], args, mem)
        c.count('functions_analysed')
        wg = where(g['span'], g['path'])
        n = 0
        for o in outs:
            if any(x[0] == 'loop' and any(y[0] == 'rotate' for y in flat_events([x])) for x in o.events):
                c.und('announcement after a rotation', wg, 'rotation in a loop')
                continue
            ev = [x for x in o.events if x[0] in ('rotate', 'announce', 'self', 'other')]
            for i, x in enumerate(ev):
                if x[0] != 'rotate':
                    continue
                n += 1
                r = o.facts.find(x[2])
                yes = o.facts.b.get(r)
                later = []
                for y in ev[i + 1:]:
                    if y[0] == 'announce':
                        later.append(one(y[1]))
                told = set(later)
                need = {one(x[1][1]), one(x[1][3])}
                if yes is False:
                    c.ok('rotation inside the mesh', wg)
                elif yes is None and not need <= told:
                    c.bad('after a rotation at the border both triangles are announced', wg, 'the missing-neighbor answer of the rotation is not used', 'flip-border')
                else:
                    c.expect(need <= told, 'after a rotation at the border both triangles are announced', wg, 'announced: %s' % [show(x) for x in told], 'flip-border')
        if not n:
            c.und('rotation in %s' % path, wg, 'no outcome with a rotation')
    if not callers:
        c.und('rotations', wh, 'no caller')


def direct_callers(p, path):
    """library functions (closures counted with their owner) that call this one"""
    g = edges(p)
    ids = {i for i, b in p.bodies.items() if b['path'] == path}
    return {owner(p.bodies[i]['path']) for i, js in g.items() if i in p.bodies and js & ids}


def told_hooks(p, e, rot, mp, me):
    """rotation and announcements become events; everything else of the sweep that is called is left out"""
    def un(ctx):
        return tuple(unref(ctx.st, e, a) for a in ctx.args)

    def rotate(ctx):
        ctx.st.nfid += 1
        r = S('remap%d' % ctx.st.nfid)
        ctx.st.ev('rotate', un(ctx), r, ctx.where())
        return r
    e.hooks[rot['path']] = rotate
    e.hooks[mp['path']] = lambda ctx: (ctx.st.ev('announce', unref(ctx.st, e, ctx.args[1]), ctx.where()), UNIT)[1]
    for g in p.fns:
        if not g.get('body') or g['path'] in (rot['path'], mp['path']):
            continue
        i = [p.ty_s(x) for x in g.get('inputs') or []]
        if i and i[0].replace("'_ ", '').startswith('&mut sweeper::Sweeper') and reaches(p, g, rot['path']):
            e.hooks[g['path']] = opaque(p, e, g)
    for g in p.fns:
        if g.get('body') and g['path'].split('::')[-1] in ('in_scan_area', 'orient_2d', 'in_circle') and g['path'].startswith('utils::'):
            e.hooks[g['path']] = lambda ctx: e.fresh(ctx.st, 'ans')


def opaque(p, e, g):
    def h(ctx):
        ctx.st.ev('self', g['path'], tuple(unref(ctx.st, e, a) for a in ctx.args), ctx.where())
        if p.ty_s(g['output']) == '()':
            return UNIT
        return e.fresh(ctx.st, 'r')
    return h


def reaches(p, g, target):
    return any(p.bodies[i]['path'] == target for i in reach(p, [g['id']]) if i in p.bodies)


def announcing(c, p):
    m = Mesh(p)
    f = find_fn(p, 'map_triangle_to_nodes', ['&mut sweeper::Sweeper', TI], '()')
    up = find_fn(p, 'update_triangle', ['&mut advancing_front::vec_backed::AdvancingFront', 'shape::Point', TI])
    wh = where(f['span'], f['path'])
    c.count('functions_analysed')
    for pres in itertools.product((0, 1), repeat=3):
        tris = {'t': (('P0', 'P1', 'P2'), tuple('n%d' % k if pres[k] else None for k in range(3)))}
        mem, facts = m.setup(tris)
        e = Engine(p)
        e.hooks[up['path']] = lambda ctx: (ctx.st.ev('update', unref(ctx.st, e, ctx.args[1]), unref(ctx.st, e, ctx.args[2]), ctx.where()), UNIT)[1]
        sw = sweeper_val(m, p, m.vec, mem)
        outs = e.run(f['body'], [sw, m.id('t')], mem, facts)
        c.count('abstract_outcomes', len(outs))
        if not outs:
            c.bad('announcing a triangle ends', wh, 'missing neighbors %s: never returns' % (pres,))
        for o in outs:
            if any(x[0] == 'loop' for x in o.events):
                c.und('announcing', wh, 'loop over the edges does not resolve')
                continue
            ups = [x for x in o.events if x[0] == 'update']
            got = {pname(x[1]) for x in ups}
            c.expect(all(nm(x[2]) == 't' for x in ups), 'the front is told the announced triangle', wh, 'told %s' % [show(x[2]) for x in ups])
            need = {'P%d' % ((k + 2) % 3) for k in range(3) if not pres[k]}
            c.expect(got == need, 'announcing updates the node at the start of each edge without neighbor, and no other', wh,
                     'edges without neighbor %s: updates nodes %s, expected %s' % ([k for k in range(3) if not pres[k]], sorted(map(str, got)), sorted(need)), 'start-node')


def front_update(c, p):
    from checks_f import Seq, edits, arg_of, same, at
    s = Seq(p)
    f = find_fn(p, 'update_triangle', ['&mut advancing_front::vec_backed::AdvancingFront', 'shape::Point', TI])
    wh = where(f['span'], f['path'])
    for cached in ((False, True) if s.ci is not None else (False,)):
        e, args, outs = s.run(f, cached)
        c.count('functions_analysed')
        c.count('abstract_outcomes', len(outs))
        K, tr = arg_of(s, f, args, s.PT), arg_of(s, f, args, s.TI)
        for st in outs:
            ed, _ = edits(s, st)
            if any(t[1] != 'vset' for t in ed):
                c.bad('an announcement neither adds nor removes front nodes', wh, 'front changes by %s' % [t[1] for t in ed])
                continue
            if not ed:
                c.expect(s.absent(st, K), 'the node at the position gets the triangle', wh, 'the node is left alone', 'update')
                continue
            for t in ed:
                old = T('elem', s.base, t[3])
                ok = st.facts.find(s.inner(s.TI, at(t[4], s.F['tri']))) == st.facts.find(s.inner(s.TI, tr)) and all(same(s, st, at(t[4], s.F[k]), at(old, s.F[k]), ty) for k, ty in (('pid', s.PI), ('key', s.PT)))
                c.expect(ok, 'the node at the position gets the triangle and nothing else', wh, 'node %s has other content' % show(t[3]), 'update')
                c.expect(s.isat(st, t[3], K), 'the node at the position gets the triangle and nothing else', wh, 'node %s is not known to be at the position' % show(t[3]), 'update')
            c.expect(len({t[3] for t in ed}) == 1, 'one node is updated', wh)


# ------------------------------------------------------------------------ C03
EVENTS = ('enter_point_event', 'exit_point_event', 'edge_event', 'sweep_done', 'finalized', 'will_legalize', 'legalize_step', 'triangle_rotated', 'legalized')


def c03():
    c = Check('C03', 'Abstract interpretation with every observer call recorded: the event sequence of one step of the sweep loop, of the legalization before, in and after its work loop (all surroundings), and of the whole run, '
              'is compared with the protocol; a query over the MIR call sites shows that no other code emits events.', ['a rotation is what the rotation routine does', 'loops stop as C10 and C15 say'])
    p = prog()
    c.sites = set()
    with c.guard('sweep events'):
        sweep_events(c, p)
    with c.guard('legalization events'):
        legal_events(c, p)
    with c.guard('run events'):
        final_events(c, p)
    with c.guard('other events'):
        other_events(c, p)
    return c.finish()


def obs_args(x):
    """what an event names (without the observer and the state it is shown)"""
    return x[2][1:-1]


def sweep_events(c, p):
    w = Sweep(p)
    f, e, args, outs = sweep_run(p)
    wh = where(f['span'], f['path'])
    c.count('functions_analysed')
    c.sites |= e.fnseen
    loops = point_loop(e)
    if not loops:
        raise NoAnchor('sweep loop')
    for o in outs:
        out = [x[1] for x in o.events if x[0] == 'obs']
        c.expect(not out, 'the sweep emits events only point by point', wh, 'events outside the loop: %s' % out)
    bs = []
    for s in loops:
        b0, x0 = e.next_iteration(s, s['entry'])
        bs += list(s['backs']) + b0
    for b in bs:
        if any(x[0] == 'loop' for x in b.events):
            c.und('events of a point', wh, 'an inner loop does not resolve')
            continue
        ev = [x for x in b.events if x[0] in ('obs', 'call')]
        kinds = []
        for x in ev:
            kinds.append(('do ' if x[0] == 'call' else '') + x[1])
        pe = [i for i, k in enumerate(kinds) if k == 'do point_event']
        if len(pe) != 1:
            c.bad('one point at a time', wh, 'steps %s' % kinds)
            continue
        n = kinds.count('do edge_event')
        want = ['enter_point_event', 'do point_event', 'exit_point_event'] + ['do edge_event', 'edge_event'] * n
        if not c.expect(kinds == want, 'a point is entered, handled and left, then each segment is handled and reported', wh, 'steps are %s' % kinds, 'order'):
            continue
        pid = ev[1][2][1]
        for i in (0, 2):
            c.expect(obs_args(ev[i])[0] == pid, 'enter and exit events name the point handled between them', ev[i][3], 'named %s, handled %s' % (show(obs_args(ev[i])[0]), show(pid)), 'names')
        for k in range(n):
            c.expect(obs_args(ev[4 + 2 * k])[0] == ev[3 + 2 * k][2][1], 'an edge event names the segment just handled', ev[4 + 2 * k][3], 'named %s' % show(obs_args(ev[4 + 2 * k])[0]), 'names')
    c.count('loop_states', len(bs))


def legal_events(c, p):
    L, (e, args, outs) = legal(p)
    c.count('functions_analysed')
    c.sites |= e.fnseen
    wh = L.where
    if not outs:
        c.und('legalization events', wh, 'no outcome')
    for o in outs:
        ev = [x for x in o.events if x[0] in ('obs', 'rotate', 'loop', 'announce')]
        obs = [x for x in flat_events(o.events) if x[0] == 'obs' and x[1] in ('will_legalize', 'legalized')]
        top = [x for x in o.events if x[0] == 'obs' and x[1] in ('will_legalize', 'legalized')]
        ok = len(ev) >= 2 and ev[0][0] == 'obs' and ev[0][1] == 'will_legalize' and ev[-1][0] == 'obs' and ev[-1][1] == 'legalized' and len(top) == 2 and len(obs) == 2
        if c.expect(ok, 'a legalization is bracketed by one start and one end event', wh, 'events are %s' % [x[1] for x in ev], 'bracket'):
            for x in (ev[0], ev[-1]):
                c.expect(one(obs_args(x)[0]) == S('t'), 'start and end name the triangle legalized', x[3], 'named %s' % show(obs_args(x)[0]), 'bracket-name')
        for x in o.events:
            if x[0] == 'obs' and x[1] not in ('will_legalize', 'legalized', 'legalize_step'):
                c.bad('only start, end and step events around the work loop', x[3], x[1])
    each_step(c, p, judge_events)


def judge_events(c, lab, L, e, s, tris, q, c0, h, b, kind):
    ev = [x for x in flat_events(b.events) if x[0] == 'rotate' or (x[0] == 'obs' and x[1] != 'legalize_step')]
    bad = [x[1] for x in ev if x[0] == 'obs' and x[1] != 'triangle_rotated']
    c.expect(not bad, 'the work loop only reports steps and rotations', L.where, '%s: events %s' % (lab, bad))
    ev = [x for x in ev if x[0] == 'rotate' or x[1] == 'triangle_rotated']
    pend = None
    for x in ev:
        if x[0] == 'obs':
            c.expect(pend is None, 'a rotation announced is performed', x[3], '%s: two announcements in a row' % lab)
            pend = x
        else:
            if not c.expect(pend is not None, 'a rotation is announced before it happens', x[3], '%s: rotation without announcement' % lab, 'announce'):
                continue
            a = [nm(y) for y in obs_args(pend)]
            c.expect(sorted(map(str, a)) == sorted(str(nm(x[1][i])) for i in (1, 3)), 'a rotation is announced with the two triangles it rotates', pend[3], '%s: announced %s' % (lab, a), 'announce-names')
            pend = None
    c.expect(pend is None, 'a rotation announced is performed', L.where, '%s: announced but not rotated' % lab, 'announce-extra')


def final_events(c, p):
    f, e, args, outs, wh = run_events(p)
    c.count('functions_analysed')
    c.sites |= e.fnseen
    for o in outs:
        if any(x[0] == 'loop' for x in o.events):
            c.und('events of the run', wh, 'loop')
            continue
        ev = [('do ' if x[0] == 'call' else '') + x[1] for x in o.events if x[0] in ('obs', 'call')]
        c.expect(ev == ['do sweep', 'sweep_done', 'do extract', 'finalized'] or ev == ['do sweep', 'do extract', 'sweep_done', 'finalized'],
                 'the run ends with sweep-done, then finalized after the result is extracted', wh, 'steps are %s' % ev, 'final')
    if not outs:
        c.und('events of the run', wh, 'no outcome')


def other_events(c, p):
    """every call site of an observer method lies in code analysed above"""
    roots = [g['id'] for g in p.fns if g.get('body') and g['path'].split('::')[-1] in ('triangulate_with_observer', 'triangulate')]
    if not roots:
        raise NoAnchor('triangulate')
    n = 0
    for i in reach(p, roots):
        b = p.bodies.get(i)
        if b is None:
            continue
        for bn, cal, t, bl in call_sites(p, b):
            pa = cal.get('path') or ''
            if pa.split('::')[-1] in EVENTS and 'Observer' in pa:
                n += 1
                if owner(b['path']) in {owner(x) for x in c.sites}:
                    c.ok('no other code emits events', where(bl['sp'], b['path']))
                elif any(o[1] == 'undecided' for o in c.obl):
                    c.und('no other code emits events', where(bl['sp'], b['path']), 'code that may belong to a step that was not understood')
                else:
                    c.bad('no other code emits events', where(bl['sp'], b['path']), '%s is emitted here' % pa.split('::')[-1], 'stray ' + owner(b['path']))
    c.count('event_call_sites', n)


# ------------------------------------------------------------------------ C20
def vec_elem(p, t):
    """element type of a (reference to a) vector or slice"""
    ty = p.types[t]
    n = 0
    while ty['k'] in ('ref', 'ptr') and n < 4:
        t = ty['elem']
        ty = p.types[t]
        n += 1
    if ty['k'] == 'adt' and ty['path'] == 'std::vec::Vec':
        el = [a for a in (ty.get('args') or []) if isinstance(a, int)]
        return el[0] if el else None
    if ty['k'] == 'slice':
        return ty['elem']
    return None


def is_mut(p, t):
    ty = p.types[t]
    return ty['k'] in ('ref', 'ptr') and ty.get('mut')


GROW = ('push', 'insert', 'extend', 'extend_from_slice', 'append', 'resize', 'resize_with', 'vec_extend', 'vec_extend_from_slice', 'insert_mut', 'push_mut', 'push_within_capacity')
KEEP = ('deref_mut', 'deref', 'index_mut', 'index', 'as_mut_ptr', 'as_ptr', 'get_mut', 'get', 'get_unchecked_mut', 'get_unchecked', 'iter_mut', 'iter', 'reserve', 'reserve_exact', 'as_mut_slice',
        'last_mut', 'first_mut', 'split_at_mut', 'split_first_mut', 'split_last_mut', 'as_mut', 'borrow_mut', 'shrink_to_fit', 'len', 'is_empty', 'get_many_mut', 'get_disjoint_mut', 'into_iter', 'add')
DROP = ('pop', 'remove', 'swap_remove', 'truncate', 'clear', 'drain', 'retain', 'retain_mut', 'dedup', 'dedup_by', 'dedup_by_key', 'split_off', 'splice', 'swap', 'reverse', 'rotate_left', 'rotate_right',
        'sort', 'sort_by', 'sort_by_key', 'sort_unstable', 'sort_unstable_by', 'sort_unstable_by_key', 'take', 'replace', 'set_len', 'swap_with_slice', 'copy_within', 'fill', 'sort_by_cached_key',
        'pop_if', 'extract_if', 'select_nth_unstable', 'chunk_by_mut', 'drop_in_place', 'leak', 'copy_from_slice', 'clone_from_slice', 'clone_from', 'select_nth_unstable_by', 'select_nth_unstable_by_key')


def storage_calls(p, el):
    """calls that get a vector or slice of el to change, in the library"""
    for i, b in sorted(p.bodies.items()):
        if b['crate'] != 'poly2tri_rs':
            continue
        for n, cal, t, bl in call_sites(p, b):
            for k, a in enumerate(t[5]):
                if is_mut(p, a) and vec_elem(p, a) == el and not (cal.get('inst') in p.bodies and p.bodies[cal['inst']]['crate'] == 'poly2tri_rs'):
                    yield b, cal, (callee_path(cal) or '').split('::')[-1], bl
                    break


def c20():
    c = Check('C20', 'Abstract interpretation of the insertion, the fill routine, the first triangle and the triangle store; a query over every MIR call site that can change the triangle or front storage; '
              'the functions that reach a creation must be the analysed ones.', ['front lookups behave as C17 says'])
    p = prog()
    with c.guard('creations per step'):
        per_step(c, p)
    with c.guard('triangle storage'):
        tri_storage(c, p)
    with c.guard('reserved storage'):
        reserved(c, p)
    return c.finish()


SIZES = {'with_capacity': 0, 'with_capacity_in': 0, 'reserve': 1, 'reserve_exact': 1, 'resize': 1, 'resize_with': 1, 'from_elem': 1, 'repeat_n': 1}
SUMS = ('saturating_add', 'wrapping_add', 'checked_add', 'saturating_sub', 'wrapping_sub', 'checked_sub', 'max', 'min', 'next_power_of_two', 'div_ceil', 'abs_diff', 'isqrt', 'clone', 'into', 'from', 'unwrap', 'unwrap_or')
PRODUCTS = ('saturating_mul', 'wrapping_mul', 'checked_mul')


def degree(p, b, x, args, busy=frozenset()):
    """degree, in quantities that follow the input, of a number; None where that is not known"""
    if x[0] in ('const',):
        return 0
    l, proj = x[1]
    if proj:
        return 1
    if (b['path'], l) in busy:
        return 0
    busy = busy | {(b['path'], l)}
    if 1 <= l <= b['argc']:
        return args(b, l)
    out, some_def = 0, False
    for bl in b['blocks']:
        for st in bl['s']:
            if st[0] == '=' and st[1][0] == l and not st[1][1]:
                some_def = True
                r = st[2]
                if r[0] == 'use':
                    d = degree(p, b, r[1], args, busy)
                elif r[0] == 'cast':
                    o = next((y for y in r if isinstance(y, (list, tuple)) and y and y[0] in ('copy', 'move', 'const')), None)
                    d = degree(p, b, o, args, busy) if o else None
                elif r[0] == 'bin':
                    u, v = degree(p, b, r[2], args, busy), degree(p, b, r[3], args, busy)
                    if r[1].startswith('Mul'):
                        d = None if u is None or v is None else u + v
                    elif r[1].startswith('Shl'):
                        d = u if v == 0 else None
                    elif r[1].startswith(('Div', 'Rem', 'Shr')):
                        d = u
                    else:
                        d = None if u is None or v is None else max(u, v)
                else:
                    d = 1
                if d is None:
                    return None
                out = max(out, d)
        t = bl['t']
        if t[0] == 'call' and t[3] and t[3][0] == l and not t[3][1]:
            some_def = True
            nm = (callee_path(t[1]) or '').split('::')[-1]
            ds = [degree(p, b, a, args, busy) for a in t[2]]
            if nm in PRODUCTS:
                d = None if None in ds else sum(ds)
            elif nm == 'pow':
                k = t[2][1][1].get('v') if t[2][1][0] == 'const' else None
                d = None if k is None or ds[0] is None else ds[0] * int(k)
            elif nm in SUMS:
                d = None if None in ds else max(ds or [0])
            else:
                d = 1
            if d is None:
                return None
            out = max(out, d)
    return out if some_def else 1


def reserved(c, p):
    """no list is made larger than a fixed multiple of the input at once"""
    sites = {}
    for b in p.bodies.values():
        if b['crate'] == 'poly2tri_rs':
            for _, cal, t, bl in call_sites(p, b):
                if cal.get('inst') in p.bodies:
                    sites.setdefault(p.bodies[cal['inst']]['path'], []).append((b, t))
    memo = {}

    def args(b, l):
        k = (b['path'], l)
        if k not in memo:
            memo[k] = 1
            ds = [degree(p, b2, t[2][l - 1], args) for b2, t in sites.get(b['path'], []) if l - 1 < len(t[2])]
            memo[k] = max([1] + [d for d in ds if d is not None])
        return memo[k]
    for b in p.bodies.values():
        if b['crate'] != 'poly2tri_rs':
            continue
        for _, cal, t, bl in call_sites(p, b):
            nm = callee_path(cal) or ''
            k = SIZES.get(nm.split('::')[-1])
            if k is None or not nm.startswith(('std::', 'core::', 'alloc::')) or k >= len(t[2]):
                continue
            d = degree(p, b, t[2][k], args)
            c.count('reservations')
            if d is None:
                c.und('reserved storage is linear', where(bl['sp'], b['path']), nm)
            else:
                c.expect(d <= 1, 'reserved storage is linear', where(bl['sp'], b['path']), '%s of a product of %d quantities that follow the input' % (nm, d), key='reserve:' + b['path'])


def per_step(c, p):
    from checks_c import insertion, filling, front_ops
    c2 = Check('C20', '', [])
    for nm, f in (('inserting a point', insertion), ('filling a corner', filling), ('front operations', front_ops)):
        with c2.guard(nm):
            f(c2, p)
    for o in c2.obl:
        if o[1] == 'undecided' or any(k in o[0] for k in (': one triangle', 'front changed once', 'nothing else is created', 'removal removes exactly', 'insert adds or replaces', 'insert replaces only')):
            c.obl.append(o)
    sites = set(getattr(c2, 'sites', set()))
    f, e, args, outs, wh = run_events(p)
    for o in outs:
        n = [x for x in o.events if x[0] == 'tri.new']
        c.expect(len(n) == 1 and not any(x[0] == 'loop' for x in o.events), 'a run starts with one triangle', wh, '%d triangles' % len(n))
    sites |= e.fnseen
    c.count('functions_analysed', len(sites))
    sites = {owner(x) for x in sites}
    roots = [g['id'] for g in p.fns if g.get('body') and g['path'].split('::')[-1] in ('triangulate_with_observer', 'triangulate')]
    if not roots:
        raise NoAnchor('triangulate')
    ins = p.adt('triangles::TriangleStore')
    make = {x['path'] for x in p.fns if x.get('body') and x['path'].startswith('triangles::TriangleStore::') and any(b['path'] == x['path'] and k in GROW for b, cal, k, bl in storage_calls(p, p.adt('shape::InnerTriangle')))}
    from checks_c import entry_fields
    AFT, vi, el, F = entry_fields(p)
    front = {owner(b['path']) for b, cal, k, bl in storage_calls(p, el) if k in GROW or k in DROP}
    n = 0
    for i in reach(p, roots):
        b = p.bodies.get(i)
        if b is None or b['crate'] != 'poly2tri_rs':
            continue
        for _, cal, t, bl in call_sites(p, b):
            pa = callee_path(cal) or ''
            if pa in make or (pa in front and owner(b['path']) not in front):
                n += 1
                if owner(b['path']) not in sites and any(o[1] == 'undecided' for o in c.obl):
                    c.und('creations', where(bl['sp'], b['path']), 'code that may belong to a step that was not understood')
                    continue
                c.expect(owner(b['path']) in sites, 'triangles and front nodes are created and removed only by the insertion, the fill and the start', where(bl['sp'], b['path']),
                         '%s is called from %s' % (pa, b['path']), 'creator ' + owner(b['path']))
    c.count('creation_call_sites', n)
    known = {owner(x) for x in getattr(c2, 'front_sites', set())}
    for b, cal, k, bl in storage_calls(p, el):
        if k in KEEP or k.startswith('sort'):
            continue
        ok = owner(b['path']) in known or b['path'].split('::')[-1] == 'new'
        if k in (GROW + DROP if isinstance(GROW, tuple) else set(GROW) | set(DROP)) and not ok and any(o[1] == 'undecided' for o in c.obl):
            c.und('front storage', where(bl['sp'], b['path']), 'code that may belong to a routine that was not understood')
        elif k in GROW or k in DROP:
            c.expect(ok, 'the front storage is changed only by its insert and remove routines', where(bl['sp'], b['path']), '%s on the front storage' % k, 'front ' + owner(b['path']))
        else:
            c.und('front storage', where(bl['sp'], b['path']), 'call of %s' % k)


def tri_storage(c, p):
    el = p.adt('shape::InnerTriangle')
    store = p.adt('triangles::TriangleStore')
    if el is None or store is None:
        raise NoAnchor('triangle storage')
    n = 0
    for b, cal, k, bl in storage_calls(p, el):
        n += 1
        wh = where(bl['sp'], b['path'])
        if k in KEEP:
            c.ok('triangles are never removed or moved', wh)
        elif k in GROW:
            f = b['path'].split('::')[-1]
            c.expect(k in ('push', 'push_mut'), 'triangles are only appended, one at a time', wh, '%s on the triangle storage' % k)
            if f != 'insert' or 'TriangleStore' not in b['path']:
                c.und('triangles are appended by the store\'s insert', wh, b['path'])
        elif k in DROP:
            c.bad('triangles are never removed or moved', wh, '%s on the triangle storage' % k)
        else:
            c.und('triangle storage', wh, 'call of %s' % (callee_path(cal)))
    for i, b in sorted(p.bodies.items()):
        if b['crate'] != 'poly2tri_rs':
            continue
        for _, cal, t, bl in call_sites(p, b):
            k = (callee_path(cal) or '').split('::')
            if k[-1] in ('swap', 'replace', 'take', 'write', 'copy', 'copy_nonoverlapping') and ('mem' in k or 'ptr' in k):
                for a in t[5]:
                    ty = p.types[a]
                    if ty['k'] in ('ref', 'ptr') and ty['elem'] in (el, store):
                        c.bad('triangles are never removed or moved', where(bl['sp'], b['path']), '%s of %s' % (k[-1], p.ty_s(ty['elem'])))
        for bl in b['blocks']:
            for s in bl['s']:
                if s[0] != '=' or not s[1][1]:
                    continue
                if assigned_type(p, b, s[1]) in (el, store) or vec_elem(p, assigned_type(p, b, s[1]) or 0) == el:
                    c.und('whole triangles are not overwritten', where(s[-1], b['path']), 'assignment of a whole triangle or store')
    c.count('storage_call_sites', n)
    # the store's insert
    f = find_fn(p, 'insert', near='TriangleStore')
    wh = where(f['span'], f['path'])
    m = Mesh(p)
    e = Engine(p)
    vec = ('VB', S('mesh'))
    mem = {vec: ('V', S('mesh'), ()), ('P', 'store'): m.store_val(vec)}
    outs = e.run(f['body'], [('r', ('P', 'store'), ()), S('tri')], mem)
    for o in outs:
        v = o.mem.get(vec)
        c.expect(v == ('V', S('mesh'), (S('tri'),)), 'a new triangle is appended to the store', wh, 'store becomes %s' % show(v) if v else '?')
        c.expect(one(o.ret) == T('len', S('mesh')), 'a new triangle is identified by its place', wh, 'identifier %s' % show(o.ret))
    if not outs:
        c.und('store insert', wh, 'no outcome')


def assigned_type(p, b, pl):
    t = b['locals'][pl[0]]
    for e in pl[1]:
        ty = p.types[t]
        if e[0] == '*':
            if ty['k'] not in ('ref', 'ptr'):
                return None
            t = ty['elem']
        elif e[0] == 'f':
            t = e[2]
        elif e[0] == 'd':
            continue
        elif e[0] in ('i', 'ci') and ty['k'] in ('array', 'slice'):
            t = ty['elem']
        else:
            return None
    return t


CHECKS = {'C03': c03, 'C15': c15, 'C20': c20, 'C27': c27}
