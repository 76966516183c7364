"""Constraint marks (C13)."""
import itertools
from common import *
from graph import *
from engine import *
from mesh import *
from frontmodel import unref, Front, ZERO
from geom import parity
from checks_b import sweeper_val, owner, dominated, edge_set, linking, rotation
from checks_e import TI, PI, each_step, judge_rule, nm, rot_

# ------------------------------------------------------------------------ C13


class Part:
    """hands on the obligations whose names match"""

    def __init__(self, c, rx, prefix='', names=None):
        self.c, self.rx, self.prefix, self.names = c, re.compile(rx), prefix, names or {}

    def nm(self, n):
        return self.prefix + n

    def expect(self, cond, name, where='', detail='', key=None):
        if self.rx.search(name):
            return self.c.expect(cond, self.nm(name), where, detail, key)
        return cond

    def ok(self, name, where='', detail=''):
        if self.rx.search(name):
            self.c.ok(self.nm(name), where, detail)

    def bad(self, name, where='', detail='', key=None):
        if self.rx.search(name):
            self.c.bad(self.nm(name), where, detail, key)

    def und(self, name, where='', detail=''):
        self.c.und(self.nm(name), where, detail)

    def count(self, k, n=1):
        self.c.count(k, n)

    def guard(self, name, where=''):
        return self.c.guard(self.nm(name), where)

    @property
    def obl(self):
        return self

    @property
    def stats(self):
        return self.c.stats

    def extend(self, obl):
        for o in obl:
            if o[1] == 'undecided' or self.rx.search(o[0]):
                self.c.obl.append((self.nm(o[0]),) + o[1:])


def c13():
    c = Check('C13', 'Abstract interpretation of the routines that enforce a segment, one triangle at a time: every placement of the corners, every set of present neighbors, arbitrary marks; '
              'what is marked and where enforcement continues is compared with the rule. Linking, rotation and legalization are checked for losing no mark; every MIR place and call that can write a mark is classified.',
              ['neighbor entries agree with each other (C12)', 'segments do not cross each other'])
    p = prog()
    with c.guard('marking an edge that is there'):
        present_edge(c, p)
    with c.guard('enforcing a segment'):
        enforcing(c, p)
    with c.guard('flipping towards a segment'):
        flipping(c, p)
    with c.guard('start of the enforcement'):
        enforcement_start(c, p)
    with c.guard('marks are kept'):
        mark_writers(c, p)
    with c.guard('linking'):
        linking(Part(c, r'constrained iff|marks of other edges'), p)
    with c.guard('rotation'):
        rotation(Part(c, r'constraint mark|keep the marks'), p)
    with c.guard('legalization'):
        each_step(Part(c, r'constraint marks are left alone|constrained edge is never rotated|marks change only'), p, judge_rule)
    return c.finish()


def ring(pres, r, rn=0):
    """a triangle (Q, P1, P2) with up to three neighbors"""
    P = ('Q', 'P1', 'P2')
    names = ('N', 'A', 'B')
    d = {'t': rotn_(P, tuple(n if pres[k] else None for k, n in enumerate(names)), r)}
    for k, n in enumerate(names):
        if pres[k]:
            a, b = P[(k + 1) % 3], P[(k + 2) % 3]
            d[n] = rotn_(('X' + n, b, a), ('t', 'y' + n, 'z' + n), (k + rn) % 3)
    return d


def rotn_(a, b, k):
    return rot_(a, k), rot_(b, k)


def edge_no(tris, n, pair):
    for k in range(3):
        if edge_set(tris[n][0], k) == frozenset(pair):
            return k
    return None


def mark_changes(c, m, facts, old, new, tris, want, name, wh, lab, key):
    """marks in `new` are those of `old` plus the wanted edges; want: set of frozenset pairs"""
    for n in tris:
        v0, v1 = old[n], new[n]
        c.expect(m.corners(v0) == m.corners(v1) and m.nbs(v0) == m.nbs(v1), 'marking moves no corner and no neighbor', wh, lab)
        for k in range(3):
            on = edge_set(tris[n][0], k) in want
            for f, (a, b) in m.query(facts, [('is_constrained', v0, k), ('is_constrained', v1, k)]):
                if on:
                    c.expect(b, name, wh, '%s: not marked in %s' % (lab, 'the triangle' if n == 't' else 'the triangle on the other side'), key)
                else:
                    c.expect(not (a and not b), 'no mark is lost', wh, '%s: edge %d of %s' % (lab, k, n), 'lost')
                    c.expect(not (b and not a), 'no other edge is marked', wh, '%s: edge %d of %s' % (lab, k, n), 'other-marked')


def elems(m, e, st, tris):
    return {n: m.elem(e, st, n) for n in tris}


def touched(c, m, st, tris, wh, lab):
    if m.vec in st.mem and st.mem[m.vec] != ('V', S('mesh'), ()):
        c.und('marks', wh, lab + ': the mesh changes as a whole')
        return False
    oth = {st.facts.find(x) for x in st.mem.get(('W', m.vec), ())} - {S('T:' + n) for n in tris}
    if oth:
        c.und('marks', wh, lab + ': other triangles are written: %s' % ', '.join(show(x) for x in oth)[:100])
        return False
    return True


def present_edge(c, p):
    m = Mesh(p)
    f = find_fn(p, 'try_mark_edge_for_triangle', ['&mut sweeper::Sweeper', PI, PI, TI], 'bool')
    wh = where(f['span'], f['path'])
    c.count('functions_analysed')
    ins = [p.ty_s(x) for x in f['inputs']]
    ends = list(itertools.permutations(('Q', 'P1', 'P2', 'Z'), 2))
    for pres in itertools.product((0, 1), repeat=3):
        for r in range(3):
            tris = ring(pres, r, r)
            for a, b in ends:
                if r and 'Z' in (a, b):
                    continue
                lab = 'endpoints %s %s, triangle (%s), neighbors %s' % (a, b, ' '.join(tris['t'][0]), ''.join(map(str, pres)))
                mem, facts = m.setup(tris, ('Z',))
                e = Engine(p, max_states=4000)
                sw = sweeper_val(m, p, m.vec, mem)
                pts, args = [m.pt(a), m.pt(b)], []
                for s in ins:
                    args.append(m.id('t') if s == TI else pts.pop(0) if s == PI else sw)
                old = {n: mem[('E', m.vec, S('T:' + n))] for n in tris}
                outs = e.run(f['body'], args, mem, facts)
                c.count('abstract_outcomes', len(outs))
                is_edge = 'Z' not in (a, b)
                if not outs:
                    c.bad('marking an edge returns', wh, lab)
                for o in outs:
                    if not touched(c, m, o, tris, wh, lab):
                        continue
                    rv = truth_of(o)
                    if rv is None:
                        c.und('answer of the marking', wh, lab)
                        continue
                    c.expect(rv == is_edge, 'the marking answers whether the edge is there', wh, '%s: answers %s' % (lab, rv), 'answer')
                    mark_changes(c, m, o.facts, old, elems(m, e, o, tris), tris, {frozenset((a, b))} if is_edge else set(), 'an edge found is marked on both sides', wh, lab, 'both-sides')


def truth_of(o):
    r = o.ret
    while r[0] == 'a' and len(r[2]) == 1:
        r = r[2][0]
    if r[0] == 'i':
        return bool(r[1])
    b = o.facts.b.get(o.facts.find(r))
    return b


class Enforce:
    """the routines that enforce a segment, with their calls of each other recorded"""

    def __init__(self, p):
        self.p = p
        self.m = Mesh(p)
        CE, V = '&sweeper::ConstrainedEdge', '&mut std::vec::Vec<triangles::TriangleId>'
        SW = '&mut sweeper::Sweeper'
        self.process = find_fn(p, 'edge_event_process', [SW, PI, PI, CE, TI, PI, V])
        self.flip = find_fn(p, 'flip_edge_event')
        self.scan = find_fn(p, 'flip_scan_edge_event')
        self.rot = find_fn(p, 'rotate_triangle_pair', [SW, TI, PI, TI, PI])
        self.map = find_fn(p, 'map_triangle_to_nodes', [SW, TI], '()')
        self.area = find_fn(p, 'in_scan_area', ['shape::Point'] * 4, 'bool')
        self.edge_ty = p.adt('shape::Edge')
        self.pid = p.adt(PI)
        self.tid = p.adt(TI)
        self.ce = None
        for g in (self.process, self.flip):
            for t in g['inputs']:
                while p.types[t]['k'] == 'ref':
                    t = p.types[t]['elem']
                if p.types[t]['k'] == 'adt' and any(x == self.edge_ty for x in p.fields(t) or ()):
                    self.ce = t
        if self.ce is None or self.edge_ty is None:
            raise NoAnchor('the segment being enforced')
        self.ep_i, self.eq_i = p.field_index(self.edge_ty, 'p'), p.field_index(self.edge_ty, 'q')
        self.ei = [i for i, x in enumerate(p.fields(self.ce)) if x == self.edge_ty][0]
        if None in (self.ep_i, self.eq_i):
            raise NoAnchor('endpoints of a segment')

    def constrained_edge(self, a, b):
        """the segment from Q=b (upper) to a (lower) as the routines pass it"""
        p = self.p
        ends = [None, None]
        ends[self.ep_i], ends[self.eq_i] = self.m.pt(a), self.m.pt(b)
        fs = []
        for i, t in enumerate(p.fields(self.ce)):
            n = p.types[self.ce]['variants'][0]['fields'][i]['name']
            if i == self.ei:
                fs.append(('a', 0, tuple(ends)))
            elif n in ('p', 'q'):
                fs.append(T('pos', S('P:' + (a if n == 'p' else b))))
            else:
                fs.append(S('ce.' + n))
        return ('a', 0, tuple(fs))

    def ends(self, st, e, v):
        """names of the endpoints of a passed segment"""
        v = unref(st, e, v)
        if v[0] != 'a':
            raise Undecided('segment passed on')
        x = v[2][self.ei]
        if x[0] != 'a':
            raise Undecided('segment passed on')
        return tuple(self.pn(st, x[2][i]) for i in (self.ep_i, self.eq_i))

    def pn(self, st, v):
        while v[0] == 'a' and len(v[2]) == 1:
            v = v[2][0]
        if is_term(v):
            v = st.facts.find(v)
        if v[0] == 's' and v[1].startswith('P:'):
            return v[1][2:]
        raise Undecided('point passed on: ' + show(v)[:60])

    def args(self, f, sw, ep, eq, ce, t, pt):
        """arguments by type; the points in the order endpoint, start, pivot"""
        p = self.p
        pts = [self.m.pt(ep), self.m.pt(eq), self.m.pt(pt)]
        tr = list(t)
        out = []
        mem = {}
        for k, ty in enumerate(f['inputs']):
            u = ty
            while p.types[u]['k'] == 'ref':
                u = p.types[u]['elem']
            if u == self.pid:
                if not pts:
                    raise Undecided('arguments of ' + f['path'])
                out.append(pts.pop(0))
            elif u == self.tid:
                if not tr:
                    raise Undecided('arguments of ' + f['path'])
                out.append(self.m.id(tr.pop(0)))
            elif u == self.ce:
                o = ('P', 'ce')
                mem[o] = ce
                out.append(('r', o, ()) if u != ty else ce)
            elif p.ty_s(u).startswith('sweeper::Sweeper'):
                out.append(sw)
            elif p.types[u]['k'] == 'adt' and p.types[u]['path'] == 'std::vec::Vec':
                o = ('P', 'ids')
                vo = ('VB', S('ids'))
                mem[vo] = ('V', S('ids'), ())
                mem[o] = ('v', vo)
                out.append(('r', o, ()))
            elif p.types[u]['k'] == 'dyn':
                out.append(S('obs'))
            else:
                raise Undecided('arguments of ' + f['path'])
        if len(pts) > (0 if len([1 for x in f['inputs'] if x == self.pid]) == 3 else 1):
            raise Undecided('arguments of ' + f['path'])
        return out, mem

    def engine(self, tris, rotate=True):
        m, p = self.m, self.p
        e = Engine(p, max_states=20000)
        Front(p, e)

        def call(name, f):
            def h(ctx):
                st = ctx.st
                pts = [self.pn(st, unref(st, e, a)) for a, ty in zip(ctx.args, f['inputs']) if ty == self.pid]
                trs = [st.facts.find(m.scal(unref(st, e, a))) for a, ty in zip(ctx.args, f['inputs']) if ty == self.tid]
                ce = [self.ends(st, e, a) for a, ty in zip(ctx.args, f['inputs']) if self.is_ce(ty)]
                st.ev('go', name, tuple(pts), tuple(trs), ce[0] if ce else None, {n: m.elem(e, st, n) for n in tris}, ctx.where())
                st.aux['touched'] = touched_set(m, st)
                # whatever the callee does to the mesh
                e.set_vec(st, m.vec, ('V', S('mesh\''), ()))
                for k in [k for k in st.mem if k[0] == 'E' and k[1] == m.vec]:
                    del st.mem[k]
                st.mem[('W', m.vec)] = ()
                return UNIT if p.ty_s(ctx.dty) == '()' else e.fresh(st, 'any')
            return h
        for name, f in (('process', self.process), ('flip', self.flip), ('scan', self.scan)):
            e.hooks[f['path']] = call(name, f)

        def area(ctx):
            st = ctx.st
            a = tuple(unref(st, e, x) for x in ctx.args)
            v = e.truth(st, T('scan', *a))
            st.ev('area', a, v)
            return I(int(v))
        e.hooks[self.area['path']] = area
        e.hooks[self.map['path']] = lambda ctx: UNIT
        return e

    def is_ce(self, ty):
        while self.p.types[ty]['k'] == 'ref':
            ty = self.p.types[ty]['elem']
        return ty == self.ce


def touched_set(m, st):
    return tuple(st.facts.find(x) for x in st.mem.get(('W', m.vec), ()))


def ori_sign(e, facts, a, b, c):
    pts = [T('pos', S('P:' + x)) for x in (a, b, c)]
    order = sorted(range(3), key=lambda i: repr(pts[i]))
    mk = facts.mask(T('ori', *[pts[i] for i in order]), ZERO, e)
    if parity(order) < 0:
        mk = (mk & EQ) | (GT if mk & LT else 0) | (LT if mk & GT else 0)
    return mk


def enforcing(c, p):
    E = Enforce(p)
    m, f = E.m, E.process
    wh = where(f['span'], f['path'])
    c.count('functions_analysed')
    for pres in itertools.product((0, 1), repeat=3):
        for r in range(3):
            tris = ring(pres, r, r)
            for ep in ('E', 'P1', 'P2'):
                for seg in ((ep, 'Q'), ('U', 'V')):
                    lab = 'segment from Q to %s%s, triangle (%s), neighbors %s' % (ep, '' if seg[1] == 'Q' else ' on the way to another', ' '.join(tris['t'][0]), ''.join(map(str, pres)))
                    mem, facts = m.setup(tris, ('E',))
                    sw = sweeper_val(m, p, m.vec, mem)
                    args, am = E.args(f, sw, ep, 'Q', E.constrained_edge(*seg), ['t'], 'Q')
                    mem.update(am)
                    e = E.engine(tris)
                    old = {n: mem[('E', m.vec, S('T:' + n))] for n in tris}
                    outs = e.run(f['body'], args, mem, facts)
                    c.count('abstract_outcomes', len(outs))
                    if any(x[0] == 'loop' for o in outs for x in o.events):
                        c.und('enforcing a segment', wh, 'walks in a loop')
                        continue
                    through = {'P1': False, 'P2': False}
                    for o in outs:
                        one_triangle(c, E, e, o, old, tris, ep, seg, wh, lab, through)
                    if ep == 'E':
                        seen = any(x[0] == 'orient' for o in outs for x in o.events)
                        for k, v in through.items():
                            if not seen:
                                c.und('a point on the segment', wh, 'no orientation is asked for')
                            else:
                                c.expect(v, 'enforcement goes on from a point on the segment', wh, '%s: nothing continues from the corner %s' % (lab, k), 'through:' + k)


def one_triangle(c, E, e, o, old, tris, ep, seg, wh, lab, through):
    m = E.m
    go = [x for x in o.events if x[0] == 'go']
    if ep != 'E':
        if c.expect(not go, 'an edge that is there needs no further enforcement', wh, lab + ': continues', 'stop') and touched(c, m, o, tris, wh, lab):
            mark_changes(c, m, o.facts, old, elems(m, e, o, tris), tris, {frozenset(('Q', ep))}, 'a segment found in a triangle is marked on both sides', wh, lab, 'found')
        return
    if len(go) != 1:
        c.expect(len(go) > 1, 'enforcement goes on until the segment is an edge', wh, '%s: ends although the segment is no edge of the triangle' % lab, 'ends')
        if len(go) > 1:
            c.und('enforcing a segment', wh, '%s: %d continuations' % (lab, len(go)))
        return
    _, name, pts, trs, ce, snap, w2 = go[0]
    if set(o.aux['touched']) - {S('T:' + n) for n in tris}:
        c.und('marks', wh, lab + ': other triangles are written')
        return
    sg = {k: ori_sign(e, o.facts, 'Q', k, 'E') for k in ('P1', 'P2')}
    on = [k for k in sg if sg[k] == EQ]
    if len(on) == 2:
        return          # a triangle without area
    if on:
        k = on[0]
        through[k] = True
        d = lab + ', corner %s on the segment' % k
        mark_changes(c, m, o.facts, old, snap, tris, {frozenset(('Q', k))}, 'the part up to a point on the segment is marked on both sides', wh, d, 'part')
        c.expect(name == 'process' and pts[:2] == ('E', k) and pts[-1] == k, 'enforcement goes on from the point on the segment to the same end', w2, '%s: continues with %s' % (d, ', '.join(pts)), 'goes-on')
        c.expect(ce == (seg[0], k), 'the rest of the segment is what is enforced next', w2, '%s: the segment passed on is %s %s' % (d, ce[0], ce[1]) if ce else d, 'rest')
        if trs and len(trs) == 1:
            t = trs[0]
            side = ('B', 'zB') if k == 'P1' else ('A', 'yA')      # across the edge up to the point, and beyond the point there
            there = [S('T:' + x) for x, y in (('N', 'N'), (side[1], side[0])) if y in tris]
            nm_ = 'enforcement goes on in the triangle beyond the point on the segment'
            if t in there:
                c.ok(nm_, w2)
            elif t == m.INV or (t[0] == 's' and t[1].startswith('T:')):
                if t == m.INV and not there:
                    c.ok(nm_, w2)
                else:
                    c.bad(nm_, w2, '%s: continues in %s' % (d, 'no triangle' if t == m.INV else show(t)), 'beyond')
            else:
                c.und('triangle to go on in', w2, show(t)[:80])
        return
    for k in sg:
        c.expect(not sg[k] & EQ, 'a corner on the segment is noticed', wh, '%s: goes on without knowing whether %s lies on the segment' % (lab, k), 'noticed')
    mark_changes(c, m, o.facts, old, snap, tris, set(), '', wh, lab, '')
    c.expect(name in ('process', 'flip') and pts[:2] == ('E', 'Q') and pts[-1] == 'Q' and ce == seg, 'enforcement goes on with the same segment', w2, '%s: %s continues with %s, segment %s' % (lab, name, ', '.join(pts), ce), 'same')


def flipping(c, p):
    E = Enforce(p)
    m, f = E.m, E.flip
    wh = where(f['span'], f['path'])
    c.count('functions_analysed')
    rev = {1: ('C', 'Q'), 2: ('Q', 'W'), 3: ('W', 'O'), 4: ('O', 'C')}
    inside = {1: 't', 2: 't', 3: 'ot', 4: 'ot'}
    for i in range(3):
        for j in range(3):
            # t = (Q, C, W), across Q: ot = (O, W, C)
            miss = (None, 3, 4, 1, 2)[j] if i == 0 else 3 if (i, j) == (1, 2) else 4 if (i, j) == (2, 1) else None
            nb = {k: None if k == miss else 'n%d' % k for k in (1, 2, 3, 4)}
            tris = {'t': rotn_(('Q', 'C', 'W'), ('ot', nb[2], nb[1]), i), 'ot': rotn_(('O', 'W', 'C'), ('t', nb[4], nb[3]), j)}
            for k in nb:
                if nb[k] is None:
                    continue
                a, b = rev[k]
                tris[nb[k]] = rotn_(('X%d' % k, a, b), (inside[k], 'y%d' % k, 'z%d' % k), (i + j) % 3)
            for ep in ('O', 'E'):
                for seg in ((ep, 'Q'), ('U', 'Q'), (ep, 'V'), ('U', 'V')):
                    lab = 'segment from Q to %s, enforced segment %s %s, corners (%s) and (%s)' % (ep, seg[1], seg[0], ' '.join(tris['t'][0]), ' '.join(tris['ot'][0]))
                    mem, facts = m.setup(tris, ('E', 'U', 'V'))
                    sw = sweeper_val(m, p, m.vec, mem)
                    args, am = E.args(f, sw, ep, 'Q', E.constrained_edge(*seg), ['t'], 'Q')
                    mem.update(am)
                    v0 = {n: mem[('E', m.vec, S('T:' + n))] for n in ('t', 'ot')}
                    sh = {n: edge_no(tris, n, ('C', 'W')) for n in ('t', 'ot')}
                    for fs, (x, y) in m.query(facts, [('is_constrained', v0['t'], sh['t']), ('is_constrained', v0['ot'], sh['ot'])]):
                        if x or y:
                            continue
                        e = E.engine(tris)
                        outs = e.run(f['body'], list(args), dict(mem), fs)
                        c.count('abstract_outcomes', len(outs))
                        if any(z[0] == 'loop' for o in outs for z in o.events):
                            c.und('flipping towards a segment', wh, 'flips in a loop')
                            continue
                        seen = {'asked': any(z[0] == 'orient' for o in outs for z in o.events)}
                        for o in outs:
                            one_flip(c, E, e, o, tris, ep, seg, wh, lab, seen)
                            kept_in_flip(c, E, e, o, {n: mem[('E', m.vec, S('T:' + n))] for n in tris}, tris, wh, lab)


def one_flip(c, E, e, o, tris, ep, seg, wh, lab, seen):
    m = E.m
    go = [x for x in o.events if x[0] == 'go']
    st_elems = go[0][5] if go else elems(m, e, o, tris)
    name = {S('P:' + x): x for x in 'QCWO'}
    diag = {}
    for n in ('t', 'ot'):
        cs = tuple(name.get(o.facts.find(x)) for x in m.corners(st_elems[n]))
        for k in range(3):
            if edge_set(cs, k) == frozenset('QO'):
                diag[n] = k
    if not go:
        if not diag:
            c.bad('flipping goes on until the segment is an edge', wh, lab + ': ends without a flip', 'flip-ends')
            return
        if ep != 'O':
            c.bad('flipping goes on until the segment is an edge', wh, lab + ': ends although the new edge is not the segment', 'flip-ends')
            return
        if len(diag) != 2:
            c.und('flip', wh, lab + ': triangles after the flip')
            return
        full = seg == ('O', 'Q')
        asks = [('is_constrained', st_elems[n], diag[n]) for n in ('t', 'ot')]
        for fs, (a, b) in m.query(o.facts, asks):
            if full:
                c.expect(a and b, 'a segment made by a flip is marked on both sides', wh, '%s: marks %d/%d' % (lab, a, b), 'made')
            else:
                c.expect(not a and not b, 'a flip on the way to the segment marks nothing', wh, '%s: marks %d/%d' % (lab, a, b), 'made-other')
        return
    if ep != 'O' and diag and seg == (ep, 'Q'):
        sg = ori_sign(e, o.facts, 'Q', 'O', ep)
        if sg == EQ:
            on_flip(c, E, o, go, st_elems, diag, tris, ep, wh, lab + ', the corner across on the segment', seen)
            return
        if sg & EQ:
            c.und('a corner on the segment is noticed in a flip', wh, lab) if not seen['asked'] else c.bad('a corner on the segment is noticed in a flip', wh, lab + ': goes on without knowing whether the corner across lies on the segment', 'flip-noticed')
    for x in go:
        _, nme, pts, trs, ce, snap, w2 = x
        c.expect(ce == seg, 'flipping goes on with the same segment', w2, '%s: the segment passed on is %s' % (lab, ce), 'flip-same')
        if nme in ('flip', 'process'):
            c.expect(pts[:2] == (ep, 'Q'), 'flipping goes on towards the same end', w2, '%s: %s continues with %s' % (lab, nme, ', '.join(pts)), 'flip-end')
        elif nme == 'scan':
            c.expect(pts[:2] == (ep, 'Q'), 'flipping goes on towards the same end', w2, '%s: %s continues with %s' % (lab, nme, ', '.join(pts)), 'flip-end')
    last = go[-1][1]
    c.expect(last in ('flip', 'process'), 'flipping goes on until the segment is an edge', wh, '%s: ends after a search for another flip' % lab, 'flip-ends')
    if ep == 'O' and diag:
        c.bad('a segment made by a flip is marked on both sides', wh, lab + ': flips on although the new edge is the segment', 'made')


def on_flip(c, E, o, go, st_elems, diag, tris, ep, wh, d, seen):
    """a flip whose new edge ends at a corner on the segment"""
    m = E.m
    if len(diag) != 2 or len(go) != 1:
        c.und('flip', wh, d + ': %d continuations' % len(go))
        return
    _, nme, pts, trs, ce, snap, w2 = go[0]
    for fs, (a, b) in m.query(o.facts, [('is_constrained', st_elems[n], diag[n]) for n in ('t', 'ot')]):
        c.expect(a and b, 'the part up to a point on the segment is marked on both sides', w2, '%s: marks %d/%d' % (d, a, b), 'part')
    c.expect(nme == 'process' and pts[:2] == (ep, 'O') and pts[-1] == 'O', 'enforcement goes on from the point on the segment to the same end', w2, '%s: %s continues with %s' % (d, nme, ', '.join(pts)), 'goes-on')
    c.expect(ce == (ep, 'O'), 'the rest of the segment is what is enforced next', w2, '%s: the segment passed on is %s' % (d, ce), 'rest')
    nm_ = 'enforcement goes on in the triangle beyond the point on the segment'
    if trs and len(trs) == 1:
        if trs[0] in [S('T:' + x) for x in ('n3', 'n4') if x in tris]:
            c.ok(nm_, w2)
        elif trs[0] == m.INV or (trs[0][0] == 's' and trs[0][1].startswith('T:')):
            c.bad(nm_, w2, '%s: continues in %s' % (d, show(trs[0])), 'beyond')
        else:
            c.und('triangle to go on in', w2, show(trs[0])[:80])


def kept_in_flip(c, E, e, o, old, tris, wh, lab):
    """every mark of the surroundings is still on its edge when the step ends or goes on"""
    m = E.m
    go = [x for x in o.events if x[0] == 'go']
    new = go[0][5] if go else elems(m, e, o, tris)
    back = {S('P:' + x): x for n in tris for x in tris[n][0]}
    at = {}
    for n in tris:
        for k in range(3):
            cs = tuple(back.get(o.facts.find(x)) for x in m.corners(new[n]))
            at.setdefault(edge_set(cs, k), []).append((n, k))
    for n in ('t', 'ot'):
        for k in range(3):
            ed = edge_set(tris[n][0], k)
            if ed == frozenset('CW'):
                continue
            here = [(x, y) for x, y in at.get(ed, []) if x in ('t', 'ot')]
            if len(here) != 1:
                c.und('marks in a flip', wh, lab + ': triangles after the flip')
                return
            x, y = here[0]
            for fs, (a, b) in m.query(o.facts, [('is_constrained', old[n], k), ('is_constrained', new[x], y)]):
                c.expect(b or not a, 'no mark is lost in a flip', wh, '%s: the mark of the edge %s' % (lab, '-'.join(sorted(ed))), 'lost-flip')


def enforcement_start(c, p):
    E = Enforce(p)
    m = E.m
    f = find_fn(p, 'edge_event', ['&mut sweeper::Sweeper', 'shape::Edge', 'shape::Point', '&mut dyn cdt::Observer'], near='sweeper::')
    mark = find_fn(p, 'try_mark_edge_for_triangle', ['&mut sweeper::Sweeper', PI, PI, TI], 'bool')
    leg = find_fn(p, 'legalize', near='sweeper::')
    fill = find_fn(p, 'fill_edge_event')
    wh = where(f['span'], f['path'])
    c.count('functions_analysed')
    tris = {}
    mem, facts = m.setup(tris, ('E', 'Q'))
    sw = sweeper_val(m, p, m.vec, mem)
    e = E.engine(tris)

    def marking(ctx):
        st = ctx.st
        pts = [E.pn(st, unref(st, e, a)) for a, ty in zip(ctx.args, mark['inputs']) if ty == E.pid]
        n = sum(1 for x in st.events if x[0] == 'mark')
        v = e.truth(st, T('found', I(n)))
        st.ev('mark', tuple(pts), v, ctx.where())
        return I(int(v))

    def filling(ctx):
        ctx.st.ev('fill', ctx.where())
        e.set_vec(ctx.st, m.vec, ('V', S('mesh2'), ()))
        return UNIT if p.ty_s(ctx.dty) == '()' else e.fresh(ctx.st, 'any')

    def legal(ctx):
        ctx.st.ev('legal', ctx.where())
        return UNIT
    e.hooks[mark['path']] = marking
    e.hooks[fill['path']] = filling
    e.hooks[leg['path']] = legal
    args = []
    for ty in f['inputs']:
        if ty == E.edge_ty:
            v = [None, None]
            v[E.ep_i], v[E.eq_i] = m.pt('E'), m.pt('Q')
            args.append(('a', 0, tuple(v)))
        elif p.ty_s(ty) == 'shape::Point':
            args.append(T('pos', S('P:Q')))
        elif p.ty_s(ty).startswith('&mut sweeper'):
            args.append(sw)
        else:
            args.append(S('obs'))
    outs = e.run(f['body'], args, mem, facts)
    c.count('abstract_outcomes', len(outs))
    if not outs:
        c.und('start of the enforcement', wh, 'no outcome')
    for o in outs:
        ev = o.events
        go = [x for x in ev if x[0] == 'go']
        mk = [x for x in ev if x[0] == 'mark']
        for x in mk:
            c.expect(set(x[1]) == {'E', 'Q'}, 'the segment that is looked for is the segment to enforce', x[3], 'looks for %s %s' % x[1], 'start-look')
        done = any(x[2] for x in mk)
        if done:
            c.ok('a segment found is marked', wh)
            continue
        if not c.expect(len(go) >= 1, 'a segment that is not found is enforced', wh, 'the segment is dropped', 'dropped'):
            continue
        if len(go) > 1:
            c.und('start of the enforcement', wh, '%d calls' % len(go))
            continue
        _, nme, pts, trs, ce, snap, w2 = go[0]
        c.expect(nme == 'process' and pts[:2] == ('E', 'Q') and pts[-1] == 'Q', 'enforcement runs from the upper to the lower endpoint', w2, '%s with %s' % (nme, ', '.join(pts)), 'start-ends')
        c.expect(ce == ('E', 'Q'), 'the segment to enforce is the segment of the event', w2, 'segment passed on is %s' % (ce,), 'start-segment')


def mark_writers(c, p):
    """no code can clear a mark"""
    m = Mesh(p)
    tri = m.tri
    at = [i for i, t in enumerate(p.fields(tri)) if p.types[t]['k'] == 'array' and t not in (p.fields(tri)[m.fp], p.fields(tri)[m.fn])]
    if len(at) != 1:
        raise NoAnchor('edge marks of a triangle')
    attr_arr = p.fields(tri)[at[0]]
    attr = p.types[attr_arr]['elem']
    if p.types[attr]['k'] != 'adt':
        raise NoAnchor('type of the edge marks')
    # bit level: every method on a mark
    meth = [f for f in p.fns if f.get('body') and f.get('inputs') and p.types[f['inputs'][0]]['k'] == 'ref' and p.types[f['inputs'][0]]['mut'] and p.types[f['inputs'][0]]['elem'] == attr]
    c.count('functions_analysed', len(meth))
    get = m.acc['is_constrained']
    writers, setters = {}, set()
    for f in meth:
        wh = where(f['span'], f['path'])
        loc = [f['inputs'][k] for k in range(1, len(f['inputs']))]
        if any(p.types[t]['k'] != 'bool' for t in loc):
            c.und('method on a mark', wh, 'arguments')
            continue
        for vals in itertools.product((0, 1), repeat=len(loc)):
            e = Engine(p)
            o = ('P', 'attr')
            from mesh import symval
            v = symval(p, attr, 'a')
            clears = sets = False
            with c.guard('method on a mark', wh):
                for out in e.run(f['body'], [('r', o, ())] + [I(x) for x in vals], {o: v}, Facts()):
                    tv0, tv1 = list(m.triangle('q', ('x', 'y', 'z'), (None,) * 3)[2]), None
                    tv1 = list(tv0)
                    arr = list(tv0[at[0]][2])
                    tv0[at[0]] = ('a', 0, (v,) + tuple(arr[1:]))
                    tv1[at[0]] = ('a', 0, (out.mem[o],) + tuple(arr[1:]))
                    for fs, (a, b) in m.query(out.facts, [('is_constrained', ('a', 0, tuple(tv0)), 0), ('is_constrained', ('a', 0, tuple(tv1)), 0)]):
                        if a and not b:
                            clears = True
                        if b and not a:
                            sets = True
                writers.setdefault(f['path'], {})[vals] = clears
                if sets:
                    setters.add(f['path'])
    clearing = {}
    for path, d in writers.items():
        if not any(d.values()):
            c.ok('a method on a mark keeps the constraint bit', path)
        else:
            clearing[path] = {v for v, k in d.items() if k}
    if not writers:
        raise NoAnchor('methods on a mark')
    calls_that_clear(c, p, clearing, setters, {f['path'] for f in meth})
    other_writers(c, p, attr, attr_arr, at[0], meth)


def calls_that_clear(c, p, clearing, setters, methods):
    """call sites of methods that can clear the bit, followed upwards while the argument is handed on"""
    todo = [(k, v, k in setters) for k, v in clearing.items()]
    seen = set()
    merge = {f['path'] for f in p.fns if f['path'].split('::')[-1] in ('mark_neighbor_for_two_mut', 'mark_neighbor')}
    while todo:
        path, vals, setter = todo.pop()
        if path in seen:
            continue
        seen.add(path)
        for f in p.fns:
            if not f.get('body'):
                continue
            for s in call_sites(p, f['body']):
                bno, cal, t = s[0], s[1], s[2]
                if callee_path(cal) != path or f['path'] in methods:
                    continue
                w = where(bl_span(s), f['path'])
                c.count('call_sites')
                op = t[2][-1]
                if op[0] == 'const':
                    v = const_of(op)
                    if v is None:
                        c.und('value of a mark', w, str(op)[:80])
                    elif (v,) in vals and not setter:
                        # a side effect on a mark that need not be there
                        c.und('no code clears a constraint mark', w, '%s can clear the mark as a side effect' % path)
                    else:
                        c.expect((v,) not in vals, 'no code clears a constraint mark', w, '%s is called with a value that clears the mark' % path, 'clear:' + f['path'])
                    continue
                r = roots(f['body'], op)
                if all(x == ('arg', f['body']['argc']) for x in r):
                    todo.append((f['path'], vals, setter))
                    continue
                if f['path'] in merge or owner_in(p, f, merge):
                    c.ok('marks are merged where triangles are linked', w)
                    continue
                c.und('value of a mark', w, 'computed')


def owner_in(p, f, paths):
    return f['path'].rsplit('::{', 1)[0] in paths


def bl_span(s):
    return s[3]['sp']


def const_of(op):
    k = op[1]
    if k.get('c') == 'int':
        return int(k['v'])
    return None


def roots(body, op):
    """arguments or other sources an operand is a plain copy of"""
    if op[0] == 'const':
        return [('const', op)]
    loc, proj = op[1]
    if proj:
        return [('other', op)]
    defs = []
    for b in body['blocks']:
        for st in b['s']:
            if st[0] == '=' and st[1][0] == loc and not st[1][1]:
                defs.append(st[2])
        if b['t'][0] == 'call' and b['t'][3][0] == loc:
            defs.append(('call', b['t'][1]))
    if not defs:
        return [('arg', loc)] if 1 <= loc <= body['argc'] else [('other', op)]
    out = []
    for d in defs:
        out += roots(body, d[1]) if d[0] == 'use' else [('other', d)]
    return out


def other_writers(c, p, attr, arr, fi, meth):
    """marks overwritten as a whole: only in the rotation, whose outcome is compared with the rule"""
    names = {f['path'] for f in p.fns if f['path'].split('::')[-1] in ('rotate_triangle_pair', 'mark_neighbor_for_two_mut', 'mark_neighbor')}
    tri = p.adt('shape::InnerTriangle')
    own = {f['path'] for f in meth}
    over = {}
    for f in p.fns:
        b = f.get('body')
        if not b or f['path'] in own:
            continue
        for bl in b['blocks']:
            if bl['cl']:
                continue
            for st in bl['s']:
                if st[0] != '=':
                    continue
                ty = place_ty(p, b, st[1])
                if ty in (attr, arr) and any(x[0] in ('*', 'f') for x in st[1][1]) and through(p, b, st[1], tri, fi):
                    over.setdefault(f['path'], []).append((st, bl))
                elif ty == tri and any(x[0] == '*' for x in st[1][1]):
                    over.setdefault(f['path'], []).append((st, bl))
                elif st[2][0] == 'ref' and st[2][1] and place_ty(p, b, st[2][2]) in (attr, arr) and through(p, b, st[2][2], tri, fi):
                    # a mutable reference to a mark: handed to a method on a mark at once
                    loc = st[1][0]
                    t = bl['t']
                    ok = t[0] == 'call' and callee_path(t[1]) in own and any(a[0] in ('move', 'copy') and a[1][0] == loc for a in t[2])
                    if not ok:
                        c.und('reference to a mark', where(bl['sp'], f['path']), 'not handed to a method on a mark')
            t = bl['t']
            if t[0] == 'call' and place_ty(p, b, t[3]) in (attr, arr, tri) and any(x[0] == '*' for x in t[3][1]):
                over.setdefault(f['path'], []).append((None, bl))
    dom = dominated(p, names)
    todo, seen = list(over), set()
    while todo:
        g = todo.pop()
        if g in seen:
            continue
        seen.add(g)
        f = next(x for x in p.fns if x['path'] == g and x.get('body'))
        w = where(f['span'], g)
        if g in names or g in dom:
            c.ok('marks are overwritten only where a pair is rotated or linked', w)
            continue
        first = f['body']['locals'][1] if f['body']['argc'] else None
        if first is not None and p.types[first]['k'] == 'ref' and p.types[first]['elem'] == tri:
            # a method on a triangle: look at who uses it
            cs = {h['path'] for h in p.fns if h.get('body') for s in call_sites(p, h['body']) if callee_path(s[1]) == g}
            todo += list(cs)
            if not cs:
                c.ok('marks are overwritten only where a pair is rotated or linked', w)
            continue
        c.und('marks overwritten', w, 'outside the rotation')
    c.count('functions_that_overwrite_marks', len(over))


def through(p, b, place, tri, fi):
    """does this place go through the marks of a triangle?"""
    ty = b['locals'][place[0]]
    for x in place[1]:
        if x[0] == 'f' and ty == tri and x[1] == fi:
            return True
        ty = proj_ty(p, ty, x)
        if ty is None:
            return True
    return False


def proj_ty(p, ty, x):
    t = p.types[ty]
    if x[0] == '*':
        return t.get('elem')
    if x[0] == 'f':
        return x[2]
    if x[0] in ('i', 'ci'):
        return t.get('elem')
    if x[0] == 'd':
        return ty
    return None


def place_ty(p, b, place):
    ty = b['locals'][place[0]]
    for x in place[1]:
        if ty is None:
            return None
        ty = proj_ty(p, ty, x)
    return ty


CHECKS = {'C13': c13}
