"""The sweep as a whole: order of the steps (C10), observer protocol (C03), growth (C20)."""
from common import *
from graph import *
from engine import *
from mesh import *
from geom import *
from frontmodel import *
from checks_c import tri_corners, cyc, leaves


def same_upto(st, a, b):
    return st.facts.find(a) == st.facts.find(b) or (is_term(a) and is_term(b) and lin_add(st.facts.find(a), st.facts.find(b), -1) == I(0))


def subst(v, m):
    """replace symbols in a value"""
    if v in m:
        return m[v]
    if v[0] == 'a':
        return ('a', v[1], tuple(subst(x, m) for x in v[2]))
    if v[0] == 't':
        return T(v[1], *[subst(x, m) if isinstance(x, tuple) and x and isinstance(x[0], str) else x for x in v[2:]])
    if v[0] == 'lin':
        out = I(v[2])
        for t, k in v[1]:
            d, n = lin_parts(subst(t, m))
            out = lin_add(out, lin_make({x: y * k for x, y in d.items()}, n * k))
        return out
    if v[0] == 'r':
        return ('r', tuple(subst(x, m) if isinstance(x, tuple) and x and isinstance(x[0], str) else x for x in v[1]), v[2])
    return v


def segments(e, base):
    """a sequence as pieces: ('lit', elements) | ('base', term) | ('rep', K symbol, count, elements pushed in iteration K, summary) | ('sorted', pieces, method)"""
    if base is None:
        return []
    if base[0] == 't':
        k = base[1]
        if k == 'vecof':
            return segments(e, base[2]) + ([('lit', list(base[3:]))] if len(base) > 3 else [])
        if k == 'concat':
            return segments(e, base[2]) + segments(e, base[3])
        if k == 'sorted':
            return [('sorted', segments(e, base[4]), base[2])]
        if k == 'rep' and base[4] is not None:
            lid, _, obj = base[2].partition(':') if False else (None, None, None)
            for l, ss in e.loop_summ.items():
                if base[2].startswith(l + ':'):
                    s = ss[-1]
                    K = S(l + ':K')
                    alts = []
                    for b in s['backs']:
                        for o, c in b.mem.items():
                            if isinstance(c, tuple) and c and c[0] == 'V' and is_rep(c[1], base[2]):
                                alts.append(list(c[2]))
                    pre = base[3]
                    pieces = segments(e, pre[1]) + ([('lit', list(pre[2]))] if pre[2] else [])
                    return pieces + [('rep', K, base[5], alts, s)]
    return [('base', base)]


def is_rep(b, name):
    return b is not None and b[0] == 't' and b[1] == 'rep' and b[2] == name


def vec_segments(e, st, v):
    c = e.load_obj(st, v[1]) if v[0] == 'v' else v
    if c[0] != 'V':
        raise Undecided('not a sequence')
    return segments(e, c[1]) + ([('lit', list(c[2]))] if c[2] else [])


# ------------------------------------------------------------------------ C10
class Sweep:
    """the points structure as terms"""

    def __init__(self, p):
        self.p = p
        self.PO = p.adt('points::Points')
        self.PI, self.PT, self.PE = p.adt('points::PointId'), p.adt('shape::Point'), p.adt('points::PointEdges')
        self.ED = p.adt('shape::Edge')
        if None in (self.PO, self.PI, self.PT, self.PE, self.ED):
            raise NoAnchor('point types')
        self.f = {}
        for i, t in enumerate(p.fields(self.PO)):
            ty = p.types[t]
            if ty['k'] == 'adt' and ty['path'] == 'std::vec::Vec':
                el = [a for a in (ty.get('args') or []) if isinstance(a, int)][0]
                for nm, w in (('order', self.PI), ('points', self.PT), ('edges', self.PE)):
                    if el == w:
                        if nm in self.f:
                            raise NoAnchor('two sequences of %s' % nm)
                        self.f[nm] = i
        if set(self.f) != {'order', 'points', 'edges'}:
            raise NoAnchor('sequences of points, segments and order')
        self.ep, self.eq = p.field_index(self.ED, 'p'), p.field_index(self.ED, 'q')
        self.var = {}
        for i, v in enumerate(p.types[self.PE]['variants']):
            self.var[i] = len(p.fields(self.PE, i))
        if sorted(self.var.values()) != [0, 1, 2]:
            raise NoAnchor('segments of a point')

    def seq(self, base, nm):
        return T('fld', base, 0, self.f[nm])

    def raw(self, pid):
        return T('fld', pid, 0, 0)


def record_calls(e, fns, evs=True):
    for nm, f in fns.items():
        e.hooks[f['path']] = (lambda nm: lambda ctx: (ctx.st.ev('call', nm, tuple(unref(ctx.st, e, a) for a in ctx.args), ctx.where()), UNIT)[1])(nm)


def observe(e):
    def virt(ctx):
        nm = ctx.path.split('::')[-1]
        ctx.st.ev('obs', nm, tuple(unref(ctx.st, e, a) for a in ctx.args), ctx.where())
        return UNIT
    e.virt = virt


def sweep_run(p):
    f = find_fn(p, 'sweep_points', ['&mut sweeper::Sweeper', '&mut dyn cdt::Observer'])
    fns = {'point_event': find_fn(p, 'point_event', ['&mut sweeper::Sweeper', 'points::PointId', 'shape::Point', '&mut dyn cdt::Observer'], near='sweeper::'),
           'edge_event': find_fn(p, 'edge_event', ['&mut sweeper::Sweeper', 'shape::Edge', 'shape::Point', '&mut dyn cdt::Observer'], near='sweeper::')}
    e = Engine(p, max_states=20000)
    e.force_unroll = 3
    observe(e)
    record_calls(e, fns)
    args, mem = e.sym_args(f['body'], ['a%d' % i for i in range(f['body']['argc'])])
    outs = e.run(f['body'], args, mem)
    return f, e, args, outs


def flat_events(evs):
    for x in evs:
        if x[0] == 'loop':
            for alt in x[2]:
                yield from flat_events(alt)
        else:
            yield x


def point_loop(e):
    """the loop over the points (its iterations start point events), once for each way to reach it"""
    out = []
    for lid, ss in e.loop_summ.items():
        if any(x[0] == 'call' and x[1] == 'point_event' for s in ss for b in s['backs'] for x in flat_events(b.events)):
            out.append(ss)
    if len(out) > 1:
        raise Undecided('%d loops insert points' % len(out))
    return out[0] if out else []


def iteration(c, w, e, st, wh, Y, PTS, EDG):
    """obligations of one iteration; returns the index of the point in sweep order (None if not understood)"""
    p = w.p
    if any(x[0] == 'loop' for x in st.events):
        c.und('one point at a time', wh, 'an inner loop does not resolve')
        return None
    pe = [x for x in st.events if x[0] == 'call' and x[1] == 'point_event']
    if not c.expect(len(pe) == 1, 'each step of the sweep inserts exactly one point', wh, '%d points are inserted in one step' % len(pe), 'one-point'):
        return None
    a = pe[0][2]
    pid, X = a[1], a[2]
    pid = st.facts.find(pid) if is_term(pid) else pid
    if not (pid[0] == 't' and pid[1] == 'elem' and pid[2] == Y):
        c.und('points are taken from the sweep order', wh, 'point is %s' % show(pid))
        return None
    want = T('elem', PTS, w.raw(pid))
    c.expect(X == want or st.facts.find(X) == want, 'a point is inserted at its own position', pe[0][3], 'position is %s' % show(X))
    ee = [x for x in st.events if x[0] == 'call' and x[1] == 'edge_event']
    cell = T('elem', EDG, w.raw(pid))
    poss = [k for k in w.var if may_var(st, cell, k)]
    got = []
    for x in ee:
        ed, pos = x[2][1], x[2][2]
        c.expect(st.events.index(x) > st.events.index(pe[0]), 'segments are enforced after their point is inserted', x[3], 'a segment is enforced before its point is inserted')
        c.expect(at1(ed, w.eq) == pid, 'a segment is enforced towards the point just inserted', x[3], 'the segment ends at %s' % show(at1(ed, w.eq)))
        c.expect(pos == want, 'a segment is enforced towards the position of the point just inserted', x[3], 'position is %s' % show(pos))
        got.append(at1(ed, w.ep))
    for k in poss:
        need = [T('fld', cell, k, i) for i in range(w.var[k])]
        c.expect(sorted(map(repr, got)) == sorted(map(repr, need)), 'every segment attached to the point is enforced once, and no other', wh,
                 'a point with %d segments: enforced %s' % (w.var[k], [show(x) for x in got]), 'segments')
    return pid[3]


def at1(v, i):
    return v[2][i] if v[0] == 'a' else T('fld', v, 0, i)


def may_var(st, t, k):
    v = [x for x in st.facts.log if x[0] == 'var' and x[1] == t]
    return not v or v[0][2] == k


def c10():
    c = Check('C10', 'Abstract interpretation of the sweep loop: the first step handles position 1 of the sweep order, a step at position i is followed by a step at i+1 (proved from an arbitrary loop state), '
              'the loop ends only at the end of the order; per step the events are exactly one insertion and one enforcement per attached segment. The order sequence is shown to hold every identifier once, '
              'and the run to be start triangle, sweep, extraction.', ['the comparator sorts as C09 says', 'inserting does what C18 says'])
    p = prog()
    with c.guard('sweep loop'):
        sweep_loop(c, p)
    with c.guard('sweep order'):
        sweep_order(c, p)
    with c.guard('whole run'):
        whole_run(c, p)
    return c.finish()


def sweep_loop(c, p):
    w = Sweep(p)
    f, e, args, outs = sweep_run(p)
    wh = where(f['span'], f['path'])
    c.count('functions_analysed')
    loops = point_loop(e)
    if not loops:
        c.und('sweep loop', wh, 'no loop inserts points')
        return
    SW = p.adt('sweeper::Sweeper')
    pf = [i for i, t in enumerate(p.fields(SW)) if p.types[t]['k'] == 'ref' and p.types[t]['elem'] == w.PO]
    if len(pf) != 1:
        raise NoAnchor('points of the sweep')
    base = T('deref', T('fld', S('a0'), 0, pf[0]))
    Y, PTS, EDG = (w.seq(base, k) for k in ('order', 'points', 'edges'))
    n = T('len', Y)
    # nothing outside the loop
    for st in outs:
        for x in st.events:
            if x[0] == 'call':
                c.und('sweep loop', wh, 'steps outside the loop')
                return
    for s in loops:
        b0, x0 = e.next_iteration(s, s['entry'])
        c.count('loop_states', len(b0) + len(s['backs']))
        for b in b0:
            i = iteration(c, w, e, b, wh, Y, PTS, EDG)
            if i is not None:
                c.expect(b.facts.find(i) == I(1), 'the sweep starts with the second point of the order', wh, 'first position is %s' % show(i))
        for x in x0:
            c.expect(not x.facts.mask(I(1), n, e) & LT, 'the sweep is left out only if there is one point', wh, 'the loop may end before the second point')
        for b in s['backs']:
            i = iteration(c, w, e, b, wh, Y, PTS, EDG)
            if i is None:
                continue
            i = b.facts.find(i) if is_term(i) else i
            nb, nx = e.next_iteration(s, b)
            for q in nb:
                c2 = Check('C10', '', [])
                j = iteration(c2, w, e, q, wh, Y, PTS, EDG)
                if j is None:
                    c.und('positions follow each other', wh)
                    continue
                c.expect(same_upto(q, lin_add(i, I(1)), j), 'the step after position i handles position i+1', wh, 'from %s to %s' % (show(i), show(j)))
            for q in nx:
                c.expect(not q.facts.mask(lin_add(i, I(1)), n, e) & LT, 'the sweep ends only after the last point', wh, 'the loop may end although position i+1 exists', 'end')
        c.count('loop_induction_steps', len(s['backs']))


def points_new(p):
    f = find_fn(p, 'new', near='points::Points::')
    e = Engine(p, max_states=20000)
    args, mem = e.sym_args(f['body'], ['a%d' % i for i in range(f['body']['argc'])])
    outs = e.run(f['body'], args, mem)
    return f, e, args, outs


def sweep_order(c, p):
    w = Sweep(p)
    f, e, args, outs = points_new(p)
    wh = where(f['span'], f['path'])
    c.count('functions_analysed')
    pk = next(i for i in range(len(args)) if 'Point>' in p.ty_s(f['body']['locals'][i + 1]))
    P = S('a%d' % pk)
    for st in outs:
        r = st.ret
        if r[0] != 'a':
            c.und('sweep order', wh, 'result not built here')
            continue
        segs = vec_segments(e, st, r[2][w.f['order']])
        ids, why = order_ids(e, st, segs)
        if ids is None:
            c.und('sweep order holds every point once', wh, why)
            continue
        src, cnt, what = ids
        c.expect(what == 'all', 'sweep order holds every point once', wh, what)
        c.expect(same_upto(st, cnt, T('len', P)), 'sweep order is as long as the list of supplied points', wh, 'length is %s' % show(cnt))


def order_ids(e, st, segs):
    """(source, count, 'all' or what is wrong): the order is a sorted list of all identifiers, possibly projected"""
    if len(segs) == 1 and segs[0][0] == 'sorted':
        return sorted_ids(e, st, segs[0], None)
    if len(segs) == 1 and segs[0][0] == 'rep' and len(segs[0][3]) == 1 and len(segs[0][3][0]) == 1:
        _, K, cnt, alts, summ = segs[0]
        v = alts[0][0]
        pos, path = v, []
        while pos[0] == 't' and pos[1] == 'fld':
            path.append(pos[4])
            pos = pos[2]
        if pos[0] == 't' and pos[1] == 'elem' and pos[2][0] == 't' and pos[2][1] == 'sorted':
            if pos[3] != K:
                return (None, cnt, 'element %s of the sorted list is taken at place %s' % (show(pos[3]), show(K))), None
            r, why = sorted_ids(e, st, segments(e, pos[2])[0], path[::-1])
            if r is None:
                return None, why
            if not same_upto(st, r[1], cnt):
                return (r[0], cnt, 'only %s of %s sorted points are kept' % (show(cnt), show(r[1]))), None
            return r, None
    return None, 'order is not a sorted list'


def sorted_ids(e, st, seg, path):
    inner = seg[1]
    if len(inner) != 1 or inner[0][0] != 'rep' or len(inner[0][3]) != 1 or len(inner[0][3][0]) != 1:
        return None, 'sorted list is not built point by point'
    _, K, cnt, alts, summ = inner[0]
    v = alts[0][0]
    if path:
        for i in path:
            v = at1(v, i)
    fl = list(leaves(v))
    if path is None:
        fl = fl[:1]
    if len(fl) == 1 and fl[0] == K:
        return (None, cnt, 'all'), None
    return (None, cnt, 'point %s has identifier %s' % (show(K), show(v))), None


def run_events(p, extract=None):
    w = Sweep(p)
    f = find_fn(p, 'triangulate_with_observer')
    wh = where(f['span'], f['path'])
    e = Engine(p, max_states=20000)
    observe(e)
    sw = find_fn(p, 'sweep_points', ['&mut sweeper::Sweeper', '&mut dyn cdt::Observer'])
    fin = find_fn(p, 'finalize_polygon', ['&mut sweeper::Sweeper'])
    record_calls(e, {'sweep': sw, 'extract': fin})
    if extract:
        e.hooks[fin['path']] = extract(e)
    af = find_fn(p, 'new', near='AdvancingFront')
    e.hooks['triangles::TriangleStore::insert'] = lambda ctx: (ctx.st.ev('tri.new', unref(ctx.st, e, ctx.args[1]), ctx.where()), agg(S('t%d' % len(ctx.st.events))))[1]
    e.hooks[af['path']] = lambda ctx: (ctx.st.ev('front', tuple(unref(ctx.st, e, a) for a in ctx.args), ctx.where()), S('front'))[1]
    TI = p.adt('triangles::TriangleId')

    def lookup(ctx):
        v = unref(ctx.st, e, ctx.args[1])
        t = T('tri', list(leaves(v))[0])
        obj = ('P', 'tri:' + repr(t))
        ctx.st.mem[obj] = t
        return some(('r', obj, ()))
    e.hooks['triangles::TriangleStore::get'] = lookup
    args, mem = e.sym_args(f['body'], ['a%d' % i for i in range(f['body']['argc'])])
    outs = e.run(f['body'], args, mem)
    return f, e, args, outs, wh


def whole_run(c, p):
    w = Sweep(p)
    f, e, args, outs, wh = run_events(p)
    c.count('functions_analysed')
    PO = w.PO
    self_ty = f['body']['locals'][1]
    pk = [i for i, t in enumerate(p.fields(self_ty)) if t == PO]
    if not pk:
        raise NoAnchor('points of the problem')
    base = T('fld', S('a0'), 0, pk[0])
    Y = w.seq(base, 'order')
    hd, tl = p.field_index(PO, 'head'), p.field_index(PO, 'tail')
    for st in outs:
        ev = [x for x in st.events if x[0] in ('tri.new', 'front', 'call')]
        kinds = [x[0] if x[0] != 'call' else x[1] for x in ev]
        if any(x[0] == 'loop' for x in st.events):
            c.und('start triangle, sweep, extraction', wh, 'loop in the run')
            continue
        c.expect(sorted(kinds) == sorted(['tri.new', 'front', 'sweep', 'extract']), 'one start triangle, one sweep, one extraction', wh, 'steps are %s' % kinds)
        order = [k for k in ('tri.new', 'front', 'sweep', 'extract') if k in kinds]
        c.expect(kinds == order, 'start triangle, then front, then sweep, then extraction', wh, 'steps are %s' % kinds)
        for x in ev:
            if x[0] == 'tri.new':
                got = cyc(tri_corners(p, x[1]))
                want = cyc((T('elem', Y, I(0)), T('fld', base, 0, hd), T('fld', base, 0, tl)))
                c.expect(got == want, 'the start triangle joins the first point of the order with the two synthetic points, counter-clockwise', x[2], 'corners are %s' % ', '.join(map(show, got)))
    if not outs:
        c.und('whole run', wh, 'no outcome')


CHECKS = {'C10': c10}
