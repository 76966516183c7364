"""Sweep steps: filling (C18), segment filling (C19), and what follows from them."""
from common import *
from graph import *
from engine import *
from mesh import *
from geom import *
from frontmodel import *
import checks_b

AFI = 'sweeper::Sweeper'


# ------------------------------------------------------------------------ C19
def unit_args(p, w, f, mem_names=None):
    e = w.e
    names = ['a%d' % i for i in range(f['body']['argc'])]
    return e.sym_args(f['body'], names)


def edge_point_args(p, w, f, args, mem):
    """an edge event is called with the position of the edge's later endpoint"""
    ED = p.adt('shape::Edge')
    ei = [i for i in range(len(args)) if f['body']['locals'][i + 1] == ED]
    pi = [i for i in range(len(args)) if f['body']['locals'][i + 1] == w.PT]
    if len(ei) == 1 and len(pi) == 1:
        q = p.field_index(ED, 'q')
        args[pi[0]] = w.pos(T('fld', args[ei[0]], 0, q))
    return args


def c19_units(c, p):
    root = find_fn(p, 'edge_event', types=['&mut sweeper::Sweeper', 'shape::Edge', 'shape::Point', '&mut dyn cdt::Observer'])
    heads, rd = recursive_heads(p, root['id'])
    # only steps that can change the front matter here
    dele = [f for f in p.fns if f.get('body') and f['path'].split('::')[-1] == 'update_and_delete_by_index']
    dset = {f['id'] for f in dele}
    heads = [f for f in heads if dset & reach(p, [f['id']])]
    others = [f for f in recursive_heads(p, root['id'])[0] if f not in heads]
    return root, heads, others


def run_unit(c, p, f, opaque, setup=None):
    e = Engine(p, max_states=20000)
    e.peel = True
    w = World(p, e, opaque)
    args, mem = unit_args(p, w, f)
    if setup:
        args = setup(p, w, f, args, mem)
    outs = e.run(f['body'], args, mem)
    c.sites = getattr(c, 'sites', set()) | e.fnseen
    c.count('functions_analysed')
    c.count('abstract_outcomes', len(outs))
    return e, w, outs, args


def c19():
    c = Check('C19', 'Modular dataflow over the segment-filling functions: at every removal of a front node the orientation test of exactly that corner with its current two neighbors must be known '
              'to be concave; a corner tested by the caller becomes a precondition, propagated to every call site through the call graph until none is left at the edge event. '
              'Left and right routines are compared path by path after mirroring (neighbors, orientation and x order exchanged).',
              ['node identifiers that are passed on name nodes still on the front', 'front lookups behave as C17 says'])
    p = prog()
    with c.guard('segment filling'):
        root, heads, others = c19_units(c, p)
        op = heads + others
        units = {}
        und = set()
        for f in [root] + heads:
            try:
                units[f['path']] = (f,) + run_unit(c, p, f, op, edge_point_args if f is root else None)
            except Undecided as u:
                c.und('segment filling', where(f['span'], f['path']), str(u))
                und.add(f['path'])
        concave(c, p, root, heads, units, und)
        dispatch(c, p, root, units)
        mirror(c, p, heads, units)
    return c.finish()


def relative(n, args):
    """(parameter, offset) of a node relative to a parameter in the front as it was at entry"""
    if n in args:
        return args.index(n), 0
    if n[0] == 't' and n[1] == 'fnode' and n[2] == I(0) and n[3] in args:
        return args.index(n[3]), n[4][1]
    return None


def concave(c, p, root, heads, units, und):
    req = {}          # path -> {(param, offset): fill site}
    nsites = set()
    for path, (f, e, w, outs, args) in units.items():
        for n, okk, st, wh, _ in w.dels:
            nsites.add((path, wh))
            if n is None:
                c.und('removed corner', wh, 'index of the removed node is not taken from a node')
                continue
            if okk:
                c.ok('a removed corner was tested concave', '%s via %s' % (wh, path))
                continue
            r = relative(n, args)
            if r is not None and not w.cur(st)[1] and w.cur(st)[0] == 0 and path != root['path']:
                req.setdefault(path, {})[r] = wh
            elif str(w.cur(st)[0]).startswith('L'):
                c.count('loop_states_left_to_unrolled_iterations')
            else:
                c.bad('a removed corner was tested concave', wh, 'in %s the corner %s is removed without its orientation test' % (path, show(n)), '%s:%s' % (path.split('::')[-1], wh.split(' ')[0]))
    c.count('fill_sites', len(nsites))
    done = set()
    work = True
    while work:
        work = False
        for path, (f, e, w, outs, args) in units.items():
            for k, (callee, cargs, st, wh) in enumerate(w.calls):
                for (pi, off), site in list(req.get(callee, {}).items()):
                    if (path, k, pi, off) in done:
                        continue
                    done.add((path, k, pi, off))
                    work = True
                    n = cargs[pi]
                    for _ in range(abs(off)):
                        n = w.step_term(st, n, 1 if off > 0 else -1)
                    c.count('call_sites_checked')
                    if w.concave(st, n):
                        c.ok('a corner handed on for filling was tested concave', wh)
                        continue
                    r = relative(n, args)
                    if r is not None and abs(r[1]) <= 4 and not w.cur(st)[1] and w.cur(st)[0] == 0 and path != root['path']:
                        if r not in req.setdefault(path, {}):
                            req[path][r] = site
                            done = {d for d in done if True}
                    elif str(w.cur(st)[0]).startswith('L'):
                        c.count('loop_states_left_to_unrolled_iterations')
                    else:
                        c.bad('a corner handed on for filling was tested concave', wh, '%s calls %s, which fills the corner %s at %s, without the orientation test of that corner' % (
                            path, callee, show(n), site), '%s->%s' % (path.split('::')[-1], callee.split('::')[-1]))


def dispatch(c, p, root, units):
    """the right-hand routines are used exactly when the segment's upper... earlier endpoint lies right of the later one"""
    u = units.get(root['path'])
    if not u:
        return
    f, e, w, outs, args = u
    ED = p.adt('shape::Edge')
    ei = [a for i, a in enumerate(args) if f['body']['locals'][i + 1] == ED]
    if not ei:
        c.und('side of a segment', where(f['span']), 'no edge parameter')
        return
    P = w.pos(T('fld', ei[0], 0, p.field_index(ED, 'p')))
    Q = w.pos(T('fld', ei[0], 0, p.field_index(ED, 'q')))
    x = lambda t: T('fld', t, 0, w.xi)
    y = lambda t: T('fld', t, 0, w.yi)
    seen = 0
    for o in outs:
        m = o.facts.mask(x(P), x(Q), e)
        names = [ev[1] for ev in o.events if ev[0] == 'call']
        flat = repr(o.events)
        side = set()
        for ev in all_events(o.events):
            if ev[0] == 'call':
                for s in ('right', 'left'):
                    if s in ev[1].split('_'):
                        side.add(s)
        # the comparisons made on the way tell the side, too
        dirs = walk_dirs(o)
        if side or dirs:
            seen += 1
            for sd, no in (('right', LT), ('left', GT)):
                if sd in side | dirs:
                    c.expect(m & no == 0, 'the side searched is the side the segment leans to', where(f['span'], f['path']),
                             'the %s side is filled although the start of the segment may lie %s of its end' % (sd, 'left' if sd == 'right' else 'right'))
    c.count('dispatch_outcomes', seen)
    if not seen:
        c.und('side of a segment', where(f['span']), 'no outcome fills')
    # every routine gets the endpoints of the segment
    for callee, cargs, st, wh in w.calls:
        for a in cargs:
            if a[0] == 'a' and len(a[2]) >= 3:
                pts = [v for v in a[2] if v[0] == 't' and v[1] == 'pos']
                if pts:
                    c.expect(set(pts) <= {P, Q}, 'filling works with the endpoints of the segment', wh, '/'.join(show(v) for v in pts))


def all_events(evs):
    for ev in evs:
        if ev[0] == 'loop':
            for alt in ev[2]:
                yield from all_events(alt)
        else:
            yield ev


def walk_dirs(o):
    d = set()
    for x in o.facts.log:
        if x[0] == 'b' and x[1][0] == 't' and x[1][1] == 'exists':
            n = x[1][2]
            if n[0] == 't' and n[1] == 'fnode':
                d.add('right' if n[4][1] > 0 else 'left')
    return d


# -- mirror images
def canon_sym(s):
    s = re.sub(r'\bright\b|(?<=_)right(?=_)|(?<=_)right\b', 'left', s)
    s = re.sub(r'@\d+', '@', s)
    s = re.sub(r'/f\d+', '', s)
    s = re.sub(r':f?\d+', '', s)
    if s.startswith('tv:'):
        return 'tv'
    return s


class Canon:
    def __init__(self, w, mir, ren):
        self.w, self.mir, self.ren = w, mir, ren

    def t(self, v):
        if not isinstance(v, tuple) or not v:
            return v
        if v in self.ren:
            return self.ren[v]
        if v[0] == 's':
            return S(canon_sym(v[1]))
        if v[0] == 't':
            if v[1] == 'fnode' and self.mir:
                return T('fnode', self.t(v[2]), self.t(v[3]), I(-v[4][1]))
            if v[1] == 'nref':
                return self.t(v[2])
            if v[1] == 'newtri':
                return T('newtri', v[2])
            if v[1] == 'ret':
                return T('ret', self.t(v[2]), v[3])
            return ('t', v[1]) + tuple(self.t(x) for x in v[2:])
        if v[0] == 'a':
            return ('a', v[1], tuple(self.t(x) for x in v[2]))
        if v[0] in ('r', 'v'):
            return ('r',)
        return v

    def isx(self, t):
        return t[0] == 't' and t[1] == 'fld' and t[2][0] == 't' and t[2][1] == 'pos' and t[3] == 0 and t[4] == self.w.xi

    def cond(self, x):
        """canonical condition"""
        if x[0] == 'rel':
            a, b, m = x[1], x[2], x[3]
            fl = lambda m: (m & EQ) | (GT if m & LT else 0) | (LT if m & GT else 0)
            for t in (a, b):
                if t[0] == 't' and t[1] == 'ori':
                    # re-sort the corners after renaming; mirroring reverses the sense
                    pts = [self.t(y) for y in t[2:]]
                    order = sorted(range(3), key=lambda i: repr(pts[i]))
                    n = T('ori', *[pts[i] for i in order])
                    if t is b:
                        m = fl(m)
                    if parity(order) < 0:
                        m = fl(m)
                    if self.mir:
                        m = fl(m)
                    return ('rel', n, ZERO, m)
            if (self.isx(a) or self.isx(b)) and self.mir:
                m = fl(m)
            a, b = self.t(a), self.t(b)
            if repr(b) < repr(a):
                a, b, m = b, a, fl(m)
            return ('rel', a, b, m)
        return (x[0], self.t(x[1])) + x[2:3]

    def conds(self, log):
        # which triangle a node names is not mirrored: it is always the one of the edge to its right
        return [self.cond(x) for x in log if "'nref'" not in repr(x)]

    def ev(self, x):
        if x[0] in ('orient', 'tri.new', 'link', 'legalize', 'af.update'):
            return None
        if x[0] == 'af.delete':
            ix = x[1][3] if len(x[1]) > 3 else None
            return ('fill', self.t(ix[2]) if ix and ix[0] == 't' and ix[1] == 'index' else None)
        if x[0] == 'call':
            return ('call', canon_sym(x[1]), tuple(self.t(a) for a in x[2]))
        if x[0] == 'loop':
            return ('loop',)
        if x[0] in ('virt',):
            return ('virt', x[1])
        return tuple(self.t(y) if isinstance(y, tuple) else y for y in x[:-1])

    def evs(self, evs):
        return tuple(y for y in (self.ev(x) for x in evs) if y is not None)


def joint(c1, c2):
    """are two condition lists jointly possible?"""
    rel, oth = {}, {}
    for x in list(c1) + list(c2):
        if x[0] == 'rel':
            k = (x[1], x[2])
            rel[k] = rel.get(k, 7) & x[3]
            if not rel[k]:
                return False
        else:
            k = (x[0], x[1])
            if oth.setdefault(k, x[2] if len(x) > 2 else None) != (x[2] if len(x) > 2 else None):
                return False
    return True


def loops_of(e):
    return [s[-1] for k, s in e.loop_summ.items()]


def loop_syms(e, mir, w, args):
    """rename the symbols a loop carries after what they start with"""
    ren = {}
    for k, ss in e.loop_summ.items():
        h, st0 = ss[-1]['head'], ss[-1]['entry']
        for obj, v in h.mem.items():
            if v[0] == 's' and v[1].startswith(k + ':') and obj in st0.mem:
                base = Canon(w, mir, {}).t(st0.mem[obj])
                ren[v] = T('lv', base)
    return ren


def mirror(c, p, heads, units):
    by = {f['path'].split('::')[-1]: f for f in heads}
    pairs = [(f, by[canon_sym(n)]) for n, f in by.items() if 'right' in n.split('_') and canon_sym(n) in by]
    # routines without recursion of their own
    for f in p.fns:
        n = f['path'].split('::')[-1]
        if f.get('body') and 'right' in n.split('_') and n not in by:
            g = [x for x in p.fns if x.get('body') and x['path'].split('::')[-1] == canon_sym(n)]
            if len(g) == 1 and AFI in f['path']:
                pairs.append((f, g[0]))
    c.count('mirror_pairs', len(pairs))
    if not pairs:
        c.und('mirror images', '', 'no pair of left and right routines')
    for r, l in pairs:
        with c.guard('left and right are mirror images', '%s / %s' % (where(r['span'], r['path']), l['path'])):
            us = []
            for f in (r, l):
                u = units.get(f['path'])
                us.append(u or (f,) + run_unit(c, p, f, [x for x in heads if x is not f]))
            compare(c, r, l, us)


def alts(u, mir):
    f, e, w, outs, args = u
    ren = loop_syms(e, mir, w, args)
    cn = Canon(w, mir, ren)
    fin = []
    for o in outs:
        r = w.shallow(o, o.ret) if o.ret is not None else UNIT
        fin.append((cn.conds(o.facts.log), (cn.t(r), cn.evs(o.events)), o))
    lps = []
    for k, ss in e.loop_summ.items():
        s = ss[-1]
        backs = []
        for b in s['backs']:
            carried = tuple(sorted((repr(ren[v]), repr(cn.t(w.shallow(b, b.mem[obj])))) for obj, v in s['head'].mem.items() if v in ren and obj in b.mem))
            backs.append((cn.conds(b.facts.log), ('goes on', carried, cn.evs(b.events)), b))
        for b in s['exits']:
            ev0 = s['entry'].events
            evs = b.events[len(ev0):] if b.events[:len(ev0)] == ev0 else b.events
            backs.append((cn.conds(b.facts.log), ('ends', cn.evs([x for x in evs if x[0] != 'loop'])), b))
        lps.append(backs)
    return fin, lps


def compare(c, r, l, us):
    fr, lr = alts(us[0], False)
    fl, ll = alts(us[1], True)
    nm = 'left and right are mirror images'
    w = '%s / %s' % (where(r['span'], r['path']), where(l['span'], l['path']))
    if len(lr) != len(ll):
        c.und(nm, w, 'different loop structure')
        return
    for what, A, B in [('outcome', fr, fl)] + [('iteration', a, b) for a, b in zip(lr, ll)]:
        for x, other, side in [(y, B, 'left') for y in A] + [(y, A, 'right') for y in B]:
            hit = [y for y in other if joint(x[0], y[0])]
            c.count('mirror_path_pairs', len(hit))
            if not hit:
                c.bad(nm, w, 'an %s has no counterpart on the %s side: %s' % (what, side, conds(x)), 'mirror:' + r['path'].split('::')[-1])
                continue
            diff = [y for y in hit if y[1] != x[1]]
            c.expect(not diff, nm, w, 'under the same (mirrored) conditions %s one side does %s, the other %s' % (conds(x), show_obs(x[1]), show_obs(diff[0][1]) if diff else ''),
                     'mirror:' + r['path'].split('::')[-1])


def conds(x):
    return '; '.join('%s %s' % (show(y[1])[:60], y[2:]) for y in x[0][-4:])


def show_obs(o):
    return repr(o)[:300]


# ------------------------------------------------------------------------ C18
def cyc(t):
    """cyclic order starting at the smallest"""
    k = min(range(len(t)), key=lambda i: repr(t[i]))
    return t[k:] + t[:k]


def tri_corners(p, v):
    """(corner ids of a new triangle value)"""
    TRI = p.adt('shape::InnerTriangle')
    fs = p.fields(TRI)
    PI = p.adt('points::PointId')
    k = [i for i, t in enumerate(fs) if p.types[t]['k'] == 'array' and p.types[t]['elem'] == PI]
    if len(k) != 1 or v[0] != 'a' or v[2][k[0]][0] != 'a':
        raise Undecided('corners of a new triangle')
    return tuple(v[2][k[0]][2])


def fresh_links(p, v):
    """are the neighbors of a new triangle all absent and its marks clear?"""
    TRI = p.adt('shape::InnerTriangle')
    fs = p.fields(TRI)
    PI, TI = p.adt('points::PointId'), p.adt('triangles::TriangleId')
    for t, x in zip(fs, v[2]):
        if p.types[t]['k'] == 'array' and p.types[t]['elem'] == PI:
            continue
        flat = list(leaves(x))
        want = 2 ** 64 - 1 if p.types[t]['k'] == 'array' and p.types[t]['elem'] == TI else 0
        for q in flat:
            if q != I(want):
                return False
    return True


def leaves(v):
    if v[0] == 'a':
        for x in v[2]:
            yield from leaves(x)
    else:
        yield v


def node_tri(v):
    """the node whose triangle this is, in the front as it was at entry"""
    # fld(fld(nref(N, 0), 0, triangle), 1, 0): the payload of the node's Option<TriangleId>
    while v[0] == 't' and v[1] == 'fld' and v[2][0] == 't' and v[2][1] == 'fld':
        v = v[2]
    if v[0] == 't' and v[1] == 'fld' and v[2][0] == 't' and v[2][1] == 'nref' and v[2][3] == I(0):
        return v[2][2]
    return None


def wired(c, p, wh, st, name, corners, under, front, fname):
    """events of one outcome: exactly one triangle with these corners, linked to the triangles under these nodes' edges, one front
    update, then legalization.  returns the new triangle"""
    ev = [x for x in st.events if x[0] in ('tri.new', 'link', 'af.insert', 'af.delete', 'af.update', 'legalize', 'call')]
    if any(x[0] == 'loop' for x in st.events):
        c.und(name, wh, 'a loop before the new triangle is complete')
        return None
    new = [x for x in ev if x[0] == 'tri.new']
    if not c.expect(len(new) == 1, name + ': one triangle', wh, '%d triangles are created' % len(new)):
        return None
    got = tri_corners(p, new[0][1])
    n = new[0][2]
    c.expect(cyc(got) == cyc(corners), name + ': corners', new[0][3], 'corners are (%s), expected the counter-clockwise order (%s)' % (', '.join(map(show, got)), ', '.join(map(show, corners))))
    c.expect(fresh_links(p, new[0][1]), name + ': starts without neighbors and marks', new[0][3], 'a new triangle is created with neighbors or marks')
    links = [x for x in ev if x[0] == 'link']
    for nd in under:
        hit = [x for x in links if len(x[1]) == 2 and n in x[1] and any(node_tri(y) == nd for y in x[1])]
        c.expect(bool(hit), name + ': linked to the triangle under each front edge', wh, 'the new triangle is not linked to the triangle that the front node %s names' % show(nd), name + ':link')
    for x in links:
        ok = len(x[1]) == 2 and n in x[1] and any(node_tri(y) in under for y in x[1])
        c.expect(ok, name + ': no other links', x[2], 'links %s' % ', '.join(map(show, x[1])))
    fr = [x for x in ev if x[0] in ('af.insert', 'af.delete')]
    c.expect([x[0] for x in fr] == [fname], name + ': front changed once', wh, 'front changes: %s' % [x[0] for x in fr])
    if [x[0] for x in fr] == [fname]:
        c.expect(fr[0][1] == front(n), name + ': front entry', fr[0][2], 'front is changed with (%s), expected (%s)' % (', '.join(map(show, fr[0][1])), ', '.join(map(show, front(n)))))
    lg = [i for i, x in enumerate(ev) if x[0] == 'legalize']
    mine = [i for i in lg if ev[i][1] == (n,)]
    if c.expect(bool(mine), name + ': legalized', wh, 'the new triangle is not legalized', name + ':legalize'):
        setup = [i for i, x in enumerate(ev) if x[0] in ('tri.new', 'link', 'af.insert', 'af.delete')]
        c.expect(max(setup) < min(lg), name + ': legalized only after it is linked and on the front', wh, 'legalization starts before the new triangle is linked and on the front')
    return n


def repeated(c, e, wh, name):
    """no loop of the routine repeats a creation"""
    for k, ss in e.loop_summ.items():
        s = ss[-1]
        ev0 = s['entry'].events
        for b in s['backs']:
            evs = b.events[len(ev0):] if b.events[:len(ev0)] == ev0 else b.events
            for x in evs:
                c.expect(x[0] not in ('tri.new', 'af.insert', 'af.delete'), name + ': nothing else is created', wh, 'in a loop: %s' % x[0])


def c18():
    c = Check('C18', 'Abstract interpretation of the insertion of a point and of the filling of a corner: front nodes and triangles are symbolic, creations, links, front updates and legalizations are recorded in '
              'order and compared with what the new triangle needs. The front operations and the first front are checked on symbolic sequences.',
              ['linking does what C12 says, legalization what C15 says', 'front lookups behave as C17 says'])
    p = prog()
    with c.guard('inserting a point'):
        insertion(c, p)
    with c.guard('filling a corner'):
        filling(c, p)
    with c.guard('front operations'):
        front_ops(c, p)
    with c.guard('first front'):
        first_front(c, p)
    return c.finish()


def fill_fn(p):
    return find_fn(p, 'fill_one', ['&mut sweeper::Sweeper', 'advancing_front::NodeId', '&mut dyn cdt::Observer'])


def insertion(c, p):
    f = find_fn(p, 'point_event', ['&mut sweeper::Sweeper', 'points::PointId', 'shape::Point', '&mut dyn cdt::Observer'])
    wh = where(f['span'], f['path'])
    op = []
    for nm in ('fill_one', 'fill_advancing_front', 'fill_basin'):
        try:
            op.append(find_fn(p, nm))
        except NoAnchor:
            pass
    fo = fill_fn(p)

    def setup(p, w, f, args, mem):
        return args
    e, w, outs, args = run_unit(c, p, f, op, setup)
    loc = f['body']['locals']
    P = [a for i, a in enumerate(args) if loc[i + 1] == w.PI][0]
    X = [a for i, a in enumerate(args) if loc[i + 1] == w.PT][0]
    if not outs:
        c.und('inserting a point', wh, 'no outcome')
    covered = 0
    for st in outs:
        N = T('nodebelow', X, I(0))
        nx = T('fnode', I(0), N, I(1))
        # events up to the first fill belong to the insertion
        cut = next((i for i, x in enumerate(st.events) if x[0] in ('call', 'loop')), len(st.events))
        s2 = st.copy()
        s2.events = st.events[:cut]
        n = wired(c, p, wh, s2, 'new point', (P, T('npid', N), T('npid', nx)), [N], lambda n: (P, X, n), 'af.insert')
        rest = st.events[cut:]
        for x in rest:
            c.expect(x[0] not in ('tri.new', 'af.insert', 'af.delete'), 'new point: nothing else is created', wh, 'after the new triangle: %s' % x[0])
        filled = [x for x in rest if x[0] == 'call' and x[1] == fo['path'].split('::')[-1]]
        xp, xn = T('fld', X, 0, w.xi), T('fld', w.pos(T('npid', N)), 0, w.xi)
        yp, yn = T('fld', X, 0, 1 - w.xi), T('fld', w.pos(T('npid', N)), 0, 1 - w.xi)
        fc = float_constraints(st.facts.log, lambda t: is_float_term(t) or t in (xp, xn, yp, yn))
        diff = padd(poly(xp), poly(xn), -1)
        up = padd(poly(yp), poly(yn), -1)
        # above a node of the same x the point is swept later, so it is higher, by however little
        poss = [consistent(fc, [diff, up], [0, d]) for d in (Fraction(1, 2 ** 1000), 10 ** 6)]
        if any(ok and foreign for ok, foreign in poss):
            c.und('a point above a front node covers it', wh, 'condition not understood')
        elif any(ok for ok, _ in poss):
            covered += 1
            c.expect(any(N in x[2] for x in filled), 'a point above a front node covers it', wh, 'a point with the x of the front node below it does not fill that node')
        else:
            c.expect(not any(N in x[2] for x in filled), 'only a node directly below is filled at once', wh, 'the node left of the point is filled without a test')
    repeated(c, e, wh, 'new point')
    c.count('insertion_outcomes', len(outs))
    if not covered:
        c.und('a point above a front node covers it', wh, 'no such outcome')


def filling(c, p):
    f = fill_fn(p)
    wh = where(f['span'], f['path'])
    e, w, outs, args = run_unit(c, p, f, [])
    N = next(a for i, a in enumerate(args) if f['body']['locals'][i + 1] == w.node)
    pv, nx = T('fnode', I(0), N, I(-1)), T('fnode', I(0), N, I(1))
    full = 0
    for st in outs:
        if not any(x[0] in ('tri.new', 'link', 'af.insert', 'af.delete', 'legalize', 'loop') for x in st.events):
            has = all(st.facts.find(T('exists', x)) == I(1) or ('b', T('exists', x), True) in st.facts.log for x in (pv, nx))
            c.expect(not has, 'a corner with two neighbors is filled', wh, 'an inner corner is not filled')
            continue
        full += 1
        wired(c, p, wh, st, 'filled corner', (T('npid', pv), T('npid', N), T('npid', nx)), [pv, N],
              lambda n: (T('index', pv), T('npid', pv), n, T('index', N)), 'af.delete')
    repeated(c, e, wh, 'filled corner')
    c.count('fill_outcomes', len(outs))
    if not full:
        c.und('filling a corner', wh, 'no outcome fills')


def entry_fields(p):
    """field numbers of a front entry: paths to key point, point id, triangle"""
    AFT = p.adt('advancing_front::vec_backed::AdvancingFront')
    vec = [i for i, t in enumerate(p.fields(AFT)) if p.ty_s(t).startswith('std::vec::Vec<')]
    if AFT is None or len(vec) != 1:
        raise NoAnchor('front storage')
    ety = p.types[p.fields(AFT)[vec[0]]]
    el = [a for a in (ety.get('args') or []) if isinstance(a, int)]
    el = el[0] if el else None
    if el is None:
        raise NoAnchor('front entry')
    want = {'key': p.adt('shape::Point'), 'pid': p.adt('points::PointId'), 'tri': p.adt('triangles::TriangleId')}
    out = {}

    def walk(t, path):
        for k, w in want.items():
            if t == w:
                out.setdefault(k, []).append(path)
                return
        if p.types[t]['k'] in ('adt', 'tuple') and p.types[t].get('adt') != 'enum':
            for i, x in enumerate(p.fields(t)):
                walk(x, path + (i,))
    walk(el, ())
    if sorted(out) != ['key', 'pid', 'tri'] or any(len(v) != 1 for v in out.values()):
        raise NoAnchor('front entry fields')
    return AFT, vec[0], el, {k: v[0] for k, v in out.items()}


def at(v, path):
    for i in path:
        if v[0] == 'a':
            v = v[2][i]
        else:
            v = T('fld', v, 0, i)
    return v


def front_ops(c, p):
    from checks_f import Seq, edits, sp_insert
    s = Seq(p)
    F = s.F
    caches = (False, True) if s.ci is not None else (False,)
    # inserting
    f = find_fn(p, 'insert', near='AdvancingFront')
    wh = where(f['span'], f['path'])
    for cached in caches:
        e, args, outs = s.run(f, cached)
        c.count('functions_analysed')
        c.front_sites = getattr(c, 'front_sites', set()) | e.fnseen
        for st in outs:
            sp_insert(c, s, st, f, args, wh, 'insert')
            for t in edits(s, st)[0]:
                if t[1] == 'ins':
                    K = s.posterm(st, at(t[4], F['key']))
                    c.expect(s.before(st, t[3], K) and s.after(st, t[3], K), 'insert adds or replaces: a node is added only at a free position', wh, 'at %s' % show(t[3]))
    # removing
    f = find_fn(p, 'update_and_delete_by_index', near='AdvancingFront')
    wh = where(f['span'], f['path'])
    loc = f['body']['locals']
    TT = p.adt('triangles::TriangleId')
    for cached in caches:
        def prep(args, mem, facts):
            ix = [a for i, a in enumerate(args) if p.ty_s(loc[i + 1]) == 'usize']
            if len(ix) != 2:
                raise NoAnchor('two indices')
            facts.assume(ix[0], ix[1], LT)          # the left neighbor comes first
            facts.assume(ix[1], T('len', s.base), LT)
        e, args, outs = s.run(f, cached, prep)
        c.count('functions_analysed')
        c.front_sites = getattr(c, 'front_sites', set()) | e.fnseen
        U, D = [a for i, a in enumerate(args) if p.ty_s(loc[i + 1]) == 'usize']
        tid = next(a for i, a in enumerate(args) if loc[i + 1] == TT)
        for st in outs:
            ed, _ = edits(s, st)
            sets, rems = [t for t in ed if t[1] == 'vset'], [t for t in ed if t[1] == 'rem']
            if len(sets) + len(rems) != len(ed):
                c.bad('removal updates the left node and removes the corner', wh, 'adds a node')
                continue
            c.expect([t[3] for t in rems] == [D], 'removal removes exactly the corner', wh, 'removed: %s' % [show(t[3]) for t in rems])
            old = T('elem', s.base, U)
            ok = len(sets) == 1 and sets[0][3] == U and at(sets[0][4], F['tri']) == tid and all(at(sets[0][4], F[k]) == at(old, F[k]) for k in ('pid', 'key'))
            c.expect(ok, 'removal hands the new front edge to the left node', wh, 'updates: %s' % [show(t[3]) for t in sets])


def first_front(c, p):
    AFT, vi, el, F = entry_fields(p)
    f = find_fn(p, 'new', near='AdvancingFront')
    wh = where(f['span'], f['path'])
    e = Engine(p)
    w = Front(p, e)
    sorts = []
    e.on_sort = lambda ctx, ref, base: sorts.append(base)
    args, mem = e.sym_args(f['body'], ['a%d' % i for i in range(f['body']['argc'])])
    loc = f['body']['locals']
    TRI = p.adt('shape::InnerTriangle')
    tid = next(a for i, a in enumerate(args) if loc[i + 1] == w.TI)
    outs = e.run(f['body'], args, mem)
    c.count('functions_analysed')
    m = Mesh(p)
    tk = next(i for i in range(len(args)) if p.types[loc[i + 1]]['k'] == 'ref' and p.types[loc[i + 1]]['elem'] == TRI)
    corner = [T('fld', T('fld', S('a%d' % tk), 0, m.fp), 0, k) for k in range(3)]
    for b in sorts:
        if not (b[0] == 't' and b[1] == 'vecof' and b[2] is None):
            c.und('first front', wh, 'nodes are not listed one by one')
            continue
        nodes = b[3:]
        got = {}
        for x in nodes:
            got[w.canon_pid(at(x, F['pid']))] = (at(x, F['key']), at(x, F['tri']))
        c.expect(set(got) == set(corner) and len(nodes) == 3, 'first front has the three corners', wh, 'nodes are %s' % [show(x) for x in got])
        for k, want in ((0, tid), (1, tid)):
            if corner[k] in got:
                c.expect(got[corner[k]][1] == want, 'first front names the first triangle for both of its front edges', wh, 'corner %d has %s' % (k, show(got[corner[k]][1])))
        for k in range(3):
            if corner[k] in got:
                c.expect(got[corner[k]][0] == w.pos(corner[k]), 'first front keeps each corner with its own position', wh, 'corner %d is at %s' % (k, show(got[corner[k]][0])))
    if not sorts:
        c.und('first front', wh, 'no sorted node list')


CHECKS = {'C18': c18, 'C19': c19}
