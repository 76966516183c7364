"""Symbolic advancing front: nodes are opaque, neighbors are positions in a chain, points are known by identifier."""
from engine import *
from mesh import NoAnchor, find_fn
from geom import *

AF = 'advancing_front::vec_backed::AdvancingFront::'
ZERO = S('zero')          # orientations are signed: not compared with the number 0
ORI = {'CCW': GT, 'CW': LT, 'Collinear': EQ}


def unref(st, e, v):
    n = 0
    while v[0] == 'r' and n < 6:
        v = e.read(st, v[1], v[2])
        n += 1
    return v


class Front:
    """aux 'front' = (epoch, deleted nodes).  A node is a term; T('fnode', epoch, anchor, k) is the k-th node after (before) the anchor."""

    def __init__(self, p, e, fill=True):
        self.p, self.e = p, e
        self.node = p.adt('advancing_front::NodeId')
        self.ref = p.adt('advancing_front::NodeRef')
        self.PT = p.adt('shape::Point')
        self.PI = p.adt('points::PointId')
        self.TI = p.adt('triangles::TriangleId')
        self.OR = p.adt('utils::Orientation')
        if None in (self.node, self.ref, self.PT, self.PI, self.OR, self.TI):
            raise NoAnchor('front types')
        self.xi, self.yi = p.field_index(self.PT, 'x'), p.field_index(self.PT, 'y')
        self.ori_idx = {v['name']: i for i, v in enumerate(p.types[self.OR]['variants'])}
        if set(self.ori_idx) != set(ORI):
            raise NoAnchor('Orientation variants')
        self.epochs = 0
        self.index_uses = []
        h = e.hooks
        for nm in ('get_node_with_id',):
            h[AF + nm] = lambda ctx: self.by_id(ctx)
        for nm, d in (('locate_next_node', 1), ('locate_prev_node', -1), ('next_node', 1), ('prev_node', -1)):
            h[AF + nm] = (lambda d: lambda ctx: self.step(ctx, ctx.args[1], d))(d)
        for nm in ('get_node', 'get_node_with_cache'):
            h[AF + nm] = lambda ctx: self.by_point(ctx)
        h[AF + 'locate_node'] = lambda ctx: self.locate(ctx)
        h[AF + 'update_triangle'] = lambda ctx: self.event(ctx, 'af.update')
        h[AF + 'insert'] = lambda ctx: self.insert(ctx)
        h[AF + 'update_and_delete_by_index'] = lambda ctx: self.delete(ctx)
        h[AF + 'nth'] = lambda ctx: self.nth(ctx)
        for t in ('advancing_front::NodeRef::<\'a>::', 'advancing_front::NodeRef::'):
            h[t + 'point'] = lambda ctx: self.point(ctx)
            h[t + 'point_id'] = lambda ctx: self.pid(ctx)
            h[t + 'next'] = lambda ctx: self.step(ctx, ctx.args[0], 1)
            h[t + 'prev'] = lambda ctx: self.step(ctx, ctx.args[0], -1)
            h[t + 'index'] = lambda ctx: self.index(ctx)
            h[t + 'get_node_id'] = lambda ctx: self.nodeof(ctx, ctx.args[0])
        h['advancing_front::NodeId::point'] = lambda ctx: self.point(ctx)
        h['advancing_front::NodeId::point_id'] = lambda ctx: self.pid(ctx)
        for t in ("<advancing_front::NodeRef<'a> as std::clone::Clone>::clone", '<advancing_front::NodeId as std::clone::Clone>::clone',
                  "<advancing_front::NodeRef<'_> as std::clone::Clone>::clone"):
            h[t] = lambda ctx: unref(ctx.st, e, ctx.args[0])
        h['points::PointId::get'] = lambda ctx: self.pos(self.pidval(ctx, ctx.args[0]))
        h['points::Points::get_point_uncheck'] = lambda ctx: self.pos(self.pidval(ctx, ctx.args[1]))
        h['points::Points::get_point'] = lambda ctx: some(self.pos(self.pidval(ctx, ctx.args[1])))
        h['utils::orient_2d'] = lambda ctx: self.orient(ctx)
        h['shape::Point::eq'] = lambda ctx: self.same(ctx)
        e.join_aux = self.join

    # -- values
    def nref(self, n, st):
        return T('nref', n, st.aux.get('triver', I(0)))

    def nodeof(self, ctx, v):
        v = unref(ctx.st, self.e, v)
        return self.strip(ctx.st, v)

    def strip(self, st, v):
        if is_term(v):
            v = st.facts.find(v)
        if v[0] == 't' and v[1] == 'nref':
            return v[2]
        if v[0] == 'a':
            raise Undecided('front node built by hand')
        return v

    def pidval(self, ctx, v):
        v = unref(ctx.st, self.e, v)
        while v[0] == 'a' and len(v[2]) == 1:
            v = v[2][0]
        if is_term(v):
            v = ctx.st.facts.find(v)
        return self.canon_pid(v)

    def canon_pid(self, v):
        # projections of an identifier wrapper denote the identifier
        while v[0] == 't' and v[1] == 'fld' and len(v) >= 5 and v[2][0] == 't' and v[2][1] == 'npid':
            v = v[2]
        return v

    def pos(self, pid):
        return T('pos', pid)

    def pointval(self, st, v):
        """canonical term of a point value"""
        v = unref(st, self.e, v)
        if v[0] == 'a' and len(v[2]) == len(self.p.fields(self.PT)):
            x, y = v[2][self.xi], v[2][self.yi]
            if x[0] == 't' and x[1] == 'fld' and y[0] == 't' and y[1] == 'fld' and x[2] == y[2]:
                return x[2]
            return T('pt', x, y)
        if is_term(v):
            return st.facts.find(v)
        raise Undecided('point value %s' % v[0])

    def point(self, ctx):
        n = self.nodeof(ctx, ctx.args[0])
        return self.pos(T('npid', n))

    def pid(self, ctx):
        return T('npid', self.nodeof(ctx, ctx.args[0]))

    def index(self, ctx):
        n = self.nodeof(ctx, ctx.args[0])
        ctx.st.aux['ix:' + show(n)] = self.cur(ctx.st)
        return T('index', n)

    # -- chain
    def cur(self, st):
        f = st.aux.get('front')
        if f is None or f[0] == 'top':
            ep = f[1:] if f else 0
            return (repr(ep) if f else 0, frozenset())
        return f

    def step_term(self, st, n, d):
        ep, dels = self.cur(st)
        if n[0] == 't' and n[1] == 'fnode' and n[2] == I0(ep):
            a, k = n[3], n[4][1]
        else:
            a, k = n, 0
        k += d
        while True:
            m = a if k == 0 else T('fnode', I0(ep), a, I(k))
            if m not in dels:
                return m
            k += d

    def step(self, ctx, v, d):
        st = ctx.st
        n = self.nodeof(ctx, v)
        m = self.step_term(st, n, d)
        if m[0] == 't' and m[1] == 'fnode' and m[2] == I0(self.cur(st)[0]):
            # a node beyond an existing one exists unless the front ends there
            if not self.e.truth(st, T('exists', m)):
                return NONE
        return some(self.nref(m, st))

    def by_id(self, ctx):
        n = self.nodeof(ctx, ctx.args[1])
        if n in self.cur(ctx.st)[1]:
            return NONE
        return some(self.nref(n, ctx.st))

    def by_point(self, ctx):
        pt = self.pointval(ctx.st, ctx.args[1])
        if pt[0] == 't' and pt[1] == 'pos' and pt[2][0] == 't' and pt[2][1] == 'npid':
            n = pt[2][2]
        else:
            n = T('nodeat', pt)
        if not self.e.truth(ctx.st, T('onfront', n, I0(self.cur(ctx.st)[0]))):
            return NONE
        return some(self.nref(n, ctx.st))

    def locate(self, ctx):
        pt = self.pointval(ctx.st, ctx.args[1])
        n = T('nodebelow', pt, I0(self.cur(ctx.st)[0]))
        if not self.e.truth(ctx.st, T('exists', n)):
            return NONE
        return some(self.nref(n, ctx.st))

    def nth(self, ctx):
        k = self.e.scal(unref(ctx.st, self.e, ctx.args[1]))
        n = T('nth', I0(self.cur(ctx.st)[0]), k)
        if not self.e.truth(ctx.st, T('exists', n)):
            return NONE
        return some(self.nref(n, ctx.st))

    def vals(self, ctx, skip=1):
        out = []
        for v in ctx.args[skip:]:
            v = unref(ctx.st, self.e, v)
            out.append(self.flat(ctx.st, v))
        return tuple(out)

    def flat(self, st, v):
        while v[0] == 'a' and len(v[2]) == 1:
            v = v[2][0]
        if is_term(v):
            v = st.facts.find(v)
        if v[0] == 'a':
            return ('a', v[1], tuple(self.flat(st, x) for x in v[2]))
        return self.canon_pid(v) if is_term(v) else v

    def event(self, ctx, kind):
        ctx.st.ev(kind, self.vals(ctx), ctx.where())
        ctx.st.aux['triver'] = S('tv:' + ctx.where() + ':' + show(ctx.st.aux.get('triver', I(0)))[-20:])
        return UNIT

    def insert(self, ctx):
        st = ctx.st
        st.ev('af.insert', self.vals(ctx), ctx.where())
        self.new_epoch(st, ctx)
        return UNIT

    def delete(self, ctx):
        st = ctx.st
        v = self.vals(ctx)
        for x in v:
            if x[0] == 't' and x[1] == 'index':
                got = st.aux.get('ix:' + show(x[2]))
                if got is not None and got[0] != 'top':
                    self.index_uses.append((x[2], got == self.cur(st), ctx.where()))
        st.ev('af.delete', v, ctx.where())
        ix = v[3] if len(v) > 3 else None
        if ix is None or ix[0] != 't' or ix[1] != 'index':
            self.new_epoch(st, ctx)
        else:
            ep, dels = self.cur(st)
            st.aux['front'] = (ep, dels | {ix[2]})
        st.aux['triver'] = S('tv:' + ctx.where())
        return UNIT

    def new_epoch(self, st, ctx, tag=''):
        ep, dels = self.cur(st)
        n = int(st.aux.get('nep', 0)) + 1
        st.aux['nep'] = n
        st.aux['front'] = ('%s%d%s' % (tag, n, '' if not isinstance(ep, str) else '|' + ep[-40:]), frozenset())
        st.aux['triver'] = S('tv:ep%s' % (st.aux['front'][0],))

    def join(self, k, hv, vals, lid, rnd):
        if k == 'front':
            return ('L%s' % lid, frozenset())
        if k == 'nep':
            return 0
        if k == 'triver':
            return S('tv:' + lid)
        return ('top', lid, k)

    # -- geometry
    def orient(self, ctx):
        st, e = ctx.st, self.e
        pts = [self.pointval(st, a) for a in ctx.args]
        order = sorted(range(3), key=lambda i: repr(pts[i]))
        par = parity(order)
        t = T('ori', *[pts[i] for i in order])
        st.facts  # sign of t against 0
        z = ZERO
        for nm, m in (('CCW', GT), ('CW', LT)):
            if e.rel(st, t, z, m if par > 0 else (LT if m == GT else GT)):
                r = nm
                break
        else:
            r = 'Collinear'
        st.ev('orient', tuple(pts), r, ctx.where())
        return ('a', self.ori_idx[r], ())

    def sign(self, facts, a, b, c):
        """known mask of the orientation of three point terms"""
        pts = [a, b, c]
        order = sorted(range(3), key=lambda i: repr(pts[i]))
        m = facts.mask(T('ori', *[pts[i] for i in order]), ZERO, self.e)
        if parity(order) < 0:
            m = (m & EQ) | (GT if m & LT else 0) | (LT if m & GT else 0)
        return m

    def same(self, ctx):
        a, b = (self.pointval(ctx.st, x) for x in ctx.args[:2])
        if a == b:
            return I(1)
        a, b = sorted((a, b), key=repr)
        return I(int(self.e.truth(ctx.st, T('samepoint', a, b))))

    def concave(self, st, n):
        """is the corner at node n known to be concave in the front as it is now?"""
        pv, nx = self.step_term(st, n, -1), self.step_term(st, n, 1)
        P = lambda x: self.pos(T('npid', x))
        return self.sign(st.facts, P(pv), P(n), P(nx)) == GT


def I0(ep):
    return I(ep) if isinstance(ep, int) else S('ep:' + str(ep))


class World(Front):
    """the front plus opaque mesh operations recorded as events"""

    def __init__(self, p, e, opaque=()):
        super().__init__(p, e)
        self.calls = []          # (name, ctx args, state copy, where)
        self.dels = []
        self.legalize = self.opt('legalize', ['&mut sweeper::Sweeper', 'triangles::TriangleId', '&mut dyn cdt::Observer'])
        self.op('triangles::TriangleStore::insert', self.tri_new)
        for nm in ('mark_neighbor', 'mark_neighbor_for_two_mut'):
            f = self.opt(nm)
            if f:
                self.op(f['path'], lambda ctx, nm=nm: self.mesh_event(ctx, 'link', 2 if nm == 'mark_neighbor' else 2))
        if self.legalize:
            self.op(self.legalize['path'], lambda ctx: self.mesh_event(ctx, 'legalize', 1))
        for f in opaque:
            self.op(f['path'], (lambda f: lambda ctx: self.opaque(ctx, f))(f))

    def opt(self, name, types=None):
        try:
            return find_fn(self.p, name, types)
        except NoAnchor:
            return None

    def op(self, path, h):
        self.e.hooks[path] = h

    def tri_new(self, ctx):
        st = ctx.st
        v = self.flat(st, unref(st, self.e, ctx.args[1]))
        n = T('newtri', I(sum(1 for x in st.events if x[0] == 'tri.new')), S('@' + ctx.where().split(' ')[0]))
        st.ev('tri.new', v, n, ctx.where())
        return agg(n)

    def mesh_event(self, ctx, kind, n):
        st = ctx.st
        ids = [self.flat(st, unref(st, self.e, a)) for a, ty in zip(ctx.args, ctx.atys) if ty == self.TI][:n]
        st.ev(kind, tuple(ids), ctx.where())
        if kind != 'link':
            st.aux['triver'] = S('tv:%d:%s' % (len(st.events), ctx.where().split(' ')[0]))
        return UNIT

    def is_node(self, ty):
        p = self.p
        for _ in range(3):
            if p.types[ty]['k'] in ('ref', 'ptr'):
                ty = p.types[ty]['elem']
        return p.types[ty].get('path') in ('advancing_front::NodeId', 'advancing_front::NodeRef')

    def shallow(self, st, v, depth=0):
        """argument value with references followed, nodes stripped"""
        v = unref(st, self.e, v)
        if v[0] == 'a':
            return ('a', v[1], tuple(self.shallow(st, x, depth + 1) for x in v[2])) if depth < 4 else v
        if is_term(v):
            v = st.facts.find(v)
            if v[0] == 't' and v[1] == 'nref':
                return v[2]
        return v

    def opaque(self, ctx, f):
        st = ctx.st
        name = f['path'].split('::')[-1]
        args = tuple(self.shallow(st, a) for a in ctx.args)
        self.calls.append((f['path'], args, st.copy(), ctx.where()))
        st.ev('call', name, args, ctx.where())
        self.new_epoch(st, ctx)
        if self.p.ty_s(ctx.dty) == '()':
            return UNIT
        return T('ret', S(name), I(len([x for x in st.events if x[0] == 'call'])))

    def delete(self, ctx):
        st = ctx.st
        v = self.vals(ctx)
        ix = v[3] if len(v) > 3 else None
        n = ix[2] if ix is not None and ix[0] == 't' and ix[1] == 'index' else None
        self.dels.append((n, n is not None and self.concave(st, n), st.copy(), ctx.where(), len(self.e_stack(st))))
        return super().delete(ctx)

    def e_stack(self, st):
        return st.frames


def recursive_heads(p, root):
    """members of call cycles below root that are called from outside their cycle (and all functions reachable)"""
    from graph import edges, reach, sccs
    rd = reach(p, [root])
    g = edges(p)
    lib = {f['id']: f for f in p.fns if f.get('body')}
    comps = sccs(g, sorted(rd))
    heads = []
    for comp in comps:
        cs = set(comp)
        hs = [i for i in comp if i in lib and (i == root or any(i in g[j] for j in rd if j not in cs))]
        heads += hs
    return [lib[i] for i in heads], rd
