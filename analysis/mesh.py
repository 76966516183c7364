"""Abstract meshes: triangle stores whose triangles have symbolic corners, neighbors and marks."""
from engine import *


class NoAnchor(Undecided):
    pass


def find_fn(p, name, types=None, out=None, near=None):
    """library function by name, else the unique function with this signature"""
    c = [f for f in p.fns if f.get('body') and f['path'].split('::')[-1] == name and (near is None or near in f['path'])]
    if len(c) == 1:
        return c[0]
    if types is not None:
        strip = lambda s: re.sub(r"<'\w+>|'\w+ ", '', s)
        c2 = [f for f in p.fns if f.get('body') and [strip(p.ty_s(x)) for x in f.get('inputs') or []] == list(types) and
              (out is None or strip(p.ty_s(f['output'])) == out)]
        if c and len(c) > 1:
            c2 = [f for f in c2 if f in c] or c2
        if len(c2) == 1:
            return c2[0]
    if c:
        c.sort(key=lambda f: len(f['path']))
        return c[0]
    raise NoAnchor('no function %s' % name)


def symval(p, ty, name):
    """an arbitrary value of a small plain type, down to bits"""
    t = p.types[ty]
    k = t['k']
    if k == 'bool':
        return S(name)
    if k == 'uint' and t['s'] == 'u8':
        return ('bv', tuple(S('%s.b%d' % (name, i)) for i in range(8)))
    if k in ('adt', 'tuple') and t.get('adt') != 'enum':
        return ('a', 0, tuple(symval(p, f, '%s.%d' % (name, i)) for i, f in enumerate(p.fields(ty))))
    if k == 'array' and t['len'] is not None:
        return ('a', 0, tuple(symval(p, t['elem'], '%s[%d]' % (name, i)) for i in range(t['len'])))
    return S(name)


class Mesh:
    """triangles: name -> (corner names, neighbor names or None)"""

    def __init__(self, p):
        self.p = p
        self.tri = p.adt('shape::InnerTriangle')
        self.tid = p.adt('triangles::TriangleId')
        self.pid = p.adt('points::PointId')
        self.store = p.adt('triangles::TriangleStore')
        if None in (self.tri, self.tid, self.pid, self.store):
            raise NoAnchor('mesh types')
        self.fp = self.field(self.tri, 'points', lambda t: t['k'] == 'array' and t['elem'] == self.pid)
        self.fn = self.field(self.tri, 'neighbors', lambda t: t['k'] == 'array' and t['elem'] == self.tid)
        self.nf = len(p.fields(self.tri))
        self.acc = {}
        for nm in ('is_constrained', 'is_delaunay'):
            self.acc[nm] = find_fn(p, nm, near='InnerTriangle')['body']
        self.INV = I(2 ** 64 - 1)

    def field(self, ty, name, pred):
        i = self.p.field_index(ty, name)
        if i is not None:
            return i
        c = [i for i, f in enumerate(self.p.fields(ty)) if pred(self.p.types[f])]
        if len(c) == 1:
            return c[0]
        raise NoAnchor('field %s' % name)

    def pt(self, n):
        return agg(S('P:' + n))

    def id(self, n):
        if n is None:
            return agg(self.INV)
        return agg(S('T:' + n))

    def triangle(self, name, pts, nbs, over=None):
        fs = []
        for i, ty in enumerate(self.p.fields(self.tri)):
            if i == self.fp:
                fs.append(agg(*[self.pt(x) for x in pts]))
            elif i == self.fn:
                fs.append(agg(*[self.id(x) for x in nbs]))
            else:
                fs.append(symval(self.p, ty, '%s.f%d' % (name, i)))
        return ('a', 0, tuple(fs))

    def store_val(self, vec):
        out = []
        for f in self.p.fields(self.store):
            t = self.p.types[f]
            if t['k'] == 'adt' and t['path'] == 'std::vec::Vec' and t['args'][0] == self.tri:
                out.append(('v', vec))
            else:
                out.append(S('store.%d' % len(out)))
        return ('a', 0, tuple(out))

    def setup(self, tris, extra_pts=()):
        """mem, facts with these triangles in one store"""
        vec = ('VB', S('mesh'))
        mem = {vec: ('V', S('mesh'), ())}
        facts = Facts()
        names = list(tris)
        for n in names:
            mem[('E', vec, S('T:' + n))] = self.triangle(n, *tris[n])
        mem[('W', vec)] = tuple(S('T:' + n) for n in names)
        # ids that are mentioned anywhere are valid, pairwise different and not the invalid id
        allids = set(names) | {x for n in names for x in tris[n][1] if x}
        pts = sorted({x for n in names for x in tris[n][0]} | set(extra_pts))
        facts.assume(T('len', S('mesh')), self.INV, LT)
        ids = sorted(allids)
        for i, a in enumerate(ids):
            facts.assume(S('T:' + a), T('len', S('mesh')), LT)
            facts.assume(S('T:' + a), self.INV, LT)
            for b in ids[i + 1:]:
                facts.assume(S('T:' + a), S('T:' + b), LT | GT)
        for i, a in enumerate(pts):
            for b in pts[i + 1:]:
                facts.assume(S('P:' + a), S('P:' + b), LT | GT)
        facts.log = ()
        self.vec = vec
        self.tris = tris
        return mem, facts

    def query(self, facts, asks):
        """[(facts, answers)] of the accessors for [(accessor, triangle value, edge)], one entry per abstract alternative"""
        alts = [(facts, ())]
        for which, tv, k in asks:
            nxt = []
            for f, ans in alts:
                e2 = Engine(self.p)
                o = ('P', 'q')
                for out in e2.run(self.acc[which], [('r', o, ()), I(k)], {o: tv}, facts=f):
                    r = e2.scal(out.ret)
                    if r[0] == 'i':
                        nxt.append((out.facts, ans + (r[1],)))
                        continue
                    for v in (1, 0):
                        f2 = out.facts.copy()
                        c = f2.find(r)
                        if c in f2.b and int(f2.b[c]) != v:
                            continue
                        f2.b[c] = bool(v)
                        nxt.append((f2, ans + (v,)))
            alts = nxt
        return alts

    def corners(self, v):
        return tuple(self.scal(x) for x in self.arr(v, self.fp))

    def nbs(self, v):
        return tuple(self.scal(x) for x in self.arr(v, self.fn))

    def arr(self, v, f):
        return v[2][f][2]

    def scal(self, x):
        while x[0] == 'a' and len(x[2]) == 1:
            x = x[2][0]
        return x

    def elem(self, e, st, n):
        return e.read(st, ('E', self.vec, S('T:' + n)), ())


def rot(t, k):
    return tuple(t[(i + k) % 3] for i in range(3))


def rotn(pts, nbs, k):
    return rot(pts, k), rot(nbs, k)
