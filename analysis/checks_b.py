"""Local mesh operations (C11, C12) and geometric decisions (C09, C16, C26)."""
from common import *
from graph import *
from engine import *
from mesh import *
from geom import *
from fractions import Fraction


def edge_set(pts, k):
    return frozenset((pts[(k + 1) % 3], pts[(k + 2) % 3]))


# ------------------------------------------------------------------------ C12
def c12():
    c = Check('C12', 'Abstract interpretation of the linking routines over every placement of a shared edge in two triangles (3 x 3 placements, arbitrary marks on '
              'all six edges, arbitrary other neighbors): the outcome store is compared edge by edge with the specification.',
              ['both triangles list their corners in the same rotational sense (C18, C11 keep that)', 'identifiers of different triangles and corners differ'])
    p = prog()
    linking(c, p)
    return c.finish()


def linking(c, p):
    m = Mesh(p)
    TI, PI = 'triangles::TriangleId', '&mut shape::InnerTriangle'
    ops = []
    for nm, sig in (('mark_neighbor', ['&mut triangles::TriangleStore', TI, TI]), ('mark_neighbor_for_two_mut', [TI, TI, PI, PI])):
        try:
            ops.append((nm, find_fn(p, nm, sig, '()')))
        except NoAnchor as x:
            c.und('linking routine', nm, str(x))
    for nm, f in ops:
        body = f['body']
        byref = 'for_two' in nm
        for i in range(3):
            for j in range(3):
                lab = '%s [shared edge at %d/%d]' % (nm, i, j)
                L = rotn(('L', 'A', 'B'), ('x', 'nLA', 'nLB'), i)
                R = rotn(('R', 'B', 'A'), ('y', 'nRB', 'nRA'), j)
                # stale entry across the shared edge: arbitrary
                try:
                    mem, facts = m.setup({'l': L, 'r': R})
                    e = Engine(p)
                    el, er = ('r', ('E', m.vec, S('T:l')), ()), ('r', ('E', m.vec, S('T:r')), ())
                    if byref:
                        args = [m.id('l'), m.id('r'), el, er]
                    else:
                        so = ('P', 'store')
                        mem[so] = m.store_val(m.vec)
                        args = [('r', so, ()), m.id('l'), m.id('r')]
                    v0 = {'l': mem[el[1]], 'r': mem[er[1]]}
                    e.want_panics = True
                    outs = e.run(body, args, mem, facts)
                    c.count('abstract_outcomes', len(outs))
                    for pn in e.panics:
                        c.bad('linking does not panic', where(pn.panic[2], pn.panic[3]), lab)
                    if not outs:
                        c.bad('linking returns', where(f['span'], f['path']), lab)
                    for o in outs:
                        link_post(c, m, e, o, v0, {'l': (L, 'r'), 'r': (R, 'l')}, lab, f)
                except Undecided as u:
                    c.und(lab, where(f['span']), str(u))
    return


def link_post(c, m, e, o, v0, tris, lab, f):
    w = where(f['span'], f['path'])
    vecs = o.mem.get(('W', m.vec), ())
    if set(o.facts.find(x) for x in vecs) - {S('T:l'), S('T:r')}:
        c.bad('no other triangle is touched', w, lab)
    content = o.mem.get(m.vec)
    c.expect(content == ('V', S('mesh'), ()), 'no triangle is added or removed', w, lab)
    v1 = {}
    for n in ('l', 'r'):
        v1[n] = m.elem(e, o, n)
    kk = {}
    for n, ((pts, nbs), other) in tris.items():
        c.expect(m.corners(v1[n]) == tuple(S('P:' + x) for x in pts), 'corners keep their places', w, lab)
        for k in range(3):
            shared = edge_set(pts, k) == frozenset('AB')
            got = o.facts.find(m.nbs(v1[n])[k])
            if shared:
                kk[n] = k
                c.expect(got == S('T:' + other), 'neighbor across the shared edge', w, '%s: side %s has %s' % (lab, n, show(got)))
            else:
                c.expect(got == S('T:' + nbs[k]), 'other neighbors are unchanged', w, '%s: side %s edge %d has %s' % (lab, n, k, show(got)))
                for acc in ('is_constrained', 'is_delaunay'):
                    for fs, (x, y) in m.query(o.facts, [(acc, v0[n], k), (acc, v1[n], k)]):
                        c.expect(x == y, 'marks of other edges are unchanged', w, '%s: %s of edge %d of side %s' % (lab, acc, k, n))
        # remaining fields
        for i in range(m.nf):
            if i not in (m.fp, m.fn) and m.p.types[m.p.fields(m.tri)[i]]['k'] == 'bool':
                c.expect(v0[n][2][i] == v1[n][2][i], 'other fields are unchanged', w, lab)
    asks = [('is_constrained', v0['l'], kk['l']), ('is_constrained', v0['r'], kk['r']), ('is_constrained', v1['l'], kk['l']), ('is_constrained', v1['r'], kk['r'])]
    for fs, (a, b, x, y) in m.query(o.facts, asks):
        c.expect(x == (a or b) and y == (a or b), 'both sides are constrained iff either was', w, '%s: before %d/%d after %d/%d' % (lab, a, b, x, y))
    for fs, (x, y) in m.query(o.facts, [('is_delaunay', v1['l'], kk['l']), ('is_delaunay', v1['r'], kk['r'])]):
        c.expect(not x and not y, 'the already-legal mark of the shared edge is cleared', w, '%s: after %d/%d' % (lab, x, y))


# ------------------------------------------------------------------------ C11
def sweeper_val(m, p, vec, mem):
    """an arbitrary sweeper whose mesh is the abstract store"""
    sw = p.adt('sweeper::Sweeper')
    if sw is None:
        raise NoAnchor('sweeper type')
    fs = []
    for i, f in enumerate(p.fields(sw)):
        t = p.types[f]
        nm = p.types[sw]['variants'][0]['fields'][i]['name']
        if t['k'] == 'ref' and t['elem'] == m.store:
            so = ('P', 'store')
            mem[so] = m.store_val(vec)
            fs.append(('r', so, ()))
        elif t['k'] == 'ref':
            o = ('P', 'sw.' + nm)
            mem[o] = S('sw.' + nm)
            fs.append(('r', o, ()))
        elif t['k'] == 'adt' and t['path'] == 'std::vec::Vec':
            o = ('VB', S('sw.' + nm))
            mem[o] = ('V', S('sw.' + nm), ())
            fs.append(('v', o))
        else:
            fs.append(S('sw.' + nm))
    mem[('P', 'sweeper')] = ('a', 0, tuple(fs))
    return ('r', ('P', 'sweeper'), ())


QUAD = {'1': frozenset(('P', 'C')), '2': frozenset(('P', 'W')), '3': frozenset(('O', 'W')), '4': frozenset(('O', 'C'))}


def rotate_runs(tier):
    """(presence, rotation of each outer neighbor, placement of t, placement of ot)"""
    import itertools
    for i in range(3):
        for j in range(3):
            for pres in itertools.product((0, 1), repeat=4):
                free = [k for k in range(4) if pres[k]]
                for rr in itertools.product(range(3), repeat=len(free)):
                    # quick: every presence, with all rotations of one neighbor at a time
                    if tier == 'quick' and len([r for r in rr if r]) > 1:
                        continue
                    yield i, j, pres, dict(zip(free, rr))


def c11_one(a):
    i, j, pres, rr, dump = a
    p = _P[0]
    m = Mesh(p)
    f = _P[1]
    res = []

    class C:
        def expect(self, cond, name, w, d):
            res.append((name, bool(cond), w, d))
            return cond
    c = C()
    w = where(f['span'], f['path'])
    lab = 'p at %d, op at %d, outer neighbors %s rotated %s' % (i, j, ''.join(str(x) for x in pres), rr)
    nb = {k: ('n%d' % k if pres[k - 1] else None) for k in (1, 2, 3, 4)}
    # t = (P, C, W): C is the corner counter-clockwise from P; ot = (O, W, C)
    T_ = rotn(('P', 'C', 'W'), ('ot', nb[2], nb[1]), i)
    O_ = rotn(('O', 'W', 'C'), ('t', nb[4], nb[3]), j)
    tris = {'t': T_, 'ot': O_}
    # outer edge k as seen from outside: reversed
    rev = {1: ('C', 'P'), 2: ('P', 'W'), 3: ('W', 'O'), 4: ('O', 'C')}
    inside = {1: 't', 2: 't', 3: 'ot', 4: 'ot'}
    for k in (1, 2, 3, 4):
        if pres[k - 1]:
            a_, b_ = rev[k]
            tris['n%d' % k] = rotn(('X%d' % k, a_, b_), (inside[k], 'y%d' % k, 'z%d' % k), rr.get(k - 1, 0))
    try:
        mem, facts = m.setup(tris)
        sw = sweeper_val(m, p, m.vec, mem)
        v0 = {n: mem[('E', m.vec, S('T:' + n))] for n in tris}
        sh = {'t': next(k for k in range(3) if edge_set(T_[0], k) == frozenset('CW')), 'ot': next(k for k in range(3) if edge_set(O_[0], k) == frozenset('CW'))}
        # the edge being rotated is not constrained
        outs = []
        npan = 0
        for fs, (x, y) in m.query(facts, [('is_constrained', v0['t'], sh['t']), ('is_constrained', v0['ot'], sh['ot'])]):
            if x or y:
                continue
            e = Engine(p, max_states=200000)
            e.want_panics = True
            outs += [(e, o) for o in e.run(f['body'], [sw, m.id('t'), m.pt('P'), m.id('ot'), m.pt('O')], dict(mem), fs)]
            npan += len(e.panics)
            if e.panics:
                pn = e.panics[0].panic
                c.expect(False, 'rotation does not panic', where(pn[2], pn[3]), lab)
        c.expect(bool(outs), 'rotation returns', w, lab)
        for e, o in outs:
            rotate_post(c, m, e, o, v0, tris, nb, pres, w, lab)
        return res, len(outs), None
    except Undecided as u:
        return res, 0, '%s: %s' % (lab, u)


def rotate_post(c, m, e, o, v0, tris, nb, pres, w, lab):
    F = o.facts.find
    content = o.mem.get(m.vec)
    c.expect(content == ('V', S('mesh'), ()), 'no triangle is added or removed', w, lab)
    c.expect(not ({F(x) for x in o.mem.get(('W', m.vec), ())} - {S('T:' + n) for n in tris}), 'no other triangle is touched', w, lab)
    v1 = {n: m.elem(e, o, n) for n in tris}
    name = {S('P:' + x): x for x in ('P', 'C', 'W', 'O')}
    cor = {n: tuple(name.get(F(x)) for x in m.corners(v1[n])) for n in ('t', 'ot')}
    if not c.expect(None not in cor['t'] + cor['ot'], 'corners are the corners of the quad', w, lab):
        return
    # same quad, other diagonal, same sense: {P,O,W} as P->O->W and {P,C,O} as P->C->O
    cyc = lambda t: {rot(t, k) for k in range(3)}
    a, b = ('P', 'O', 'W'), ('P', 'C', 'O')
    good = (cor['t'] in cyc(a) and cor['ot'] in cyc(b)) or (cor['t'] in cyc(b) and cor['ot'] in cyc(a))
    if not c.expect(good, 'the two triangles cover the quad with the other diagonal and keep their sense', w, '%s: %s %s' % (lab, cor['t'], cor['ot'])):
        return
    host = {}
    for k in (1, 2, 3, 4):
        for n in ('t', 'ot'):
            for x in range(3):
                if edge_set(cor[n], x) == QUAD[str(k)]:
                    host[k] = (n, x)
    # outer edges
    for k in (1, 2, 3, 4):
        n, x = host[k]
        got = F(m.nbs(v1[n])[x])
        was = 't' if k in (1, 2) else 'ot'
        wx = next(z for z in range(3) if edge_set(tris[was][0], z) == QUAD[str(k)])
        if nb[k]:
            c.expect(got == S('T:' + nb[k]), 'outer edge keeps its neighbor', w, '%s: edge %d has %s' % (lab, k, show(got)))
            on = nb[k]
            ox = next(z for z in range(3) if edge_set(tris[on][0], z) == QUAD[str(k)])
            back = F(m.nbs(v1[on])[ox])
            c.expect(back == S('T:' + n), 'outer neighbor points back at the triangle that now has the edge', w, '%s: edge %d has %s' % (lab, k, show(back)))
            c.expect(m.corners(v1[on]) == m.corners(v0[on]), 'outer neighbors keep their corners', w, lab)
            for z in range(3):
                if z != ox:
                    c.expect(F(m.nbs(v1[on])[z]) == F(m.nbs(v0[on])[z]), 'outer neighbors keep their other neighbors', w, lab)
                    for acc in ('is_constrained', 'is_delaunay'):
                        for fs, (p0, p1) in m.query(o.facts, [(acc, v0[on], z), (acc, v1[on], z)]):
                            c.expect(p0 == p1, 'outer neighbors keep the marks of their other edges', w, lab)
            for fs, (c0, c1, d0, d1) in m.query(o.facts, [('is_constrained', v0[was], wx), ('is_constrained', v0[on], ox), ('is_constrained', v1[n], x), ('is_constrained', v1[on], ox)]):
                if c0 == c1:
                    c.expect(d0 == c0 and d1 == c0, 'outer edge keeps its constraint mark', w, '%s: edge %d before %d after %d/%d' % (lab, k, c0, d0, d1))
                else:
                    c.expect(d0 and d1, 'a constraint mark of an outer edge is not lost', w, '%s: edge %d' % (lab, k))
            for fs, (d0, d1) in m.query(o.facts, [('is_delaunay', v1[n], x), ('is_delaunay', v1[on], ox)]):
                c.expect(not d0 and not d1, 'no stale already-legal mark on an outer edge', w, '%s: edge %d' % (lab, k))
        else:
            c.expect(got == m.INV, 'outer edge without neighbor stays so', w, '%s: edge %d has %s' % (lab, k, show(got)))
            for fs, (c0, c1) in m.query(o.facts, [('is_constrained', v0[was], wx), ('is_constrained', v1[n], x)]):
                c.expect(c0 == c1, 'outer edge keeps its constraint mark', w, '%s: edge %d (no neighbor) before %d after %d' % (lab, k, c0, c1))
    # the new diagonal
    for n, other in (('t', 'ot'), ('ot', 't')):
        x = next(z for z in range(3) if edge_set(cor[n], z) == frozenset('PO'))
        c.expect(F(m.nbs(v1[n])[x]) == S('T:' + other), 'the two triangles are neighbors across the new diagonal', w, lab)
        for fs, (a_, b_) in m.query(o.facts, [('is_constrained', v1[n], x), ('is_delaunay', v1[n], x)]):
            c.expect(not a_, 'the new diagonal is not constrained', w, lab)
            c.expect(not b_, 'the new diagonal is not marked already legal by the rotation', w, lab)
    r = o.ret
    while r[0] == 'a' and len(r[2]) == 1:
        r = r[2][0]
    if r[0] in ('s', 't'):
        r = F(r)
    if 0 not in pres:
        pass
    elif r[0] == 'i':
        c.expect(bool(r[1]) or 0 not in pres, 'the caller is told about a missing outer neighbor', w, '%s: returned %s' % (lab, r[1]))
    else:
        c.expect(False, 'the caller is told about a missing outer neighbor', w, '%s: returned %s' % (lab, show(r)))


_P = [None, None]


def c11():
    c = Check('C11', 'Abstract interpretation of the rotation over every placement of the shared edge (3 x 3), every set of present outer neighbors (16) and every placement of the '
              'outer edges in them, with arbitrary corners, other neighbors and marks: the outcome mesh is compared with the specification of a diagonal exchange.',
              ['triangles list their corners in the same rotational sense and neighbor entries agree before the rotation', 'the rotated edge is not constrained',
               'the triangles around the quad are different triangles'])
    p = prog()
    rotation(c, p)
    return c.finish()


def rotation(c, p):
    TI, PI = 'triangles::TriangleId', 'points::PointId'
    try:
        f = find_fn(p, 'rotate_triangle_pair', ['&mut sweeper::Sweeper', TI, PI, TI, PI])
    except NoAnchor as x:
        c.und('rotation routine', '', str(x))
        return
    if p.ty_s(f['output']) != 'bool':
        c.und('rotation result', where(f['span']), p.ty_s(f['output']))
    _P[0], _P[1] = p, f
    import multiprocessing as mp
    jobs = [(i, j, pres, rr, None) for i, j, pres, rr in rotate_runs(os.environ.get('VERIF_TIER', 'quick'))]
    c.count('placements_analysed', len(jobs))
    with mp.get_context('fork').Pool(min(8, os.cpu_count() or 1)) as pool:
        for res, n, und in pool.imap_unordered(c11_one, jobs, 8):
            c.count('abstract_outcomes', n)
            for name, okk, w, d in res:
                c.expect(okk, name, w, d)
            if und:
                c.und('rotation', where(f['span']), und)
    return


# ------------------------------------------------------------------------ C16
def variant_names(p, ty):
    return [v['name'] for v in p.types[ty]['variants']]


def point_arg(p, ty, name):
    """a Point with symbolic coordinates, fields in declaration order"""
    x, y = p.field_index(ty, 'x'), p.field_index(ty, 'y')
    if x is None or y is None:
        raise NoAnchor('coordinates of Point')
    fs = [None] * len(p.fields(ty))
    for i in range(len(fs)):
        fs[i] = S(name + '.x') if i == x else S(name + '.y') if i == y else S('%s.%d' % (name, i))
    return ('a', 0, tuple(fs))


def isf_names(t):
    """float-valued term in functions whose only symbols are coordinates"""
    return is_float_term(t) or (t[0] == 's' and re.search(r'\.[xy]$', t[1]) is not None)


def decide_table(c, name, outs, polys, classes, spec, value, w, isf=isf_names, allow=None, near=False):
    """each outcome consistent with a sign vector has to give the specified value"""
    import itertools
    n = 0
    cons = [(float_constraints(o.facts.log, isf), o) for o in outs]
    if near:
        # the values on both sides of every threshold a path compares one of the quantities with
        lim = set()
        for cs, _ in cons:
            for q, k0, _m in cs:
                if k0 and q:
                    for r in polys:
                        k = scale_of(q, r) or (scale_of(poly(list(q)[0][0][2]), r) if len(q) == 1 and len(list(q)[0]) == 1 and list(q)[0][0][0] == 't' and list(q)[0][0][1] == 'fabs' else None)
                        if k:
                            lim.add(abs(Fraction(k0) / k))
        xs = sorted({x for t in lim if t > Fraction(1, 2 ** 1070) for x in (t / 2, t * 2)} - {abs(v[1]) for v in classes})[:6]
        classes = list(classes) + [(s + 'near %.3g' % float(x), (1 if s == '+' else -1) * x) for x in xs for s in '+-']
    for vec in itertools.product(classes, repeat=len(polys)):
        want = spec(*vec)
        if want is None:
            continue
        poss = []
        for cs, o in cons:
            okk, foreign = consistent(cs, polys, [v[1] for v in vec])
            if okk:
                poss.append((o, foreign))
        got = {value(o) for o, _ in poss}
        n += 1
        lab = '%s at %s' % (name, ','.join(v[0] for v in vec))
        key = '%s[%s]' % (name, ','.join(v[0] for v in vec))
        if not poss:
            c.bad(name, w, '%s: no outcome' % lab, key)
        elif not got <= want:
            fr = [show_poly(x[0]) for _, f in poss for x in f]
            if any(a[0] == 't' and a[1] not in ('orient2d', 'incircle', 'fld') for _, f in poss for x in f for m in x[0] for a in m):
                c.und(name, w, '%s: compares values outside the arithmetic that is modelled (%s)' % (lab, fr[0]))
                continue
            c.bad(name, w, '%s: gives %s, specified %s%s' % (lab, sorted(map(str, got)), sorted(map(str, want)),
                                                            '; depends on ' + '; '.join(sorted(set(fr))[:3]) if fr else ''), key)
        else:
            c.ok(name, w)
    c.count('sign_vectors', n)


C3 = [('-', -10 ** 6), ('0', 0), ('+', 10 ** 6)]
SGN = {'-': LT, '0': EQ, '+': GT}
EPSC = C3[:1] + [('-tiny', Fraction(-1, 2 ** 60)), ('0', 0), ('+tiny', Fraction(1, 2 ** 60))] + C3[2:]


def scalar_ret(e, o):
    r = e.scal(o.ret)
    if is_term(r):
        r = o.facts.find(r)
    if r[0] == 'i':
        return r[1]
    if r[0] == 'a':
        return ('v', r[1])
    # a symbolic truth value
    return ('?', show(r)[:80])


def split_bool(e, outs):
    """outcomes whose boolean result is still a comparison term are split"""
    return outs


def exact_predicates(c, p, tag):
    PT = p.adt('shape::Point')
    OR = p.adt('utils::Orientation')
    if PT is None or OR is None:
        raise NoAnchor('Point / Orientation types')
    xi, yi = p.field_index(PT, 'x'), p.field_index(PT, 'y')
    vn = variant_names(p, OR)
    idx = {}
    for want in ('CW', 'CCW', 'Collinear'):
        hit = [i for i, v in enumerate(vn) if v.lower() == want.lower()]
        if len(hit) != 1:
            raise NoAnchor('Orientation variants')
        idx[want] = hit[0]
    coord = lambda nm: agg(S(nm + '.x'), S(nm + '.y'))
    fs = {}
    for nm, n, out, rob in (('orient_2d', 3, 'utils::Orientation', 'orient2d'), ('in_circle', 4, 'bool', 'incircle')):
        try:
            f = find_fn(p, nm, ['shape::Point'] * n, out)
        except NoAnchor as x:
            c.und(nm, tag, str(x))
            continue
        fs[nm] = f
        w = where(f['span'], f['path'])
        e = Engine(p)
        names = 'abcd'[:n]
        try:
            outs = e.run(f['body'], [point_arg(p, PT, x) for x in names])
            if e.unmodelled:
                raise Undecided('calls %s' % sorted(e.unmodelled))
        except Undecided as u:
            c.und(nm, w, str(u))
            continue
        c.count('abstract_outcomes', len(outs))
        pred = poly(T(rob, *[coord(x) for x in names]))
        if n == 3:
            spec = lambda s: {('v', idx['CCW' if s[0] == '+' else 'CW' if s[0] == '-' else 'Collinear'])}
        else:
            spec = lambda s: {1} if s[0] == '+' else {0}
        decide_table(c, nm + ' is the sign of the exact predicate', outs, [pred], EPSC, lambda s, sp=spec: sp((s[0][:1], s[1])), lambda o: scalar_ret(e, o), w, near=True)
    for nm, vs in (('is_cw', 'CW'), ('is_ccw', 'CCW'), ('is_collinear', 'Collinear')):
        try:
            f = find_fn(p, nm, near='Orientation')
        except NoAnchor as x:
            c.und(nm, tag, str(x))
            continue
        for v in range(len(vn)):
            e = Engine(p)
            ob = ('P', 'o')
            try:
                outs = e.run(f['body'], [('r', ob, ())], {ob: ('a', v, ())})
            except Undecided as u:
                c.und(nm, where(f['span']), str(u))
                continue
            got = {scalar_ret(e, o) for o in outs}
            c.expect(got == {int(v == idx[vs])}, 'orientation test names its own variant', where(f['span'], f['path']), '%s on %s gives %s' % (nm, vn[v], got))
    return fs, OR, PT


def local(b):
    return not b['path'].startswith(('std::', 'core::', 'alloc::', '<std::', '<core::', '<alloc::', 'robust::', 'vmodels::', '<vmodels', '<&')) and b['path'] != ''


def owner(path):
    return path.split('::{closure')[0]


def dominated(p, anchors):
    """library functions that can only be called (directly or through each other) from the anchors"""
    lib = {f['path']: f for f in p.fns if f.get('body')}
    callers = {}
    g = edges(p)
    for i, b in p.bodies.items():
        for j in g[i]:
            if j in p.bodies:
                callers.setdefault(owner(p.bodies[j]['path']), set()).add(owner(b['path']))
    dom = set(anchors)
    ch = True
    while ch:
        ch = False
        for path in callers:
            if path in dom:
                continue
            cs = callers[path] - {path}
            if cs and cs <= dom:
                dom.add(path)
                ch = True
    return dom


def lib_bodies(p):
    ks = {f['path'] for f in p.fns}
    return [b for b in p.bodies.values() if owner(b['path']) in ks and (b.get('sp') is None or True)]


def triangulate_roots(p):
    r = [f['id'] for f in p.fns if f.get('body') and f['path'].split('::')[-1] in ('triangulate_with_observer', 'triangulate')]
    if not r:
        raise NoAnchor('triangulate')
    return r


def fconst(p, o):
    if o[0] == 'const' and o[1].get('c') == 'int' and o[1]['ty'] >= 0 and p.types[o[1]['ty']]['k'] == 'float':
        return Engine(p).scalar(int(o[1]['v']), o[1]['ty'])[1]
    return None


def no_other_orientation(c, p, tag, fs, OR, PT):
    anchor = {f['path'] for f in fs.values()}
    for nm in ('in_scan_area', 'basin_angle_satisfy', 'point_event'):
        try:
            anchor.add(find_fn(p, nm)['path'])
        except NoAnchor:
            pass
    for f in p.fns:
        if f['path'].startswith(('utils::Angle::', 'sweeper::Basin::', 'points::Points::new')):
            anchor.add(f['path'])
    ori = dominated(p, {fs['orient_2d']['path']} if 'orient_2d' in fs else set())
    dom = dominated(p, anchor)
    tol = dominated(p, {a for a in anchor if not a.startswith(('utils::Angle::', 'sweeper::Basin::')) and a.split('::')[-1] in ('in_scan_area', 'point_event')})
    rd = reach(p, triangulate_roots(p))
    fl = lambda ty: p.types[ty]['k'] == 'float'
    for i in sorted(rd):
        b = p.bodies[i]
        if not any(f['path'] == owner(b['path']) for f in p.fns):
            continue
        o = owner(b['path'])
        if 'std::fmt::' in o or o.startswith('<') and 'as std::' in o:
            continue
        c.count('functions_scanned')
        w = None
        for bl in b['blocks']:
            if bl['cl']:
                continue
            for s in bl['s']:
                if s[0] != '=':
                    continue
                r, w = s[2], where(s[-1], o)
                if r[0] == 'agg' and r[1] == 'adt' and r[2] == OR:
                    c.expect(o in ori, 'orientations are made only by the exact predicate', w, '%s constructs an Orientation' % o, 'make:' + o)
                if r[0] == 'agg' and r[1] == 'adt' and r[2] == PT and o not in dom:
                    c.expect(all(copied(p, b, x) for x in r[4]), 'points are never changed during the sweep', w, '%s constructs a Point from computed coordinates' % o, 'point:' + o)
                if s[1][1] and s[1][1][-1][0] == 'f' and fl(s[1][1][-1][2]) and base_ty(p, b, s[1]) == PT:
                    c.bad('points are never changed during the sweep', w, '%s writes a coordinate' % o, 'coord:' + o)
                if r[0] == 'bin' and fl(r[4]) and r[1] in ('Mul', 'Div', 'Rem'):
                    c.expect(o in dom, 'no orientation is computed by other arithmetic', w, '%s multiplies coordinates' % o, 'mul:' + o)
                for op in operands_of(r):
                    v = fconst(p, op)
                    if v is not None and 0 < abs(v) < 1e-2:
                        c.expect(o in tol, 'no tolerance around a decision', w, '%s uses the constant %r' % (o, v), 'tol:' + o)
            t = bl['t']
            if t[0] == 'call':
                cp = callee_path(t[1])
                w = where(bl['sp'], o)
                if cp.startswith('robust::'):
                    c.expect(o in dominated(p, {f['path'] for f in fs.values()}), 'exact predicates are used through orient_2d and in_circle', w, '%s calls %s' % (o, cp), 'robust:' + o)
                if re.search(r'<impl f(32|64)>::(mul_add|powi|powf|hypot|atan2?|round|floor|ceil|trunc|abs)$', cp):
                    c.expect(o in dom, 'no orientation is computed by other arithmetic', w, '%s calls %s' % (o, cp), 'call:' + o)


def operands_of(r):
    if r[0] in ('use',):
        return [r[1]]
    if r[0] == 'bin':
        return [r[2], r[3]]
    if r[0] == 'un':
        return [r[2]]
    if r[0] == 'agg':
        return r[4]
    if r[0] == 'cast':
        return [r[2]]
    return []


def base_ty(p, b, pl):
    ty = b['locals'][pl[0]]
    for e in pl[1][:-1]:
        if e[0] == '*':
            ty = p.deref_ty(ty)
        elif e[0] == 'f':
            ty = e[2]
        elif e[0] in ('i', 'ci'):
            ty = p.types[ty].get('elem')
    return ty


def copied(p, b, op, depth=0):
    """operand is a plain copy of a coordinate"""
    if op[0] == 'const' or depth > 6:
        return op[0] == 'const'
    pl = op[1]
    if pl[1]:
        return True
    for bl in b['blocks']:
        for s in bl['s']:
            if s[0] == '=' and s[1][0] == pl[0] and not s[1][1]:
                if s[2][0] != 'use' or not copied(p, b, s[2][1], depth + 1):
                    return False
        if bl['t'][0] == 'call' and bl['t'][3][0] == pl[0] and not bl['t'][3][1]:
            return False
    return True


def c16():
    c = Check('C16', 'Sign tables: every abstract path of orient_2d, in_circle and the Orientation tests is compared with the sign of the exact predicate on the unmodified coordinates '
              '(arguments up to permutation parity; sign classes negative, tiny negative, zero, tiny positive, positive). Lint over every function reachable from triangulate: '
              'who may construct an Orientation or a Point, multiply coordinates, use a tolerance constant or call the robust crate.',
              ['robust::orient2d and robust::incircle are exact', 'coordinates are finite'])
    for feat in (None, 'f32'):
        tag = feat or 'f64'
        try:
            p = prog(feat)
        except BuildError:
            if not feat:
                raise
            c.und('float configuration', tag, 'does not build (decided by C23)')
            continue
        try:
            fs, OR, PT = exact_predicates(c, p, tag)
            no_other_orientation(c, p, tag, fs, OR, PT)
        except NoAnchor as x:
            c.und('anchor', tag, str(x))
    return c.finish()


# ------------------------------------------------------------------------ C09
ORD = {-1: ('v', 0), 0: ('v', 1), 1: ('v', 2)}


def typed(p, e, st, ty, name, PT, PI=None):
    """a value of this type whose points have coordinates name.x / name.y"""
    t = p.types[ty]
    if ty == PT:
        return point_arg(p, PT, name)
    if t['k'] in ('ref', 'ptr'):
        o = ('P', '%s&%d' % (name, len(st.mem)))
        st.mem[o] = typed(p, e, st, t['elem'], name, PT)
        return ('r', o, ())
    if t['k'] in ('adt', 'tuple') and t.get('adt') != 'enum':
        return ('a', 0, tuple(typed(p, e, st, f, name, PT) for f in p.fields(ty)))
    return S(name + '.id')


def rename_coords(outs, pts_of):
    return outs


def cmp_classes():
    return C3


def order_spec(first, second):
    def spec(*v):
        a, b = v[first][0][0], v[second][0][0]
        s = a if a != '0' else b
        if s == '0':
            return None          # the same position: not specified
        return {ORD[-1] if s == '-' else ORD[1]}
    return spec


def norm_ret(e, o):
    r = e.scal(o.ret)
    if is_term(r):
        r = o.facts.find(r)
    if r[0] == 'a':
        return ('v', r[1])
    if r[0] == 'i':
        # C-like enum as its discriminant
        return {-1: ('v', 0), 255: ('v', 0), 0: ('v', 1), 1: ('v', 2)}.get(r[1], ('?', r[1]))
    return ('?', show(r)[:80])


def xy_polys(a, b):
    d = lambda k: padd(poly(S('%s.%s' % (a, k))), poly(S('%s.%s' % (b, k))), -1)
    return [d('x'), d('y')]


def c09():
    c = Check('C09', 'Sign tables over (sign of the x difference) x (sign of the y difference), nine cases: the comparator handed to the sweep sort, the endpoint order of a segment and the key '
              'order of the front are compared with the lexicographic order they have to implement; the first two have to be the same order.',
              ['coordinates are finite, points are distinct'])
    p = prog()
    PT = p.adt('shape::Point')
    isf = isf_names
    # 1. sweep order: every sort the point store performs
    with c.guard('sweep order'):
        f = find_fn(p, 'new', near='points::Points::')
        w = where(f['span'], f['path'])
        e = Engine(p)
        sorts = []

        def on_sort(ctx, ref, base):
            if len(ctx.atys) < 2 or not ctx.path.split('::')[-1] in ('sort_by', 'sort_unstable_by'):
                raise Undecided('sort by %s' % ctx.path)
            et = p.types[p.deref_ty(ctx.atys[0])]['elem']
            st = ctx.st.copy()
            st.facts = Facts()
            va, vb = typed(p, e, st, et, 'a', PT), typed(p, e, st, et, 'b', PT)
            if not any(point_arg(p, PT, 'a') == v for v in st.mem.values()) and 'a.x' not in repr(va):
                # the comparator has to look the position up by identifier
                sorts.append((ctx, None))
                return
            oa, ob = ('P', 'elA'), ('P', 'elB')
            st.mem[oa], st.mem[ob] = va, vb
            outs = []
            for s2, val in e.sub_call(st, ctx, ctx.args[1], ctx.atys[1], [('r', oa, ()), ('r', ob, ())]):
                s2.ret = val
                outs.append(s2)
            sorts.append((ctx, outs))
        e.on_sort = on_sort
        args, mem = e.sym_args(f['body'], ['pts', 'eds'])
        e.run(f['body'], args, mem)
        if not sorts:
            c.und('sweep order', w, 'no sort found in the point store')
        for ctx, outs in sorts:
            if outs is None:
                c.und('sweep order', w, 'elements do not carry their position')
                continue
            c.count('abstract_outcomes', len(outs))
            decide_table(c, 'sweep order is lower y, then lower x', outs, xy_polys('a', 'b'), EPSC, order_spec(1, 0), lambda o: norm_ret(e, o), ctx.where(), isf, near=True)
    # 2. segment direction
    with c.guard('segment direction'):
        f = find_fn(p, 'new', near='shape::Edge::')
        w = where(f['span'], f['path'])
        e = Engine(p)
        st = State()
        args = [typed(p, e, st, ty, n, PT) for ty, n in zip(f['inputs'], 'ab')]
        outs = e.run(f['body'], args, st.mem)
        ED = f['output']
        pi, qi = p.field_index(ED, 'p'), p.field_index(ED, 'q')

        def val(o):
            r = o.ret
            sc = lambda x: show(o.facts.find(e.scal(x)) if is_term(e.scal(x)) else e.scal(x))
            return (sc(r[2][pi]), sc(r[2][qi]))

        def spec(*v):
            sx, sy = v[0][0][0], v[1][0][0]
            s = sy if sy != '0' else sx
            if s == '0':
                return None
            return {('a.id', 'b.id')} if s == '-' else {('b.id', 'a.id')}
        c.count('abstract_outcomes', len(outs))
        decide_table(c, 'q is the endpoint swept later, p the other', outs, xy_polys('a', 'b'), EPSC, spec, val, w, isf, near=True)
    # 3. front keys
    with c.guard('front key order'):
        fc = [f for f in p.fns if f.get('body') and f['path'].startswith('<advancing_front::') and f['path'].endswith('as std::cmp::Ord>::cmp')]
        if len(fc) != 1:
            raise Undecided('key type of the front')
        f = fc[0]
        key = p.deref_ty(f['inputs'][0])
        ks = p.ty_s(key)
        for path, kind in ((f['path'], 'cmp'), ('<%s as std::cmp::PartialOrd>::partial_cmp' % ks, 'partial'), ('<%s as std::cmp::PartialEq>::eq' % ks, 'eq'),
                           ('<%s as std::cmp::PartialOrd>::lt' % ks, 'lt')):
            g = p.fn_by_path.get(path)
            if g is None or not g.get('body'):
                if kind != 'lt':
                    c.und('front key order', path, 'no body')
                continue
            with c.guard('front key order', path):
                e = Engine(p)
                st = State()
                args = [typed(p, e, st, ty, n, PT) for ty, n in zip(g['inputs'], 'ab')]
                outs = e.run(g['body'], args, st.mem)
                c.count('abstract_outcomes', len(outs))
                w = where(g['span'], g['path'])
                base = order_spec(0, 1)

                def spec(*v, kind=kind):
                    r = base(*v)
                    same = r is None
                    if kind == 'eq':
                        return {int(same)}
                    if kind == 'lt':
                        return {int((not same) and r == {ORD[-1]})}
                    return {ORD[0]} if same else r

                def val(o, kind=kind, e=e):
                    if kind in ('eq', 'lt'):
                        return scalar_ret(e, o)
                    if kind == 'partial':
                        r = o.ret
                        if r[0] == 'a' and r[1] == 1:
                            r = r[2][0]
                            return ('v', r[1]) if r[0] == 'a' else ('?', show(r))
                        return ('none',)
                    return norm_ret(e, o)
                decide_table(c, 'front order (%s) is lower x, then lower y' % kind, outs, xy_polys('a', 'b'), EPSC, spec, val, w, isf, near=True)
    # 4. sameness of points
    with c.guard('point equality'):
        f = find_fn(p, 'eq', near='shape::Point::')
        e = Engine(p)
        st = State()
        args = [typed(p, e, st, ty, n, PT) for ty, n in zip(f['inputs'], 'ab')]
        outs = e.run(f['body'], args, st.mem)
        decide_table(c, 'points are the same iff both coordinates are', outs, xy_polys('a', 'b'), EPSC, lambda x, y: {int(x[0] == '0' and y[0] == '0')},
                     lambda o: scalar_ret(e, o), where(f['span'], f['path']), isf, near=True)
    return c.finish()


# ------------------------------------------------------------------------ C26
def isf_front(t):
    return isf_names(t) or (t[0] == 't' and t[1] == 'fld' and t[2][0] == 't' and t[2][1] in ('pos', 'pt'))


def c26():
    c = Check('C26', 'Sign tables: every abstract path of the corner-angle predicates, the scan-area test, the basin angle test and the basin completion test is compared with the '
              'geometric function it documents, over all sign combinations (and tiny values) of the polynomials involved; the polynomials are expanded symbolically, so any '
              'equivalent arithmetic is accepted and any other coordinate dependence is reported.',
              ['arithmetic is judged as exact real arithmetic; rounding is out of scope', 'front nodes are ordered by x (C17)'])
    p = prog()
    PT = p.adt('shape::Point')
    X = lambda n: poly(S(n + '.x'))
    Y = lambda n: poly(S(n + '.y'))
    d = lambda f, a, b: padd(f(a), f(b), -1)
    det = lambda o, a, b: padd(pmul(d(X, a, o), d(Y, b, o)), pmul(d(Y, a, o), d(X, b, o)), -1)
    dot = lambda o, a, b: padd(pmul(d(X, a, o), d(X, b, o)), pmul(d(Y, a, o), d(Y, b, o)))
    cr, dt = det('o', 'a', 'b'), dot('o', 'a', 'b')
    with c.guard('corner angle'):
        new = find_fn(p, 'new', near='utils::Angle::')
        for nm, spec in (('is_negative', lambda x, y: {int(x[0][0] == '-')}),
                         ('between_0_to_90_degree', lambda x, y: None if x[0] == '0' and y[0] == '0' else {int(x[0][0] == '+' and y[0][0] == '+')}),
                         ('exceeds_90_degree', lambda x, y: None if x[0][0] == '-' else {int(y[0][0] == '-')})):
            with c.guard('corner angle', nm):
                f = find_fn(p, nm, near='utils::Angle::')
                e = Engine(p)
                st = State()
                args = [typed(p, e, st, ty, n, PT) for ty, n in zip(new['inputs'], 'oab')]
                outs = []
                for o in e.run(new['body'], args, st.mem):
                    ob = ('P', 'angle')
                    mem = dict(o.mem)
                    mem[ob] = o.ret
                    arg = ('r', ob, ()) if p.types[f['inputs'][0]]['k'] == 'ref' else o.ret
                    outs += Engine(p).run(f['body'], [arg], mem, o.facts)
                c.count('abstract_outcomes', len(outs))
                decide_table(c, nm, outs, [cr, dt], C3, spec, lambda o: scalar_ret(e, o), where(f['span'], f['path']), near=True)
    with c.guard('scan area'):
        f = find_fn(p, 'in_scan_area', ['shape::Point'] * 4, 'bool')
        e = Engine(p)
        outs = e.run(f['body'], [point_arg(p, PT, n) for n in 'abcd'])
        c.count('abstract_outcomes', len(outs))
        eps = Fraction(1, 2 ** 52)

        def spec(x, y):
            if x[1] < -eps and y[1] > eps:
                return {1}
            return {0} if x[1] != -eps and y[1] != eps else None
        decide_table(c, 'in_scan_area', outs, [det('b', 'a', 'd'), det('c', 'a', 'd')], EPSC, spec, lambda o: scalar_ret(e, o), where(f['span'], f['path']), near=True)
    for f in [x for x in p.fns if x['path'].startswith('utils::Angle::new') or x['path'].endswith('::in_scan_area')]:
        with c.guard('translation invariance', f['path']):
            e = Engine(p)
            st = State()
            args = [typed(p, e, st, ty, n, PT) for ty, n in zip(f['inputs'], 'oabc')]
            for o in e.run(f['body'], args, st.mem):
                ts = [x for r in o.facts.log if r[0] == 'rel' for x in r[1:3]] + ([o.ret] if f['path'].startswith('utils::Angle') else [])
                for t in ts:
                    c.expect(diff_only(t), 'coordinates enter through differences only', where(f['span'], f['path']), show(t)[:200])
    basin(c, p, PT)
    return c.finish()


def basin(c, p, PT):
    import frontmodel
    with c.guard('basin angle'):
        f = find_fn(p, 'basin_angle_satisfy', out='bool', types=['&sweeper::Sweeper', 'advancing_front::NodeId'])
        e = Engine(p)
        fm = frontmodel.Front(p, e)
        args, mem = e.sym_args(f['body'], ['self', 'node'])
        outs = e.run(f['body'], args, mem)
        c.count('abstract_outcomes', len(outs))
        N = S('node')
        st = State()
        n1 = fm.step_term(st, N, 1)
        n2 = fm.step_term(st, n1, 1)
        co = lambda n, k: poly(T('fld', fm.pos(T('npid', n)), 0, k))
        probe = [t for o in outs for r in o.facts.log if r[0] == 'rel' for t in r[1:3]]
        ax = padd(co(N, fm.xi), co(n2, fm.xi), -1)
        ay = padd(co(N, fm.yi), co(n2, fm.yi), -1)
        pos = [o for o in outs if all(not (x[0] == 'b' and not x[2]) for x in o.facts.log)]
        for o in outs:
            if o not in pos:
                c.expect(scalar_ret(e, o) == 0, 'no basin without two nodes to the right', where(f['span'], f['path']))

        def spec(x, s):
            if x[0] == '-':
                return {int(s[0] == '+')}
            if x[0] == '0':
                return {0} if s[0] != '+' else None
            return None
        if pos:
            decide_table(c, 'basin angle', pos, [ax, padd(ax, ay)], C3, spec, lambda o: scalar_ret(e, o), where(f['span'], f['path']), isf_front)
        else:
            c.und('basin angle', where(f['span']), 'no outcome with two nodes to the right')
    with c.guard('basin completion'):
        f = find_fn(p, 'fill_basin')
        g = find_fn(p, 'fill_basin_req')
        comp = find_fn(p, 'completed', near='Basin')
        BT = p.deref_ty(comp['inputs'][0])
        li, ri = p.field_index(BT, 'left'), p.field_index(BT, 'right')
        if li is None or ri is None:
            raise NoAnchor('ends of the basin')
        caps = []
        e = Engine(p)

        def cap(ctx):
            for v, ty in zip(ctx.args, ctx.atys):
                if p.deref_ty(ty) == BT:
                    caps.append((frontmodel.unref(ctx.st, e, v), ctx.st.facts.copy(), ctx.where()))
            return T('req')
        e.hooks = {g['path']: cap}
        fm = frontmodel.Front(p, e)
        args, mem = e.sym_args(f['body'], ['self', 'node', 'obs'])
        e.run(f['body'], args, mem)
        if not caps:
            raise Undecided('no call of the recursive basin step')
        groups = {}
        for bv, facts, w in caps:
            L, R = (fm.pointval(State(), bv[2][k]) for k in (li, ri))
            e2 = Engine(p)
            frontmodel.Front(p, e2)
            ob = ('P', 'basin')
            groups.setdefault((L, R), []).extend(e2.run(comp['body'], [('r', ob, ()), point_arg(p, PT, 'p')], {ob: bv}, facts.copy()))
        for (L, R), outs in groups.items():
            c.count('abstract_outcomes', len(outs))
            F = lambda t, k: poly(T('fld', t, 0, k))
            px, py = poly(S('p.x')), poly(S('p.y'))
            Lx, Ly, Rx, Ry = F(L, fm.xi), F(L, fm.yi), F(R, fm.xi), F(R, fm.yi)
            wd = padd(Rx, Lx, -1)
            polys = [padd(px, Rx, -1), padd(px, Lx, -1), padd(Ly, Ry, -1), padd(wd, padd(Ly, py, -1), -1), padd(wd, padd(Ry, py, -1), -1)]

            def spec(xr, xl, hl, sl, sr):
                if xr[0] != '-' or xl[0] != '+':
                    return {1}
                if hl[0] == '0':
                    # both heights agree
                    return {int(sl[0] == '+')} if sl[0] == sr[0] else None
                return {int((sl if hl[0] == '+' else sr)[0] == '+')}
            decide_table(c, 'basin completion', outs, polys, C3, spec, lambda o: scalar_ret(e, o), where(comp['span'], comp['path']), isf_front)


CHECKS = {'C12': c12, 'C11': c11, 'C16': c16, 'C09': c09, 'C26': c26}
