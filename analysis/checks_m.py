"""The way a segment is enforced (C36)."""
import itertools
from common import *
from engine import *
from mesh import *
from frontmodel import unref, Front, ZERO
from checks_b import sweeper_val, edge_set
from checks_h import Enforce, ring, rotn_, ori_sign, elems
from checks_e import TI, PI, announces_all

SIGN = {LT: 'right of', GT: 'left of', EQ: 'on'}


def c36():
    c = Check('C36', 'Abstract interpretation of the routines that enforce a segment, one step at a time, on a mesh of one to six triangles with every placement of the corners; '
              'each outcome names the triangle, corner and segment the next step is given, and these are compared with the geometric rule under the orientation signs of that path.',
              ['orientation and scan-area decisions mean what C16 and C26 say', 'neighbor entries agree with each other (C12)', 'a rotation is the one of C11'])
    p = prog()
    with c.guard('turning to a segment'):
        turning(c, p)
    with c.guard('flipping an edge in the way'):
        flips(c, p)
    with c.guard('search for an edge to flip'):
        scanning(c, p)
    with c.guard('legalization after a segment'):
        legal_after(c, p)
    return c.finish()


def loops(c, outs, what, wh):
    if any(x[0] == 'loop' for o in outs for x in o.events):
        c.und(what, wh, 'walks in a loop')
        return True
    return False


def go_on(o):
    return [x for x in o.events if x[0] == 'go']


def tri_name(m, t):
    if t == m.INV:
        return None
    if t[0] == 's' and t[1].startswith('T:'):
        return t[1][2:]
    raise Undecided('triangle passed on: ' + show(t)[:60])


# --------------------------------------------------------------- turning


def turning(c, p):
    E = Enforce(p)
    m, f = E.m, E.process
    wh = where(f['span'], f['path'])
    c.count('functions_analysed')
    met = set()
    for pres in itertools.product((0, 1), repeat=3):
        for r in range(3):
            tris = ring(pres, r, r)
            for seg in (('E', 'Q'), ('U', 'V')):
                lab = 'segment from Q to E%s, triangle (%s), neighbors %s' % ('' if seg[1] == 'Q' else ' on the way to another', ' '.join(tris['t'][0]), ''.join(map(str, pres)))
                mem, facts = m.setup(tris, ('E',))
                sw = sweeper_val(m, p, m.vec, mem)
                args, am = E.args(f, sw, 'E', 'Q', E.constrained_edge(*seg), ['t'], 'Q')
                mem.update(am)
                e = E.engine(tris)
                outs = e.run(f['body'], args, mem, facts)
                c.count('abstract_outcomes', len(outs))
                if loops(c, outs, 'turning to a segment', wh):
                    return
                for o in outs:
                    one_turn(c, E, e, o, tris, wh, lab, met)
    for k in ('clockwise', 'counter-clockwise', 'cross'):
        if k not in met:
            c.und('turning to a segment', wh, 'no outcome for a segment that lies ' + k)


def one_turn(c, E, e, o, tris, wh, lab, met):
    m = E.m
    go = go_on(o)
    if len(go) != 1:
        return              # C13
    _, name, pts, trs, ce, snap, w2 = go[0]
    sg = [ori_sign(e, o.facts, 'Q', k, 'E') for k in ('P1', 'P2')]
    if EQ in sg:
        return              # C13
    if any(s not in (LT, GT) for s in sg):
        if name == 'flip' and not any(s & EQ for s in sg) or name == 'process':
            c.und('turning to a segment', wh, lab + ': continues without the sides of both corners')
        return
    if len(trs) != 1:
        c.und('turning to a segment', wh, lab)
        return
    t = tri_name(m, trs[0])
    d = '%s: E %s Q-P1 and %s Q-P2' % (lab, SIGN[sg[0]], SIGN[sg[1]])
    if sg[0] == sg[1]:
        way, nb = ('clockwise', 'B') if sg[0] == LT else ('counter-clockwise', 'A')
        met.add(way)
        n1 = 'a triangle the segment does not enter is left toward the segment'
        if name != 'process':
            c.bad(n1, w2, '%s: %s goes on' % (d, name), 'turn')
            return
        want = nb if nb in tris else None
        c.expect(t == want, n1, w2, '%s: continues in %s instead of the neighbor %s of Q' % (d, t or 'no triangle', way), 'turn')
    elif sg == [GT, LT]:
        met.add('cross')
        n1 = 'a triangle the segment enters is the one whose far edge is flipped'
        if name == 'process':
            c.bad(n1, w2, '%s: turns on to %s' % (d, t), 'enter')
        else:
            c.expect(t == 't', n1, w2, '%s: flips at %s' % (d, t), 'enter')


# --------------------------------------------------------------- flips


def pushed(E, o):
    v = o.mem.get(('VB', S('ids')))
    if v is None or v[0] != 'V':
        return None
    out = [unref_id(E, o, x) for x in v[2]]
    b = v[1]
    while b != S('ids'):
        if b is not None and b[0] == 't' and b[1] == 'vecof':
            out += [unref_id(E, o, x) for x in b[3:]]
            b = b[2]
        else:
            return None
    return out


def unref_id(E, o, x):
    return o.facts.find(E.m.scal(x))


def flips(c, p):
    E = Enforce(p)
    m, f = E.m, E.flip
    wh = where(f['span'], f['path'])
    c.count('functions_analysed')
    met = set()
    for i in range(3):
        for j in range(3):
            for miss in ((None, 1, 2, 3, 4) if i == j == 0 else (None,)):
                nb = {k: 'n%d' % k for k in (1, 2, 3, 4)}
                g = lambda k: None if k == miss else nb[k]
                tris = {'t': rotn_(('Q', 'C', 'W'), ('ot', g(2), g(1)), i), 'ot': rotn_(('O', 'W', 'C'), ('t', g(4), g(3)), j)}
                rev = {1: ('C', 'Q'), 2: ('Q', 'W'), 3: ('W', 'O'), 4: ('O', 'C')}
                inside = {1: 't', 2: 't', 3: 'ot', 4: 'ot'}
                for k in nb:
                    if k != miss:
                        a, b = rev[k]
                        tris[nb[k]] = rotn_(('X%d' % k, a, b), (inside[k], 'y%d' % k, 'z%d' % k), (i + j) % 3)
                for ep in ('E', 'O'):
                    for seg in ((ep, 'Q'), ('U', 'V')):
                        lab = 'segment from Q to %s%s, corners (%s) and (%s)%s' % (ep, '' if seg[1] == 'Q' else ' on the way to another', ' '.join(tris['t'][0]), ' '.join(tris['ot'][0]), '' if miss is None else ', no neighbor %d' % miss)
                        mem, facts = m.setup(tris, ('E', 'U', 'V'))
                        sw = sweeper_val(m, p, m.vec, mem)
                        args, am = E.args(f, sw, ep, 'Q', E.constrained_edge(*seg), ['t'], 'Q')
                        mem.update(am)
                        e = E.engine(tris)
                        outs = e.run(f['body'], list(args), dict(mem), facts)
                        c.count('abstract_outcomes', len(outs))
                        if loops(c, outs, 'flipping an edge in the way', wh):
                            return
                        for o in outs:
                            a_flip(c, E, e, o, tris, ep, seg, wh, lab, met)
    for k in ('flip', 'left', 'right', 'scan left', 'scan right'):
        if k not in met:
            c.und('flipping an edge in the way', wh, 'no outcome for: ' + k)


def diagonal(E, o, tris, new):
    m = E.m
    back = {S('P:' + x): x for n in tris for x in tris[n][0]}
    cs = {n: tuple(back.get(o.facts.find(x)) for x in m.corners(new[n])) for n in ('t', 'ot')}
    return cs, [n for n in cs if frozenset('QO') in [edge_set(cs[n], k) for k in range(3)]]


def a_flip(c, E, e, o, tris, ep, seg, wh, lab, met):
    m = E.m
    go = go_on(o)
    new = go[0][5] if go else elems(m, e, o, tris)
    cs, diag = diagonal(E, o, tris, new)
    ar = [x for x in o.events if x[0] == 'area']
    n1 = 'an edge is flipped only if its quad passes the scan-area test'
    if len(diag) == 1:
        c.und('flip', wh, lab + ': triangles after the flip')
        return
    want = tuple(T('pos', S('P:' + x)) for x in ('Q', 'C', 'W', 'O'))
    if not ar:
        if diag:
            if any(k[0] == 'f' or k[0] == 'rel' and 'fld' in repr(k) for k in o.facts.log):
                c.und(n1, wh, lab + ': tested in a way not modelled')
            else:
                c.bad(n1, wh, lab + ': no test at all', 'tested')
        return
    for x in ar:
        same = tuple(x[1]) == want
        if not same and set(x[1]) == set(want):
            c.bad('the scan-area test gets the pivot, the corners before and after it and the corner across', wh, '%s: gets %s' % (lab, ' '.join(show(y) for y in x[1])), 'area-args')
            return
        if not same:
            c.bad('the scan-area test gets the pivot, the corners before and after it and the corner across', wh, '%s: gets %s' % (lab, ' '.join(show(y) for y in x[1])[:120]), 'area-args')
            return
    c.ok('the scan-area test gets the pivot, the corners before and after it and the corner across', wh)
    v = ar[0][2]
    if not v:
        c.expect(not diag, n1, wh, lab + ': flipped although the test says no', 'not-convex')
    else:
        if not c.expect(bool(diag), 'an edge in the way whose quad passes the test is flipped', wh, lab + ': not flipped', 'convex'):
            return
    if diag:
        met.add('flip')
        ids = pushed(E, o)
        if ids is None:
            c.und('flipped triangles are kept for legalization', wh, lab)
        else:
            c.expect({S('T:t'), S('T:ot')} <= set(ids), 'flipped triangles are kept for legalization', wh, '%s: %s kept' % (lab, ' '.join(show(x) for x in ids) or 'none'), 'kept')
    if ep == 'O' or any(len(x[2]) < 3 for x in go):
        return
    s = ori_sign(e, o.facts, 'Q', 'O', 'E')
    if diag:
        if len(go) != 1 or s == EQ:
            return          # C13
        _, name, pts, trs, ce, snap, w2 = go[0]
        if name == 'scan' or len(trs) != 1:
            c.und('flip', wh, '%s: continues with %s' % (lab, name))
            return
        if name == 'process':
            c.expect('Q' in cs.get(tri_name(m, trs[0]), ()), 'after a flip enforcement goes on at the same pivot', w2, lab, 'same-pivot')
            return
        if s == LT | EQ:
            s = LT          # for a segment passing through a corner on the way either triangle will do
        elif s == GT | EQ:
            s = GT
        n2 = 'after a flip enforcement goes on in the triangle the segment crosses'
        if s not in (LT, GT):
            c.bad(n2, w2, '%s: without the side of the corner across' % lab, 'side') if not any(x[0] == 'orient' for x in o.events) else c.und(n2, w2, lab)
            return
        met.add('left' if s == GT else 'right')
        t = tri_name(m, trs[0])
        side = 'W' if s == GT else 'C'
        c.expect(t in cs and side in cs[t], n2, w2, '%s: E %s Q-O, continues in %s (%s)' % (lab, SIGN[s], t, ' '.join(map(str, cs.get(t, ())))), 'side')
        c.expect(pts[-1] == 'Q', 'after a flip enforcement goes on at the same pivot', w2, '%s: pivot %s' % (lab, pts[-1]), 'same-pivot')
        return
    names = [x[1] for x in go]
    if names != ['scan', 'process']:
        c.und('search for another flip', wh, '%s: %s' % (lab, ', '.join(names)))
        return
    _, name, pts, trs, ce, snap, w2 = go[0]
    if len(trs) == 2:
        c.expect([tri_name(m, x) for x in trs] == ['t', 'ot'], 'the search for another flip starts across the edge', w2, '%s: at %s' % (lab, ', '.join(map(str, (tri_name(m, x) for x in trs)))), 'scan-start')
    if s in (LT, GT):
        met.add('scan left' if s == GT else 'scan right')
        side = 'C' if s == GT else 'W'
        c.expect(pts[-1] == side, 'the search for another flip crosses the edge the segment crosses', w2, '%s: E %s Q-O, moves on across the edge opposite to %s' % (lab, SIGN[s], pts[-1]), 'scan-side')
    else:
        c.und('search for another flip', w2, lab + ': side of the corner across')
    _, name, pts, trs, ce, snap, w2 = go[1]
    c.expect(len(trs) == 1 and trs[0] == S('T:t') and pts[-1] == 'Q', 'after the search enforcement resumes at the same triangle and pivot', w2, '%s: %s at %s' % (lab, ' '.join(show(x) for x in trs), pts[-1]), 'resume')


# --------------------------------------------------------------- scanning


def scanning(c, p):
    E = Enforce(p)
    m, f = E.m, E.scan
    wh = where(f['span'], f['path'])
    c.count('functions_analysed')
    met = set()
    for i in range(3):
        for j in range(3):
            for apart in (0, 1):
                # the triangle reached so far is (P, B, D), B on the right; across P: (O, D, B)
                tris = {'t': rotn_(('P', 'B', 'D'), ('ot', 'na', 'nb' if apart else 'f'), i), 'ot': rotn_(('O', 'D', 'B'), ('t', 'nc', 'nd'), j)}
                tris['f'] = rotn_(('Q', 'F', 'G') if apart else ('Q', 'B', 'P'), ('x', 'y', 'z') if apart else ('t', 'y', 'z'), (i + j) % 3)
                cw = ('F', 'G') if apart else ('B', 'P')
                for ep, seg in (('E', ('E', 'Q')), ('E', ('U', 'V')), ('O', ('O', 'Q'))):
                    lab = 'segment from Q to %s%s, flipping (%s), reached (%s)' % (ep, '' if seg[1] == 'Q' else ' on the way to another', ' '.join(tris['f'][0]), ' '.join(tris['t'][0]))
                    mem, facts = m.setup(tris, ('E', 'U', 'V'))
                    sw = sweeper_val(m, p, m.vec, mem)
                    args, am = E.args(f, sw, ep, 'Q', E.constrained_edge(*seg), ['f', 't'], 'P')
                    mem.update(am)
                    e = E.engine(tris)
                    outs = e.run(f['body'], list(args), dict(mem), facts)
                    c.count('abstract_outcomes', len(outs))
                    if loops(c, outs, 'search for an edge to flip', wh):
                        return
                    for o in outs:
                        one_scan(c, E, e, o, cw, ep, seg, wh, lab, met)
    for k in ('found', 'scan left', 'scan right'):
        if k not in met:
            c.und('search for an edge to flip', wh, 'no outcome for: ' + k)


def one_scan(c, E, e, o, cw, ep, seg, wh, lab, met):
    m = E.m
    go = go_on(o)
    ar = [x for x in o.events if x[0] == 'area']
    if len(ar) != 1 or len(go) != 1:
        c.expect(len(go) >= 1, 'the search for a flip does not give up', wh, lab + ': returns', 'gives-up')
        if go:
            c.und('search for an edge to flip', wh, '%s: %d tests, %d continuations' % (lab, len(ar), len(go)))
        return
    want = tuple(T('pos', S('P:' + x)) for x in ('Q',) + cw + ('O',))
    if not c.expect(tuple(ar[0][1]) == want, 'the search tests the corner across against the triangle to flip', wh, '%s: tests %s' % (lab, ' '.join(show(y) for y in ar[0][1])[:160]), 'scan-area'):
        return
    _, name, pts, trs, ce, snap, w2 = go[0]
    d = lab + ', corner %sin scan area' % ('' if ar[0][2] else 'not ')
    ts = [tri_name(m, x) for x in trs]
    if ar[0][2]:
        met.add('found')
        if not c.expect(name == 'flip', 'a corner in the scan area is flipped to', w2, '%s: %s goes on' % (d, name), 'found'):
            return
        c.expect(pts == ('Q', 'O', 'O') and ts == ['ot'], 'a corner in the scan area is flipped to', w2, '%s: from %s to %s at %s, pivot %s' % (d, pts[1], pts[0], ts, pts[2]), 'found')
        return
    if not c.expect(name == 'scan', 'a corner outside the scan area is passed', w2, '%s: %s goes on' % (d, name), 'passed'):
        return
    s = ori_sign(e, o.facts, 'Q', 'O', ep) if ep != 'O' else None
    c.expect(pts[:2] == (ep, 'Q') and ts == ['f', 'ot'] and ce == seg, 'the search goes on for the same triangle and segment', w2, '%s: %s, triangles %s' % (d, ' '.join(pts), ts), 'scan-same')
    if s is None:
        return
    if s in (LT, GT):
        met.add('scan left' if s == GT else 'scan right')
        side = 'B' if s == GT else 'D'
        c.expect(pts[-1] == side, 'the search moves on across the edge the segment crosses', w2, '%s: E %s Q-O, across the edge opposite to %s' % (d, SIGN[s], pts[-1]), 'scan-on')
    else:
        c.und('search for an edge to flip', w2, d)


# --------------------------------------------------------------- legalization afterwards


def legal_after(c, p):
    E = Enforce(p)
    m = E.m
    f = find_fn(p, 'edge_event', ['&mut sweeper::Sweeper', 'shape::Edge', 'shape::Point', '&mut dyn cdt::Observer'], near='sweeper::')
    mark = find_fn(p, 'try_mark_edge_for_triangle', ['&mut sweeper::Sweeper', PI, PI, TI], 'bool')
    leg = find_fn(p, 'legalize', near='sweeper::')
    fill = find_fn(p, 'fill_edge_event')
    wh = where(f['span'], f['path'])
    c.count('functions_analysed')
    V = '&mut std::vec::Vec<triangles::TriangleId>'
    for n in (0, 1, 2, 3, None):
        kept = ['L%d' % k for k in range(n or 0)]
        mem, facts = m.setup({}, ('E', 'Q'))
        sw = sweeper_val(m, p, m.vec, mem)
        for o in [o for o in mem if o[0] == 'VB' and o != m.vec and o[1][1].startswith('sw.')]:
            mem[o] = ('V', None, ())        # work lists are empty between steps
        e = E.engine({})

        def process(ctx):
            st = ctx.st
            for a, ty in zip(ctx.args, E.process['inputs']):
                if p.types[ty]['k'] == 'ref' and p.ty_s(ty).endswith('std::vec::Vec<triangles::TriangleId>'):
                    v = e.read(st, a[1], a[2]) if a[0] == 'r' else None
                    if v is None or v[0] != 'v':
                        raise Undecided('list of triangles to legalize')
                    st.ev('list', e.load_obj(st, v[1]), ctx.where())
                    if n is None:
                        e.set_vec(st, v[1], ('V', S('kept'), ()))
                    for x in kept:
                        e.vec_push(st, v[1], m.id(x))
            st.ev('process', ctx.where())
            return UNIT

        def filling(ctx):
            return UNIT if p.ty_s(ctx.dty) == '()' else e.fresh(ctx.st, 'any')

        def marking(ctx):
            k = sum(1 for x in ctx.st.events if x[0] == 'mark')
            v = e.truth(ctx.st, T('found', I(k)))
            ctx.st.ev('mark', v)
            return I(int(v))

        def legal(ctx):
            t = [ctx.st.facts.find(m.scal(unref(ctx.st, e, a))) for a, ty in zip(ctx.args, leg['inputs']) if ty == E.tid]
            ctx.st.ev('legal', t[0] if t else None, ctx.where())
            if t:
                ctx.st.ev('announce', t[0], ctx.where())
            return UNIT
        e.hooks[E.process['path']] = process
        e.hooks[fill['path']] = filling
        e.hooks[mark['path']] = marking
        e.hooks[leg['path']] = legal
        args = []
        for ty in f['inputs']:
            if ty == E.edge_ty:
                v = [None, None]
                v[E.ep_i], v[E.eq_i] = m.pt('E'), m.pt('Q')
                args.append(('a', 0, tuple(v)))
            elif p.ty_s(ty) == 'shape::Point':
                args.append(T('pos', S('P:Q')))
            elif p.ty_s(ty).startswith('&mut sweeper'):
                args.append(sw)
            else:
                args.append(S('obs'))
        if n is not None:
            e.force_unroll = 8
        outs = e.run(f['body'], args, mem, facts)
        c.count('abstract_outcomes', len(outs))
        for o in outs:
            if not any(x[0] == 'process' for x in o.events):
                continue
            if n is None:
                all_kept(c, e, o, wh)
                continue
            got = [x[1] for x in o.events if x[0] == 'legal']
            if any(x[0] == 'loop' for x in o.events):
                c.und('legalization after a segment', wh, 'loop')
                continue
            c.expect({S('T:' + x) for x in kept} <= set(got), 'every triangle kept for legalization is legalized', wh, 'kept %s, legalized %s' % (' '.join(kept), ' '.join(show(x) for x in got if x)), 'legalized')


def all_kept(c, e, o, wh):
    """the loop after the enforcement takes every element of a list of any length"""
    at = next(i for i, x in enumerate(o.events) if x[0] == 'process')
    name = 'every triangle kept for legalization is legalized'
    ls = [z for x in o.events[at:] if x[0] == 'loop' for z in e.loop_summ.get(x[1], [])]
    got = {announces_all(e, z) for z in ls}
    if S('kept') in got:
        c.ok(name, wh)
        return
    if not ls:
        c.bad(name, wh, 'no loop over the list', 'legalized')
        return
    for z in ls:
        for b in z['backs']:
            if not any(x[0] in ('announce', 'loop') for x in b.events):
                new = b.facts.log[len(z['entry'].facts.log):] if z['entry'] is not None else b.facts.log
                if 'elem' not in repr(new):
                    c.bad(name, wh, 'a round of the loop leaves its triangle out whatever triangle it is', 'legalized')
                    return
    c.und(name, wh, 'loop over the list')


CHECKS = {'C36': c36}
