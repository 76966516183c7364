"""Holes and basins of the front (C35)."""
from checks_c import *
import itertools


def coordpoly(w, n, k):
    return poly(T('fld', w.pos(T('npid', n)), 0, k))


def legs(w, o, a, b):
    """cross and dot product of the legs o->a and o->b"""
    X = lambda n: coordpoly(w, n, w.xi)
    Y = lambda n: coordpoly(w, n, w.yi)
    d = lambda f, p, q: padd(f(p), f(q), -1)
    cr = padd(pmul(d(X, a, o), d(Y, b, o)), pmul(d(Y, a, o), d(X, b, o)), -1)
    dt = padd(pmul(d(X, a, o), d(X, b, o)), pmul(d(Y, a, o), d(Y, b, o)))
    return [cr, dt]


SG = {LT: '-', EQ: '0', GT: '+'}


def signs(log, polys, isf, want=None):
    """(sign sets of the polynomials that a path allows, foreign constraints), None for an impossible path"""
    sets = ['-0+'] * len(polys)
    foreign = []
    for q, k, m in float_constraints(log, isf):
        if not q:
            if not (sgn(k) & m):
                return None
            continue
        for i, pl in enumerate(polys):
            s = scale_of(q, pl)
            if s is not None:
                if k != 0:
                    foreign.append((q, k, m))
                    break
                ok = ''.join(c for mm, c in SG.items() if m & (mm if s > 0 else {LT: GT, GT: LT, EQ: EQ}[mm]))
                sets[i] = ''.join(c for c in sets[i] if c in ok)
                if not sets[i]:
                    return None
                break
        else:
            foreign.append((q, k, m))
    return sets, foreign


def known(st, t):
    v = st.facts.find(t)
    if v == I(1) or ('b', t, True) in st.facts.log:
        return True
    if v == I(0) or ('b', t, False) in st.facts.log:
        return False
    return None


def between(cr, dt):
    if cr == '0' and dt == '0':
        return None
    return cr == '+' and dt == '+'


def fill_rule(v, e1, e2):
    """is a corner closed?  v: signs of cross and dot product of the corner, with the next leg widened, with the previous one widened"""
    if v[0] == '-':
        return False
    if v[0] == '0':
        return None
    if v[1] != '-':
        return True
    r = [between(v[2], v[3]) if e1 else False, between(v[4], v[5]) if e2 else False]
    if True in r:
        return True
    return None if None in r else False


def judge(c, name, wh, cases, polys, rule, isf, key):
    """cases: (value, log, flags); every value must be the one the rule gives for each sign vector the path allows"""
    n = 0
    for val, log, flags in cases:
        sv = signs(log, polys, isf)
        if sv is None:
            continue
        sets, foreign = sv
        bad = None
        for vec in itertools.product(*sets):
            for fl in itertools.product(*[[f] if f is not None else [True, False] for f in flags]):
                want = rule(vec, *fl)
                n += 1
                if want is not None and want != val:
                    bad = vec, fl, want
        if bad is None:
            c.ok(name, wh)
        elif foreign and any(mm for q, _, _ in foreign for mm in q if any(a[0] == 't' and a[1] not in ('fld', 'orient2d', 'incircle') for a in mm)):
            c.und(name, wh, 'compares values outside the arithmetic that is modelled')
        else:
            c.bad(name, wh, '%s although the signs %s%s call for the opposite%s' % (
                'done' if val else 'not done', ','.join(bad[0]), ' (present: %s)' % ','.join(str(int(x)) for x in bad[1]) if bad[1] else '',
                '; depends on ' + '; '.join(show_poly(q) for q, _, _ in foreign[:2]) if foreign else ''), '%s[%s]' % (key, ','.join(bad[0])))
    c.count('sign_vectors', n)
    return n


def node_vars(w, s):
    """loop-carried memory objects that hold a front node"""
    out = []
    for o, v in s['head'].mem.items():
        if s['entry'].mem.get(o) == v:
            continue
        v = w.strip(s['head'], v) if is_term(v) else v
        ents = s['entry'].mem.get(o)
        if ents is None or not is_term(v) or not is_term(ents):
            continue
        out.append((o, v, w.strip(s['entry'], ents)))
    return out


def tail(evs, s):
    n = len(s['entry'].events)
    return evs[n:] if evs[:n] == s['entry'].events else evs


def is_node_term(n):
    return n[0] == 's' or (n[0] == 't' and n[1] in ('fnode', 'nodeat', 'fld', 'nodebelow', 'nth'))


def rels(facts, f, a, b, w):
    """mask of f(a) against f(b) for two node terms"""
    g = lambda n: T('fld', w.pos(T('npid', n)), 0, f)
    return facts.mask(g(a), g(b), w.e)


def unit(c, p, f, opaque):
    e = Engine(p, max_states=120000)
    w = World(p, e, opaque)
    args, mem = unit_args(p, w, f)
    outs = e.run(f['body'], args, mem)
    c.sites = getattr(c, 'sites', set()) | e.fnseen
    c.count('functions_analysed')
    c.count('abstract_outcomes', len(outs))
    return e, w, outs, args


def c35():
    c = Check('C35', 'Abstract interpretation of the hole and basin routines over a symbolic front: one iteration of every walk, with the corner-angle and basin tests inlined and their arithmetic expanded to '
              'polynomials, is compared with the filling rule over all signs of those polynomials; the basin steps are compared case by case with their specification.',
              ['filling one corner does what C18 says', 'arithmetic is judged as exact real arithmetic', 'a filled corner hands back the two nodes beside it'])
    p = prog()
    try:
        fo = fill_fn(p)
    except NoAnchor as x:
        c.und('holes', 'src/sweeper.rs', str(x))
        return c.finish()
    one = fo['path'].split('::')[-1]
    holes = basin = req = None
    for nm in ('fill_advancing_front', 'fill_basin', 'fill_basin_req'):
        try:
            f = find_fn(p, nm)
        except NoAnchor:
            continue
        if nm == 'fill_advancing_front':
            holes = f
        elif nm == 'fill_basin':
            basin = f
        else:
            req = f
    with c.guard('holes beside a new point'):
        if holes is None or basin is None:
            raise NoAnchor('fill_advancing_front / fill_basin')
        walk(c, p, holes, fo, basin, one)
    with c.guard('shape of a basin'):
        if basin is None or req is None:
            raise NoAnchor('fill_basin / fill_basin_req')
        shape(c, p, basin, req, fo, one)
    with c.guard('filling a basin'):
        if req is None:
            raise NoAnchor('fill_basin_req')
        steps(c, p, req, fo, one)
    return c.finish()


# ------------------------------------------------------------ holes
def walk(c, p, f, fo, basin, one):
    wh = where(f['span'], f['path'])
    bname = basin['path'].split('::')[-1]
    e, w, outs, args = unit(c, p, f, [fo, basin])
    X = [a for i, a in enumerate(args) if f['body']['locals'][i + 1] == w.PT]
    FO = None
    for i, t in enumerate(p.types):
        if t.get('path', '').endswith('FillOne'):
            FO = i
    idx = {d: p.field_index(FO, nm) for d, nm in ((1, 'next'), (-1, 'prev'))} if FO is not None else {}
    sides = {}
    seen = set()
    for k, ss in e.loop_summ.items():
        s = ss[-1]
        fills = []
        for b in s['backs']:
            calls = [x for x in tail(b.events, s) if x[0] == 'call']
            fills.append(calls)
        if not any(fills):
            continue
        for b, calls in zip(s['backs'], fills):
            other = [x for x in calls if x[1] != one]
            if other:
                raise Undecided('the walk over the corners calls %s' % other[0][1])
            c.expect(len(calls) == 1, 'each step of the walk closes one corner', wh, '%d corners closed in one step' % len(calls))
        for x in s['exits']:
            if any(y[0] == 'call' for y in tail(x.events, s)):
                ep = I0(w.cur(x)[0])
                looked = any(q[2] == ep for r in x.facts.log for t in r[1:3] for q in fnodes(t))
                failed = any(r[0] == 'var' and r[1][:2] == ('t', 'ret') and r[2] == 0 for r in x.facts.log)
                if not looked and not failed:
                    c.bad('the walk stops at a corner that is no hole', wh, 'it stops after closing a corner without looking at the next one', 'stop')
                    continue
                raise Undecided('the last step of the walk fills')
        # the corners
        corner = {calls[0][2][1] for calls in fills if len(calls) == 1}
        if len(corner) != 1:
            raise Undecided('the walk closes different corners')
        C = corner.pop()
        h = s['head']
        pv, nx = w.step_term(h, C, -1), w.step_term(h, C, 1)
        nx2, pv2 = w.step_term(h, nx, 1), w.step_term(h, pv, -1)
        vs = node_vars(w, s)
        heads = [v for _, v, _ in vs]
        d = [dd for dd in (1, -1) if any(w.step_term(h, v, dd) == C for v in heads)]
        polys = legs(w, C, nx, pv) + legs(w, C, nx2, pv) + legs(w, C, nx, pv2)
        isf = lambda t: checks_b.isf_front(t)
        ex = lambda st, n: True if n in heads or not (n[0] == 't' and n[1] == 'fnode') else known(st, T('exists', n))
        cases = []
        nlog = len(h.facts.log)
        for val, sts in ((True, s['backs']), (False, [x for x in s['exits'] if not any(y[0] == 'call' for y in tail(x.events, s))])):
            for st in sts:
                log = st.facts.log[nlog:]
                fl = (ex(st, nx2), ex(st, pv2))
                ends = [ex(st, n) for n in (C, nx, pv)]
                if False in ends:
                    c.expect(not val, 'the walk stops at the end of the front', wh, 'a corner without both neighbors is closed')
                    continue
                cases.append((val, log, fl))
        sig = repr((k.split('~')[0], sorted(repr((v, [tuple(map(repr, x)) for x in l], fl)) for v, l, fl in cases))).replace(k, '')
        cnt = judge(c, 'a corner beside a new point is closed exactly if it is a hole', wh, cases, polys, fill_rule, isf, 'hole')
        c.count('walk_iterations', len(s['backs']) + len(s['exits']))
        if not cases:
            c.und('a corner beside a new point is closed exactly if it is a hole', wh, 'no iteration')
        if len(d) != 1 or len(vs) != 1 or d[0] not in idx:
            c.und('the walk goes outward', wh, 'the walk is not carried by one node')
            continue
        d = d[0]
        o, v, v0 = vs[0]
        sides.setdefault(d, []).append(k)
        start = X and v0 == T('nodeat', X[0])
        if X and not start and (v0[0] == 't' and v0[1] == 'fnode' and v0[3] == T('nodeat', X[0]) or v0 == T('nodeat', X[0])):
            c.bad('the walk starts at the node of the new point', wh, 'the walk starts at %s' % show(v0)[:200], 'start')
        else:
            c.ok('the walk starts at the node of the new point', wh) if start else c.und('the walk starts at the node of the new point', wh, show(v0)[:120])
        for b in s['backs']:
            nv = w.strip(b, b.mem[o])
            ret = T('ret', S(one), I(len([x for x in b.events if x[0] == 'call'])))
            good = {C}
            for vi in (0, 1):
                good.add(T('fld', T('fld', ret, vi, 0), 0, idx[d]))
            far = nv == C or (nv[0] == 't' and nv[1] == 'fld' and nv[4] == idx[d] and 'ret(%s' % one in show(nv))
            near = nv == v or (nv[0] == 't' and nv[1] == 'fld' and 'ret(%s' % one in show(nv)) or w.step_term(h, v, -d) == nv
            if far:
                c.ok('the walk goes outward', wh)
            elif near:
                c.bad('the walk goes outward', wh, 'after closing %s the walk goes on from %s' % (show(C)[-80:], show(nv)[-120:]), 'outward')
            else:
                c.und('the walk goes outward', wh, 'goes on from %s' % show(nv)[:120])
    if not sides:
        c.und('holes beside a new point', wh, 'no walk')
    elif -1 not in sides or 1 not in sides:
        c.und('both sides are walked', wh, 'one side only')
    else:
        c.ok('both sides are walked', wh)
    # the basin
    if not X:
        c.und('the basin to the right is filled where it is steep', wh, 'no point')
        return
    N = T('nodeat', X[0])
    groups = {}
    for o in outs:
        calls = [x for x in o.events if x[0] == 'call' and x[1] == bname]
        before = o
        for x in calls:
            a = [v for v in x[2] if is_node_term(v) and v[0] == 't' or v == N]
            c.expect(N in x[2], 'the basin is the one at the new node', wh, 'it is filled at %s' % '/'.join(show(v)[:80] for v in x[2][1:2]))
        c.expect(len(calls) <= 1, 'the basin is filled once', wh, '%d times' % len(calls))
        # nodes in the front after the walks
        ep = None
        for r in reversed(o.facts.log):
            for t in r[1:3]:
                if isinstance(t, tuple):
                    for q in fnodes(t):
                        if q[3] == N and (q[4] == I(2) or q[4] == I(1)):
                            ep = q[2]
                            break
                if ep is not None:
                    break
            if ep is not None:
                break
        # the last front before the basin
        groups.setdefault(ep, []).append((bool(calls), o))
    n = 0
    done = set()
    for ep, lst in groups.items():
        if ep is None:
            for val, o in lst:
                c.expect(not val, 'the basin to the right is filled where it is steep', wh, 'filled without looking at the nodes to the right')
            continue
        n1, n2 = T('fnode', ep, N, I(1)), T('fnode', ep, N, I(2))
        ax = padd(coordpoly(w, N, w.xi), coordpoly(w, n2, w.xi), -1)
        ay = padd(coordpoly(w, N, w.yi), coordpoly(w, n2, w.yi), -1)
        polys = [ax, padd(ax, ay)]
        cases = []
        for val, o in lst:
            fl = [known(o, T('exists', q)) for q in (n1, n2)]
            if False in fl:
                c.expect(not val, 'the basin to the right is filled where it is steep', wh, 'filled without two nodes to the right')
                continue
            log = tuple(x for x in o.facts.log if x[0] == 'rel' and any(q == n2 for t in x[1:3] for q in fnodes(t)))
            sig = (val, tuple(repr(x).replace(repr(ep), 'EP') for x in log))
            if sig in done:
                continue
            done.add(sig)
            cases.append((val, log, ()))

        def rule(v):
            if v[0] == '-':
                return v[1] == '+'
            return None
        n += judge(c, 'the basin to the right is filled where it is steep', wh, cases, polys, rule, lambda t: checks_b.isf_front(t), 'basin')
    if not n:
        c.und('the basin to the right is filled where it is steep', wh, 'no decision')


def fnodes(t):
    if isinstance(t, tuple):
        if len(t) == 5 and t[0] == 't' and t[1] == 'fnode':
            yield t
        for x in t:
            if isinstance(x, tuple):
                yield from fnodes(x)


# ------------------------------------------------------------ the shape of a basin
def climbs(c, e, w, wh):
    """monotone walks of a routine: entry node -> (head symbol, direction 'down'/'up', end symbol)"""
    out = []
    for k, ss in e.loop_summ.items():
        s = ss[-1]
        vs = node_vars(w, s)
        if len(vs) != 1:
            raise Undecided('a walk is not carried by one node')
        o, v, v0 = vs[0]
        h = s['head']
        masks = 0
        nxt = w.step_term(h, v, 1)
        for b in s['backs']:
            nv = w.strip(b, b.mem[o])
            if nv != nxt:
                if nv == v or nv == w.step_term(h, v, -1) or nv == w.step_term(h, nxt, 1):
                    c.bad('the rim of a basin is found by going right node by node', wh, 'the walk goes on at %s' % show(nv)[-100:], 'walk')
                    return None
                raise Undecided('a walk goes on at %s' % show(nv)[:100])
            masks |= rels(b.facts, w.yi, v, nxt, w)
        stop = 0
        for x in s['exits']:
            if known(x, T('exists', nxt)) is False:
                continue
            stop |= rels(x.facts, w.yi, v, nxt, w)
        out.append((v0, v, masks, stop, k))
    return out


def shape(c, p, f, req, fo, one):
    wh = where(f['span'], f['path'])
    e, w, outs, args = unit(c, p, f, [fo, req])
    rname = req['path'].split('::')[-1]
    ni = [i for i in range(len(args)) if f['body']['locals'][i + 1] == w.node]
    if len(ni) != 1:
        raise Undecided('node parameter')
    N = args[ni[0]]
    st0 = State()
    n1 = w.step_term(st0, N, 1)
    n2 = w.step_term(st0, n1, 1)
    P = lambda n: w.pos(T('npid', n))
    ws = climbs(c, e, w, wh)
    if ws is None:
        return
    byh = {v: (v0, m, stop, k) for v0, v, m, stop, k in ws}
    BT = None
    for i, t in enumerate(p.types):
        if t.get('path', '').endswith('sweeper::Basin'):
            BT = i
    if BT is None:
        raise NoAnchor('Basin')
    li, ri = p.field_index(BT, 'left'), p.field_index(BT, 'right')
    if li is None or ri is None:
        raise NoAnchor('ends of the basin')
    nc = 0
    for o in outs:
        calls = [x for x in o.events if x[0] == 'call']
        c.expect(all(x[1] == rname for x in calls) and len(calls) <= 1, 'a basin is filled from its bottom only', wh, '/'.join(x[1] for x in calls))
        if not calls:
            continue
        a = calls[0][2]
        bs = [v for v in a if v[0] == 'a' and len(v[2]) == len(p.fields(BT))]
        if len(bs) != 1 or len(a) < 2:
            raise Undecided('no basin passed on')
        nodes = [v for i, v in enumerate(a) if req['body']['locals'][i + 1] == w.node]
        if len(nodes) != 1:
            raise Undecided('no bottom passed on')
        nc += 1
        B = nodes[0]
        L, R = bs[0][2][li], bs[0][2][ri]
        # left rim
        sg = w.sign(o.facts, P(N), P(n1), P(n2))
        rim = {1: n1, 2: n2}
        want = n2 if sg == GT else (n1 if not sg & GT else None)
        if want is None:
            c.bad('the left rim of a basin is its first high node', wh, 'the rim is chosen without the orientation of the two next nodes', 'rim')
        elif L in (P(n1), P(n2), P(N)):
            c.expect(L == P(want), 'the left rim of a basin is its first high node', wh, 'the left rim is %s, orientation of the next nodes %s' % (show(L)[-60:], SG.get(sg, 'unknown')), 'left')
        else:
            c.und('the left rim of a basin is its first high node', wh, 'left rim %s' % show(L)[:120])
        # bottom: descent from the left rim
        if B not in byh:
            c.expect(False, 'the bottom is the end of the descent from the left rim', wh, 'filling starts at %s' % show(B)[-100:]) if B in (n1, n2, N) else c.und('the bottom is the end of the descent from the left rim', wh, show(B)[:120])
            continue
        v0, m, stop, k = byh[B]
        if not byh_ok(byh, R, P):
            if R in (P(n1), P(n2), P(N), P(B)):
                c.bad('the right rim is the end of the ascent from the bottom', wh, 'the right rim is %s' % show(R)[-100:], 'right')
            else:
                c.und('the right rim is the end of the ascent from the bottom', wh, show(R)[:120])
            continue
        c.expect(v0 == want if want is not None else True, 'the bottom is the end of the descent from the left rim', wh, 'the descent starts at %s' % show(v0)[-100:], 'descent')
        c.expect(m & LT == 0 and stop & (GT | EQ) == 0, 'the bottom is the end of the descent from the left rim', wh, 'goes on to a %s node, stops before a %s one' % (
            'higher' if m & LT else 'lower or level', 'lower or level' if stop & (GT | EQ) else 'higher'), 'down')
        if R == P(B):
            # nothing beyond the bottom: an empty basin, nothing lies strictly between its rims
            nb = w.step_term(st0, B, 1)
            c.expect(known(o, T('exists', nb)) is False or rels(o.facts, w.yi, B, nb, w) & LT == 0, 'the right rim is the end of the ascent from the bottom', wh,
                     'the bottom itself is taken for the right rim', 'right')
            continue
        r = next(v for v in byh if P(v) == R)
        v0, m, stop, k = byh[r]
        c.expect(v0 == B, 'the right rim is the end of the ascent from the bottom', wh, 'the ascent starts at %s' % show(v0)[-100:], 'ascent')
        c.expect(m & (GT | EQ) == 0 and stop & LT == 0, 'the right rim is the end of the ascent from the bottom', wh, 'goes on to a %s node, stops before a %s one' % (
            'lower or level' if m & (GT | EQ) else 'higher', 'higher' if stop & LT else 'lower or level'), 'up')
    c.count('basins', nc)
    if not nc:
        c.und('shape of a basin', wh, 'no outcome fills')


def byh_ok(byh, R, P):
    return any(P(v) == R for v in byh)


# ------------------------------------------------------------ filling a basin
def steps(c, p, f, fo, one):
    wh = where(f['span'], f['path'])
    e = Engine(p, max_states=60000)
    w = World(p, e, [fo, f])
    rname = f['path'].split('::')[-1]
    done = None
    for g in p.fns:
        if g.get('body') and g['path'].endswith('Basin::completed'):
            done = g
    if done is None:
        raise NoAnchor('basin completion')
    DONE = lambda ctx: I(int(e.truth(ctx.st, T('completed', w.pointval(ctx.st, ctx.args[1])))))
    e.hooks[done['path']] = DONE
    args, mem = unit_args(p, w, f)
    outs = e.run(f['body'], args, mem)
    c.sites = getattr(c, 'sites', set()) | e.fnseen
    c.count('functions_analysed')
    c.count('abstract_outcomes', len(outs))
    ni = [i for i in range(len(args)) if f['body']['locals'][i + 1] == w.node]
    deref = lambda t: p.types[t]['elem'] if p.types[t]['k'] == 'ref' else t
    bi = [i for i in range(len(args)) if p.types[deref(f['body']['locals'][i + 1])].get('path', '').endswith('Basin')]
    if len(ni) != 1 or len(bi) != 1:
        raise Undecided('parameters')
    BT = deref(f['body']['locals'][bi[0] + 1])
    li, ri = p.field_index(BT, 'left'), p.field_index(BT, 'right')
    FO = next((i for i, t in enumerate(p.types) if t.get('path', '').endswith('FillOne')), None)
    if FO is None or li is None or ri is None:
        raise NoAnchor('FillOne / Basin')
    pi, xi = p.field_index(FO, 'prev'), p.field_index(FO, 'next')
    if pi is None or xi is None or p.fields(FO)[pi] != w.node or p.fields(FO)[xi] != w.node or p.fields(BT)[li] != w.PT or p.fields(BT)[ri] != w.PT:
        raise NoAnchor('FillOne / ends of the basin')
    B = w.shallow(outs[0], args[bi[0]]) if outs else args[bi[0]]
    trans = []        # (state, node, events, node filling goes on with)
    loops = [ss[-1] for ss in e.loop_summ.values()]
    if loops:
        if len(loops) != 1:
            raise Undecided('several loops')
        s = loops[0]
        vs = node_vars(w, s)
        if len(vs) != 1:
            raise Undecided('filling is not carried by one node')
        o, v, v0 = vs[0]
        c.expect(v0 == args[ni[0]], 'filling starts at the bottom', wh, 'it starts at %s' % show(v0)[-80:])
        for b in s['backs']:
            trans.append((b, v, tail(b.events, s), w.strip(b, b.mem[o])))
        for x in s['exits']:
            trans.append((x, v, tail(x.events, s), None))
    else:
        for o in outs:
            calls = [x for x in o.events if x[0] == 'call' and x[1] == rname]
            if len(calls) > 1:
                c.bad('one step goes on with one node', wh, '%d further steps' % len(calls), 'once')
                continue
            if not calls:
                trans.append((o, args[ni[0]], o.events, None))
        for path, ca, st, cw in w.calls:
            if path == f['path']:
                # the front as it is when the next step begins
                c.expect(ca[bi[0]] == B, 'every step works with the same basin', cw, show(ca[bi[0]])[:120])
                trans.append((st, args[ni[0]], st.events, ca[ni[0]]))
    n = 0
    for st, N, evs, nxt in trans:
        P = lambda q: w.pos(T('npid', q))
        comp = known(st, T('completed', P(N)))
        fills = [x for x in evs if x[0] == 'call' and x[1] == one]
        if not fills:
            c.expect(comp is not False, 'filling goes on until the basin is shallow', wh, 'a node of the basin is not filled', 'skip')
            c.expect(nxt is None, 'filling goes on until the basin is shallow', wh, 'goes on without filling', 'goon')
            continue
        n += 1
        c.expect(len(fills) == 1 and fills[0][2][1] == N, 'the node at hand is filled', wh, '/'.join(show(x[2][1])[-60:] for x in fills), 'node')
        c.expect(comp is False, 'nothing is filled in a shallow basin or beyond its rims', wh, 'filled without the completion test of that node (%s)' % comp, 'completed')
        k = [i for i, x in enumerate([y for y in st.events if y[0] == 'call']) if x[1] == one]
        ret = T('ret', S(one), I(k[-1] + 1))
        some_ix = next((r[2] for r in st.facts.log if r[0] == 'var' and r[1] == ret), None)
        if some_ix == 0:
            continue          # the corner could not be filled
        some_ix = 1 if some_ix is None else some_ix
        prev, nx = (T('fld', T('fld', ret, some_ix, 0), 0, j) for j in (pi, xi))

        def sp(a, b):
            """are two points of the front the same?  (no two nodes share their x)"""
            k = known(st, T('samepoint', *sorted((a, b), key=repr)))
            mx = st.facts.mask(T('fld', a, 0, w.xi), T('fld', b, 0, w.xi), e)
            if k is None and mx & EQ == 0:
                return False
            return True if k is None and mx == EQ else k
        Bv = lambda j: B[2][j] if B[0] == 'a' else T('fld', B, 0, j)
        atl, atr = sp(P(prev), Bv(li)), sp(P(nx), Bv(ri))
        lower = st.facts.mask(T('fld', P(prev), 0, w.yi), T('fld', P(nx), 0, w.yi), e)
        name = 'filling goes on with the lower neighbor, at a rim with the other one'
        if nxt is not None and nxt not in (prev, nx):
            if nxt == N or nxt[0] == 't' and nxt[1] == 'fnode':
                c.bad(name, wh, 'goes on with %s' % show(nxt)[-100:], 'next')
            else:
                c.und(name, wh, 'goes on with %s' % show(nxt)[-100:])
            continue
        far = {nx: w.step_term(st, nx, 1), prev: w.step_term(st, prev, -1)}
        turn = {q: w.sign(st.facts, P(N), P(q), P(far[q])) for q in far}
        there = {q: known(st, T('exists', far[q])) for q in far}
        opts = lambda k: [k] if k is not None else [True, False]
        bad = None
        for al, ar in itertools.product(opts(atl), opts(atr)):
            # a rim is never filled: going on with it is stopping
            got = None if nxt == nx and ar or nxt == prev and al else nxt
            for lo in [x for x in (LT, EQ, GT) if x & lower]:
                for tn, tp in itertools.product([x for x in (LT, EQ, GT) if x & turn[nx]], [x for x in (LT, EQ, GT) if x & turn[prev]]):
                    for en, ep in itertools.product(opts(there[nx]), opts(there[prev])):
                        if al and ar:
                            want = None
                        elif al:
                            want = nx if en and tn != LT else None
                        elif ar:
                            want = prev if ep and tp != GT else None
                        else:
                            want = prev if lo == LT else nx
                        if want != got:
                            bad = al, ar, lo, tn, tp, got, want
        if bad is None:
            c.ok(name, wh)
        else:
            al, ar, lo, tn, tp, got, want = bad
            lb = lambda q: 'stops' if q is None else 'goes on with the %s neighbor' % ('right' if q == nx else 'left')
            c.bad(name, wh, '%s, specified: %s (left rim reached: %s, right rim reached: %s, left neighbor %s right one, turn to the right %s, to the left %s)' % (
                lb(got), lb(want), al, ar, show_mask(lo), show_mask(tn), show_mask(tp)), 'step[%s,%s,%s]' % (al, ar, show_mask(lo)))
    c.count('basin_steps', n)
    if not n:
        c.und('filling a basin', wh, 'no step fills')


def show_mask(m):
    return ''.join(ch for k, ch in ((LT, '<'), (EQ, '='), (GT, '>')) if m & k) or 'none'


CHECKS = {'C35': c35}
