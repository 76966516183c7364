"""Extraction of the result (C14)."""
import itertools
from common import *
from graph import *
from engine import *
from mesh import *
from frontmodel import unref
from checks_b import sweeper_val, owner, dominated
from checks_c import leaves, entry_fields
from checks_d import observe, flat_events, run_events
from checks_e import TI, PI, install, one, nm, rot_, storage_calls, GROW, KEEP, DROP, assigned_type

# ------------------------------------------------------------------------ C14


class Fill:
    """the flood fill that collects the result"""

    def __init__(self, p):
        self.p = p
        self.m = Mesh(p)
        self.f = find_fn(p, 'clean_mesh', ['&mut sweeper::Sweeper', TI])
        self.where = where(self.f['span'], self.f['path'])
        self.fi = p.field_index(self.m.tri, 'interior')
        if self.fi is None:
            bs = [i for i, t in enumerate(p.fields(self.m.tri)) if p.types[t]['k'] == 'bool']
            if len(bs) != 1:
                raise NoAnchor('flag of collected triangles')
            self.fi = bs[0]
        self.sw = p.adt('sweeper::Sweeper')
        self.rk, self.res = result_field(p)
        e = Engine(p, max_states=60000)
        mem, facts = self.m.setup({'t': (('P0', 'P1', 'P2'), (None, None, None))})
        del mem[('E', self.m.vec, S('T:t'))]
        mem[('W', self.m.vec)] = ()
        sw = sweeper_val(self.m, p, self.m.vec, mem)
        args, am = e.sym_args(self.f['body'], ['sw', 't'])
        mem.update(am)
        args[0], args[1] = sw, self.m.id('t')
        self.e = e
        self.outs = e.run(self.f['body'], args, mem, facts)

    def loops(self):
        """arrivals at the loop that takes triangles from the work list"""
        c = {}
        for lid, ss in self.e.loop_summ.items():
            for s in ss:
                if any(b.mem.get(self.res) != s['head'].mem.get(self.res) for b in s['backs']):
                    c.setdefault(s['depth'], []).append(s)
        if not c:
            raise NoAnchor('loop that collects the result')
        out = c[min(c)]
        if len({s['lid'] for s in out}) != 1:
            raise Undecided('%d loops collect the result' % len({s['lid'] for s in out}))
        return out

    def work_list(self, s):
        q = []
        for o, v in s['head'].mem.items():
            if o in (self.res, self.m.vec) or not (isinstance(v, tuple) and v and v[0] == 'V'):
                continue
            was = s['entry'].mem.get(o)
            if v[1] is not None and v[1][0] == 's' and v[1][1].startswith(s['lid']) and not v[2] and was and was[0] == 'V' and was[1] is None and any(x == S('T:t') for el in was[2] for x in leaves(el)):
                q.append((o, was[2]))
        if len(q) != 1 or len(q[0][1]) != 1:
            raise NoAnchor('work list of the extraction')
        o, (el,) = q[0]
        ls = list(leaves(el))
        if ls.count(S('T:t')) != 1 or len(ls) > 2:
            raise Undecided('entries of the work list')
        return o, el, ls.index(S('T:t')), len(ls)

    def flag(self, st, v):
        x = v[2][self.fi]
        if x[0] == 'i':
            return x[1]
        b = st.facts.b.get(st.facts.find(x))
        return None if b is None else int(b)


def result_field(p):
    sw = p.adt('sweeper::Sweeper')
    ti = p.adt(TI)
    if sw is None or ti is None:
        raise NoAnchor('sweeper type')
    c = []
    for i, f in enumerate(p.fields(sw)):
        t = p.types[f]
        if t['k'] == 'adt' and t['path'] == 'std::vec::Vec' and t['args'][0] == ti:
            c.append((i, p.types[sw]['variants'][0]['fields'][i]['name']))
    r = [x for x in c if x[1] == 'result'] or c
    if len(r) != 1:
        raise NoAnchor('list of result triangles')
    return r[0][0], ('VB', S('sw.' + r[0][1]))


def build_elem(el, vals):
    it = iter(vals)

    def go(v):
        if v[0] == 'a' and v[2]:
            return ('a', v[1], tuple(go(x) for x in v[2]))
        return next(it)
    return go(el)


def surroundings():
    P = ('P0', 'P1', 'P2')
    for pres in itertools.product((0, 1), repeat=3):
        for r in range(3) if any(pres) else (0,):
            d = {'t': (P, tuple('n%d' % k if pres[k] else None for k in range(3)))}
            for k in range(3):
                if pres[k]:
                    a, b = P[(k + 1) % 3], P[(k + 2) % 3]
                    d['n%d' % k] = (rot_(('X%d' % k, b, a), (r + k) % 3), rot_(('t', 'y%d' % k, 'z%d' % k), (r + k) % 3))
            yield pres, r, d


def c14():
    c = Check('C14', 'Abstract interpretation of the flood fill: its work loop starts with the start triangle only, ends only with an empty work list, and one step from an arbitrary state with every combination of present neighbors, '
              'symbolic constraint marks and collected-flags adds exactly the triangle taken and schedules exactly its unconstrained neighbors. The start search is followed over fronts of one to nine nodes with chains of triangles about each. '
              'Queries over every MIR place and call site: who else writes the result list and the flags.', ['the work list holds triangles of the mesh', 'marks agree on both sides of an edge (C13)', 'neighbor entries agree with each other (C12)'])
    p = prog()
    with c.guard('flood fill'):
        fill_steps(c, p)
    with c.guard('start of the extraction'):
        start_search(c, p)
    with c.guard('writers of the result'):
        writers(c, p)
    with c.guard('result handed out'):
        handed_out(c, p)
    return c.finish()


def fill_steps(c, p):
    F = Fill(p)
    m, e, wh = F.m, F.e, F.where
    c.count('functions_analysed', len(e.fnseen))
    for s in F.loops():
        q, el, ip, nl = F.work_list(s)
        c.ok('the fill starts with the start triangle and nothing else', wh)
        ent = s['entry']
        ev = ent.mem.get(('E', m.vec, S('T:t')))
        marked = ev is not None and F.flag(ent, ev) == 1
        res0 = ent.mem[F.res]
        early = tuple(one(x) for x in res0[2]) == (S('T:t'),)
        if res0[1] != S('sw.' + F.res[1][1][3:]) or (res0[2] and not (early and marked)):
            c.bad('nothing but reached triangles is added to the result', wh, 'before the fill the result gets %s' % show(res0)[:80], 'result-extra')
            continue
        proto = 'push' if marked else 'pop'
        empty = [x.facts.mask(T('len', s['head'].mem[q][1]), I(0)) == EQ for x in s['exits']]
        c.expect(all(empty) and empty, 'the fill stops only when nothing is left to visit', wh, 'the loop can end with triangles left to visit', 'stops-early')
        inv = False
        for pres, r, tris in surroundings():
            froms = [None] + ['n%d' % k for k in range(3) if pres[k]] if nl == 2 else [None]
            for fr in froms:
                h = s['head'].copy()
                install(m, h, tris)
                c0 = h.mem[q]
                vals = [None] * nl
                vals[ip] = S('T:t')
                if nl == 2:
                    vals[1 - ip] = m.INV if fr is None else S('T:' + fr)
                h.mem[q] = ('V', c0[1], (build_elem(el, vals),))
                r0 = h.mem[F.res]
                v0 = {n: h.mem[('E', m.vec, S('T:' + n))] for n in tris}
                if fr is not None or proto == 'push':
                    for n in ([fr] if fr else []) + (['t'] if proto == 'push' else []):
                        h.facts.b[h.facts.find(v0[n][2][F.fi])] = True
                e.max_states, e.budget = e.nstates + 60000, e.steps + 4000000
                backs, exits = e.next_iteration(s, h)
                lab = 'neighbors %s, placements %d, from %s' % (''.join(map(str, pres)), r, fr)
                c.count('surroundings')
                if exits:
                    c.bad('the fill stops only when nothing is left to visit', wh, lab + ': the loop ends although a triangle was just taken', 'stops-early')
                for b in backs:
                    c.count('step_outcomes')
                    inv |= fill_outcome(c, F, lab, tris, fr, q, el, ip, c0, r0, v0, b, proto, early)
        if inv or proto == 'pop':
            # a missing neighbor on the list
            h = s['head'].copy()
            install(m, h, {})
            c0, r0 = h.mem[q], h.mem[F.res]
            vals = [m.INV] * nl
            if nl == 2:
                vals[1 - ip] = S('T:x')
            h.mem[q] = ('V', c0[1], (build_elem(el, vals),))
            backs, exits = e.next_iteration(s, h)
            for b in backs:
                c.expect(b.mem[F.res] == r0 and b.mem.get(q) == ('V', c0[1], ()) and b.mem.get(('W', m.vec), ()) == (), 'a missing neighbor adds nothing', wh,
                         'result %s, list %s' % (show(b.mem[F.res])[-60:], show(b.mem[q])[-60:]), 'missing-neighbor')
            if exits:
                c.bad('the fill stops only when nothing is left to visit', wh, 'the loop ends at a missing neighbor', 'stops-early')
    for o in F.outs:
        n = [x for x in o.events if x[0] == 'loop' and x[1] == s['lid']]
        c.expect(len(n) == 1, 'the fill runs once', wh, '%d times' % len(n))
        fin = o.mem.get(F.res)
        if fin and fin[0] == 'V':
            good = fin[1] is not None and fin[1][0] == 't' and fin[1][1] == 'rep' and not fin[2]
            c.expect(good, 'the result is left as the fill made it', wh, 'result becomes %s' % show(fin)[:100], 'result-after')


def fill_outcome(c, F, lab, tris, fr, q, el, ip, c0, r0, v0, b, proto, early):
    """one outcome of taking t from the work list; true if missing neighbors are scheduled"""
    m, wh = F.m, F.where
    if any(x[0] == 'loop' for x in b.events):
        c.und('edges of a triangle', wh, lab + ': an inner loop does not resolve')
        return False
    w, r1 = b.mem.get(q), b.mem.get(F.res)
    if not (w and w[0] == 'V' and w[1] == c0[1] and r1 and r1[0] == 'V' and r1[1] == r0[1] and r1[2][:len(r0[2])] == r0[2]):
        c.und('work list after a step', wh, '%s: %s / %s' % (lab, show(w)[:60], show(r1)[:60]))
        return False
    added = [nm(x) for x in r1[2][len(r0[2]):]]
    pushed, back = [], []
    for x in w[2]:
        ls = list(leaves(x))
        pushed.append('-' if ls[ip] == m.INV else nm(ls[ip]))
        if len(ls) == 2:
            back.append((ls[ip], ls[1 - ip]))
    inv = '-' in pushed
    pushed = [x for x in pushed if x != '-']
    if None in added or None in pushed:
        c.und('triangles handled in a step', wh, '%s: adds %s, schedules %s' % (lab, added, pushed))
        return inv
    v1 = {n: m.elem(F.e, b, n) for n in tris}
    pre = {n: F.flag(b, v0[n]) for n in tris}
    post = {n: F.flag(b, v1[n]) for n in tris}
    for n in tris:
        if v1[n] == v0[n]:
            continue
        same = all(x == y for i, (x, y) in enumerate(zip(v0[n][2], v1[n][2])) if i != F.fi)
        c.expect(same, 'the fill changes nothing in the mesh', wh, '%s: triangle %s changes' % (lab, n), 'mesh-changed')
    strange = set(pushed) - {'n0', 'n1', 'n2'}
    c.expect(not strange, 'only neighbors of a result triangle are visited', wh, '%s: schedules %s' % (lab, strange), 'not-a-neighbor')
    for a, f in back:
        c.expect(f == m.INV or nm(f) == 't' or post.get(nm(f)) == 1, 'a scheduled triangle remembers where it was reached from', wh, '%s: remembers %s' % (lab, show(f)), 'from')
    if proto == 'pop':
        if not added:
            c.expect(pre['t'] == 1, 'every visited triangle is added to the result', wh, lab + ': a triangle not collected before is dropped', 'dropped')
        else:
            c.expect(added == ['t'], 'each visited triangle is added once, and nothing else', wh, '%s: adds %s' % (lab, added), 'added')
            c.expect(pre['t'] == 0, 'a triangle is added at most once', wh, lab + ': added although it may have been collected before', 'twice')
            c.expect(post['t'] == 1, 'an added triangle is flagged as collected', wh, lab + ': not flagged', 'flag')
        if [n for n in tris if n != 't' and v1[n][2][F.fi] != v0[n][2][F.fi]]:
            c.bad('only added triangles are flagged', wh, lab + ': a neighbor is flagged without being added', 'flag-other')
        need = bool(added)
    else:
        c.expect(added == ([] if early else ['t']) + (pushed if early else []) or early and sorted(added) == sorted(pushed), 'each visited triangle is added once, and nothing else', wh,
                 '%s: adds %s' % (lab, added), 'added')
        for n in tris:
            if n == 't':
                continue
            if v1[n][2][F.fi] != v0[n][2][F.fi] or n in pushed:
                c.expect(n in pushed and pushed.count(n) == 1 and pre[n] == 0 and post[n] == 1, 'a triangle is flagged when and only when it is scheduled, once', wh,
                         '%s: triangle %s flagged %s, scheduled %d times' % (lab, n, post[n], pushed.count(n)), 'flag')
        need = True
    for k in range(3):
        n = tris['t'][1][k]
        if not n:
            continue
        ix = tris[n][1].index('t')
        for fs, (x, y) in m.query(b.facts, [('is_constrained', v0['t'], k), ('is_constrained', v0[n], ix)]):
            if n in pushed:
                c.expect(not (x and y), 'a constrained edge is never crossed', wh, '%s: the neighbor across constrained edge %d is visited' % (lab, k), 'crossed')
            elif need and not (x or y):
                done = n == fr or pre[n] == 1
                c.expect(done, 'every unconstrained edge of a result triangle is crossed', wh, '%s: the neighbor across unconstrained edge %d is not visited' % (lab, k), 'not-crossed')
    return inv


def start_search(c, p):
    """finalize_polygon on chains of triangles about the first point of the front"""
    m = Mesh(p)
    f = find_fn(p, 'finalize_polygon', ['&mut sweeper::Sweeper'])
    fill = find_fn(p, 'clean_mesh', ['&mut sweeper::Sweeper', TI])
    wh = where(f['span'], f['path'])
    c.count('functions_analysed', 2)
    runs = 0
    fronts = [(n,) for n in range(1, 5)] + [(a, b) for a in range(1, 4) for b in range(1, 4)] + [(1, 1, 1), (2, 1, 2), (1,) * 9]
    for ns in fronts:
        for base in range(3):
            r = one_front(c, p, m, f, fill, wh, ns, base)
            if r is None:
                return
            runs += r
    c.count('start_search_outcomes', runs)
    if not runs:
        c.und('start triangle', wh, 'no outcome')
    # the fill is asked for nowhere else
    allowed = dominated(p, [f['path']]) | {f['path']}
    for i, b in sorted(p.bodies.items()):
        if b['crate'] != 'poly2tri_rs':
            continue
        for _, cal, t, bl in call_sites(p, b):
            if callee_path(cal) == fill['path']:
                c.expect(owner(b['path']) in allowed, 'the result is collected once, by the extraction', where(bl['sp'], b['path']), 'the fill is also started by %s' % b['path'], 'fill-caller')


def one_front(c, p, m, f, fill, wh, ns, base):
    """a front of head, nodes P0.. and tail; ns[j] triangles about Pj, clockwise from the front, then nothing"""
    tris, names = {}, []
    for j, n in enumerate(ns):
        row = ['t%d_%d' % (j, i) for i in range(n)]
        names.append(row)
        for i, x in enumerate(row):
            r = (base + i + j) % 3
            # corners: the point, the clockwise next spoke, the counter-clockwise one; the edge to the previous triangle is the latter
            cs = ('P%d' % j, 'q%d_%d' % (j, i + 1), 'q%d_%d' % (j, i))
            nxt = row[i + 1] if i + 1 < n else None
            prv = row[i - 1] if i else None
            # neighbor k is across the edge opposite to corner k
            tris[x] = (rot_(cs, r), rot_(('o' + x, prv, nxt), r))
    mem, facts = m.setup(tris, ('H', 'Z'))
    sw = sweeper_val(m, p, m.vec, mem)
    e = Engine(p, max_states=20000)
    e.force_unroll = 16
    front_nodes(p, m, mem, [('H', None)] + [('P%d' % j, row[0]) for j, row in enumerate(names)] + [('Z', None)])
    e.hooks[fill['path']] = lambda ctx: (ctx.st.ev('fill', nm(ctx.args[1]) or show(ctx.args[1]), ctx.where()), some(UNIT))[1]
    args, am = e.sym_args(f['body'], ['sw'])
    mem.update(am)
    args[0] = sw
    v0 = {x: mem[('E', m.vec, S('T:' + x))] for x in tris}
    flat = [x for row in names for x in row]
    near = {x: tris[x][0].index('q%s_%d' % (x[1:].split('_')[0], int(x.split('_')[1]) + 1)) for x in flat}
    k = 0
    for o in e.run(f['body'], args, mem, facts):
        if any(x[0] == 'loop' for x in o.events):
            c.und('start triangle', wh, 'the search loop does not resolve')
            return None
        k += 1
        got = [x[1] for x in o.events if x[0] == 'fill']
        c.expect(len(got) <= 1, 'the result is collected once, by the extraction', wh, '%d fills' % len(got), 'fills')
        lab = 'front nodes with %s triangles, placement %d' % (', '.join(map(str, ns)), base)
        # the marks decided on this path; a path may leave open only those after the start
        known = []
        for x in flat:
            if x in got:
                known.append(x)
                break
            known.append(x)
        for fs, ans in m.query(o.facts, [('is_constrained', v0[x], near[x]) for x in known]):
            want = [x for x, a in zip(known, ans) if a][:1]
            c.expect(got == want, 'the fill starts at the first triangle behind a constrained edge, clockwise from the front, at the first front point that has one', wh,
                     '%s, constrained %s: starts at %s' % (lab, ''.join(map(str, ans)), got or 'no triangle'), 'start')
    return k


def front_nodes(p, m, mem, nodes):
    """a front with exactly these nodes: (point, triangle)"""
    AFT, vi, el, F = entry_fields(p)
    vec = ('VB', S('nodes'))

    def build(t, path, pt, tri):
        if path == F['tri']:
            return m.id(tri)
        if path == F['pid']:
            return m.pt(pt)
        if path == F['key']:
            return T('pos', S('P:' + pt))
        return ('a', 0, tuple(build(x, path + (i,), pt, tri) for i, x in enumerate(p.fields(t))))
    mem[vec] = ('V', None, tuple(build(el, (), pt, tri) for pt, tri in nodes))
    for o, v in list(mem.items()):
        if v == S('sw.advancing_front'):
            mem[o] = ('a', 0, tuple(('v', vec) if i == vi else S('front.%d' % i) for i, t in enumerate(p.fields(AFT))))


# -- who else writes
def writers(c, p):
    F = Fill(p)
    mine = {owner(x) for x in F.e.fnseen} | {F.f['path']}
    n = 0
    for i, b in sorted(p.bodies.items()):
        if b['crate'] != 'poly2tri_rs':
            continue
        for bl in b['blocks']:
            if bl['cl']:
                continue
            for s in bl['s']:
                if s[0] != '=':
                    continue
                wh = where(s[-1], b['path'])
                r = s[2]
                if is_field(p, b, s[1], F.m.tri, F.fi):
                    n += 1
                    v = const_bool(r)
                    c.expect(v is False or owner(b['path']) in mine, 'only the fill flags triangles as collected', wh, 'the flag is set in %s' % b['path'], 'flag-writer ' + owner(b['path']))
                if r[0] == 'ref' and r[1] and is_field(p, b, r[2], F.m.tri, F.fi) and owner(b['path']) not in mine:
                    c.und('only the fill flags triangles as collected', wh, 'the flag is borrowed for writing')
                if r[0] == 'agg' and isinstance(r[2], int) and r[2] == F.m.tri:
                    n += 1
                    v = const_bool(('use', r[4][F.fi]))
                    if v is None and r[4][F.fi][0] in ('copy', 'move'):
                        pl = r[4][F.fi][1]
                        v = False if is_field(p, b, pl, F.m.tri, F.fi) else None
                    if v is None:
                        c.und('new triangles are not flagged as collected', wh, 'flag of a new triangle')
                    else:
                        c.expect(v is False, 'new triangles are not flagged as collected', wh, 'a triangle is made with the flag set', 'flag-new')
                if is_field(p, b, s[1], F.sw, F.rk) and owner(b['path']) not in mine:
                    c.bad('the result list is changed only by the fill', wh, 'the list is replaced in %s' % b['path'], 'result-writer ' + owner(b['path']))
                if r[0] == 'ref' and r[1] and is_field(p, b, r[2], F.sw, F.rk) and owner(b['path']) not in mine:
                    n += 1
                    use = uses_of(b, s[1][0])
                    for k in use or [None]:
                        if k in KEEP or k in ('reserve', 'reserve_exact', 'shrink_to_fit', 'shrink_to'):
                            c.ok('the result list is changed only by the fill', wh)
                        elif k in GROW or k in DROP:
                            c.bad('the result list is changed only by the fill', wh, '%s on the result list in %s' % (k, b['path']), 'result-writer ' + owner(b['path']))
                        else:
                            c.und('the result list is changed only by the fill', wh, 'borrowed for writing, used by %s' % k)
    c.count('writer_sites', n)
    # whole sweeper values are made with an empty list
    f = find_fn(p, 'new', near='sweeper::Sweeper')
    e = Engine(p)
    args, mem = e.sym_args(f['body'], ['a%d' % i for i in range(f['body']['argc'])])
    for o in e.run(f['body'], args, mem):
        v = o.ret
        if v[0] != 'a' or v[2][F.rk][0] != 'v':
            c.und('the result list starts empty', where(f['span'], f['path']), show(v)[:80])
            continue
        x = e.load_obj(o, v[2][F.rk][1])
        c.expect(x[0] == 'V' and x[1] is None and not x[2], 'the result list starts empty', where(f['span'], f['path']), show(x)[:80], 'result-start')


def is_field(p, b, pl, ty, k):
    """the place is field k of a value of type ty"""
    if not pl[1] or pl[1][-1][0] != 'f' or pl[1][-1][1] != k:
        return False
    return assigned_type(p, b, [pl[0], pl[1][:-1]]) == ty


def const_bool(r):
    if r[0] == 'use' and r[1][0] == 'const':
        c = r[1][1]
        if c.get('c') == 'int':
            return bool(int(c['v']))
    return None


def uses_of(b, l):
    out = []
    for bl in b['blocks']:
        t = bl['t']
        if t[0] == 'call' and any(a[0] in ('copy', 'move') and a[1][0] == l for a in t[2]):
            out.append((callee_path(t[1]) or '').split('::')[-1])
    return out


def handed_out(c, p):
    """the triangulation carries the collected list unchanged"""
    rk, res = result_field(p)
    sw = p.adt('sweeper::Sweeper')

    def extract(e):
        def h(ctx):
            st = ctx.st
            v = unref(st, e, ctx.args[0])
            if v[0] != 'a' or v[2][rk][0] != 'v':
                raise Undecided('result list of the run')
            o = v[2][rk][1]
            was = e.load_obj(st, o)
            st.ev('extract', was)
            e.set_vec(st, o, ('V', S('collected'), ()))
            return e.fresh(st, 'any')
        return h
    f, e, args, outs, wh = run_events(p, extract)
    c.count('functions_analysed', len(e.fnseen))
    n = 0
    for o in outs:
        ex = [x for x in o.events if x[0] == 'extract']
        c.expect(len(ex) == 1, 'the result is collected once, by the extraction', wh, '%d extractions' % len(ex), 'fills')
        for x in ex:
            c.expect(x[1] == ('V', None, ()), 'the result list is empty when the extraction starts', wh, show(x[1])[:80], 'result-start')
        if o.ret[0] != 'a':
            c.und('the collected triangles are handed out', wh, 'result not built here')
            continue
        got = []
        for i, t in enumerate(p.fields(f['body']['locals'][0])):
            ty = p.types[t]
            if ty['k'] == 'adt' and ty['path'] == 'std::vec::Vec' and ty['args'][0] == p.adt(TI):
                v = o.ret[2][i]
                got.append(e.load_obj(o, v[1]) if v[0] == 'v' else v)
        if len(got) != 1:
            c.und('the collected triangles are handed out', wh, '%d lists of triangles' % len(got))
            continue
        g = got[0]
        n += 1
        okay = g == ('V', S('collected'), ()) or (g[0] == 'V' and not g[2] and g[1][0] == 't' and g[1][1] == 'sorted' and g[1][4] == S('collected'))
        if not okay and any(x[0] == 'loop' for x in o.events):
            c.und('the collected triangles are handed out', wh, 'copied in a loop')
            continue
        c.expect(okay, 'the collected triangles are handed out, all of them and nothing else', wh, 'handed out: %s' % show(g)[:100], 'handed-out')
    c.count('handed_out', n)


CHECKS = {'C14': c14}
