"""Call-graph and type-graph queries over the exported program."""
import re
from collections import defaultdict


def call_sites(p, body):
    """(block, callee, terminator) of a body, unwinding blocks excluded"""
    for n, bl in enumerate(body['blocks']):
        if bl['cl']:
            continue
        t = bl['t']
        if t[0] == 'call':
            yield n, t[1], t, bl


def callee_path(cal):
    return cal.get('rpath') or cal.get('path')


def closure_bodies(p, body):
    """closures built in a body (they may be called from anywhere they are passed to)"""
    out = set()
    for l in body['locals']:
        t = p.types[l]
        if t['k'] == 'closure' and t.get('body') is not None:
            out.add(t['body'])
    return out


def edges(p):
    """body id -> set of body ids it may call, including through std adaptors and closures"""
    if getattr(p, '_edges', None) is not None:
        return p._edges
    g = defaultdict(set)
    # virtual / unresolved calls of a trait method go to every local implementation
    impls = defaultdict(set)
    for f in p.fns:
        if f.get('trait') and f.get('body'):
            impls[(f['trait'], f.get('name') or f['path'].split('::')[-1])].add(f['id'])
    # functions whose address is taken, by the type of the pointer
    sig = lambda ty: re.sub(r"for<[^>]*> |'[a-z_]+ ", '', p.types[ty]['s']).replace("<'_>", '')
    sig = lambda ty, sig=sig: re.sub(r"<'[a-z_]+>", '', sig(ty))
    taken = defaultdict(set)
    for i, b in p.bodies.items():
        if b['crate'] != 'poly2tri_rs':
            continue
        for bl in b['blocks']:
            for s in bl['s']:
                if s[0] == '=' and s[2][0] == 'cast' and 'ReifyFnPointer' in str(s[2][1]) and s[2][2][0] == 'const':
                    inst = (s[2][2][1].get('fn') or {}).get('inst')
                    if inst is not None and inst in p.bodies and p.types[s[2][3]]['k'] == 'fnptr':
                        taken[sig(s[2][3])].add(inst)
    for i, b in p.bodies.items():
        for n, cal, t, bl in call_sites(p, b):
            inst = cal.get('inst')
            if inst is not None and inst in p.bodies:
                g[i].add(inst)
            if cal.get('kind') == 'ptr' and taken and b['crate'] == 'poly2tri_rs':
                op = t[6] if len(t) > 6 else None
                if op and op[0] in ('move', 'copy') and not op[1][1] and p.types[b['locals'][op[1][0]]]['k'] == 'fnptr':
                    g[i] |= taken.get(sig(b['locals'][op[1][0]]), set())
                else:
                    for x in taken.values():
                        g[i] |= {y for y in x if p.bodies[y].get('argc', len(t[5])) == len(t[5])}
            if cal.get('kind') in ('virtual', 'unresolved') and cal.get('trait'):
                for x in impls.get((cal['trait'], cal['path'].split('::')[-1]), ()):
                    g[i].add(x)
        for c in closure_bodies(p, b):
            if c in p.bodies and c != i:
                g[i].add(c)
    p._edges = g
    return g


def reach(p, roots):
    g = edges(p)
    seen, st = set(), list(roots)
    while st:
        x = st.pop()
        if x in seen or x not in p.bodies:
            continue
        seen.add(x)
        st.extend(g[x])
    return seen


def sccs(g, nodes):
    idx, low, on, st, out = {}, {}, set(), [], []
    c = [0]
    for r in nodes:
        if r in idx:
            continue
        work = [(r, iter(g[r]))]
        idx[r] = low[r] = c[0]
        c[0] += 1
        st.append(r)
        on.add(r)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = c[0]
                    c[0] += 1
                    st.append(w)
                    on.add(w)
                    work.append((w, iter(g[w])))
                    break
                elif w in on:
                    low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    comp = []
                    while True:
                        w = st.pop()
                        on.discard(w)
                        comp.append(w)
                        if w == v:
                            break
                    if len(comp) > 1 or v in g[v]:
                        out.append(comp)
    return out


PURE_PTR = ('std::vec::Vec', 'std::option::Option', 'std::result::Result', 'std::boxed::Box', 'std::string::String', 'std::marker::PhantomData',
            'std::ops::Range', 'std::collections::VecDeque', 'std::collections::BTreeMap', 'std::collections::HashMap', 'std::collections::HashSet',
            'std::collections::BTreeSet', 'std::cmp::Ordering', 'std::cmp::Reverse', 'std::num::NonZero')
INTERIOR = ('std::cell::', 'std::sync::', 'std::rc::')


def type_closure(p, ti, seen=None):
    """all types reachable through fields, elements, type arguments and pointers"""
    seen = {} if seen is None else seen
    work = [(ti, (p.ty_s(ti),))]
    while work:
        i, path = work.pop()
        if i in seen or i is None or i < 0:
            continue
        seen[i] = path
        t = p.types[i]
        k = t['k']
        nxt = []
        if k == 'adt':
            for v in t.get('variants') or []:
                for f in v['fields']:
                    nxt.append((f['ty'], f['name']))
            for a in t.get('args') or []:
                if isinstance(a, int):
                    nxt.append((a, 'arg'))
        elif k in ('ref', 'ptr', 'array', 'slice'):
            nxt.append((t['elem'], '*'))
        elif k == 'tuple':
            nxt += [(e, '.') for e in t['elems']]
        elif k == 'closure':
            nxt += [(e, 'upvar') for e in t['upvars']]
        for x, nm in nxt:
            work.append((x, path + (str(nm),)))
    return seen


def local_fns(p):
    return [f for f in p.fns if f.get('body')]
