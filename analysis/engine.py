"""Abstract interpreter over exported MIR.

A powerset ("disjunctive") dataflow analysis: abstract states are propagated block by
block through the control-flow graph, calls are analysed in their calling context, loops
are either unrolled (when the abstract state decides the exit test) or widened to a
fixpoint.  Values are provenance terms over a finite set of symbols, facts are equality /
order masks and enum-variant facts.  No program input is ever chosen, no code is run, and
no solver is called; what the domain cannot decide is split into its (finitely many)
abstract alternatives.
"""
import json, sys, re, os
from collections import defaultdict

sys.setrecursionlimit(20000)


class Undecided(Exception):
    """the abstract domain cannot follow this construct"""


class Budget(Undecided):
    pass


# ------------------------------------------------------------------ program
class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d['types']
        self.fns = d['fns']
        self.items = d['items']
        self.names = d['names']
        self.bodies = {int(k): v for k, v in d['bodies'].items()}
        for i, b in self.bodies.items():
            b['id'] = i
            b['iname'] = self.names[i]
        self.by_path = defaultdict(list)
        self.fn_by_path = {}
        for f in self.fns:
            self.fn_by_path[f['path']] = f
            f['body'] = self.bodies.get(f['id'])
        for b in self.bodies.values():
            self.by_path[b['path']].append(b)
        self._loops = {}
        self.tyindex = {t['s']: i for i, t in enumerate(self.types)}

    def ty(self, i):
        return self.types[i]

    def ty_s(self, i):
        return self.types[i]['s'] if i is not None and i >= 0 else '?'

    def deref_ty(self, i):
        t = self.types[i]
        if t['k'] in ('ref', 'ptr'):
            return t['elem']
        if t['k'] == 'adt' and t['path'] == 'std::boxed::Box':
            return t['args'][0]
        return None

    def fields(self, i, var=0):
        t = self.types[i]
        if t['k'] == 'adt':
            vs = t.get('variants')
            if vs is None:
                return None
            if var < len(vs):
                return [f['ty'] for f in vs[var]['fields']]
            return []
        if t['k'] == 'tuple':
            return t['elems']
        if t['k'] == 'closure':
            return t['upvars']
        if t['k'] == 'array' and t['len'] is not None:
            return [t['elem']] * t['len']
        return None

    def field_index(self, ti, name, var=0):
        for n, f in enumerate(self.types[ti]['variants'][var]['fields']):
            if f['name'] == name:
                return n
        return None

    def adt(self, path):
        for i, t in enumerate(self.types):
            if t['k'] == 'adt' and t['path'] == path:
                return i
        return None

    def adts(self, path):
        return [i for i, t in enumerate(self.types) if t['k'] == 'adt' and t['path'] == path]

    # generic local function bodies
    def fn(self, path):
        f = self.fn_by_path.get(path)
        return f and f['body']

    def find_fns(self, pred):
        return [f for f in self.fns if pred(f)]

    # -------------------------------------------------------------- cfg
    def succs(self, body, b):
        t = body['blocks'][b]['t']
        k = t[0]
        if k == 'goto':
            return [t[1]]
        if k == 'switch':
            return [x[1] for x in t[2]] + [t[3]]
        if k in ('drop',):
            return [t[2]]
        if k == 'call':
            return [t[4]] if t[4] is not None else []
        if k == 'assert':
            return [t[3]]
        return []

    def loops(self, body):
        """natural loops: head -> (set of blocks, primary exit block or None)"""
        key = body['id']
        if key in self._loops:
            return self._loops[key]
        n = len(body['blocks'])
        succ = {b: self.succs(body, b) for b in range(n)}
        # reachable, rpo
        order, seen = [], set()
        st = [(0, iter(succ[0]))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(succ[s])))
                    break
            else:
                order.append(b)
                st.pop()
        rpo = order[::-1]
        idx = {b: i for i, b in enumerate(rpo)}
        preds = defaultdict(list)
        for b in rpo:
            for s in succ[b]:
                preds[s].append(b)
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while idx[x] > idx[y]:
                                    x = idom[x]
                                while idx[y] > idx[x]:
                                    y = idom[y]
                            new = x
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]
        loops = {}
        latches = defaultdict(list)
        for b in rpo:
            for s in succ[b]:
                if dom(s, b):
                    body_set = {s}
                    stack = [b]
                    while stack:
                        x = stack.pop()
                        if x in body_set:
                            continue
                        body_set.add(x)
                        stack.extend(preds[x])
                    loops.setdefault(s, set()).update(body_set)
                    latches[s].append(b)
        # blocks that can only panic/diverge do not count as exits
        canret = set()
        for b in rpo:
            if body['blocks'][b]['t'][0] == 'return':
                canret.add(b)
        ch = True
        while ch:
            ch = False
            for b in rpo:
                if b not in canret and any(s in canret for s in succ[b]):
                    canret.add(b)
                    ch = True
        res = {}
        for h, bs in loops.items():
            prim = None
            for b in rpo:
                if b in bs and all(dom(b, l) for l in latches[h]):
                    if any(s not in bs and s in canret for s in succ[b]):
                        prim = b
                        break
            res[h] = (frozenset(bs), prim)
        info = (res, dom)
        self._loops[key] = info
        return info


# ------------------------------------------------------------------ values
def I(n):
    return ('i', n)


TRUE, FALSE = ('i', 1), ('i', 0)
UNIT = ('a', 0, ())


def S(name):
    return ('s', name)


def T(op, *args):
    return ('t', op) + args


def agg(*fields):
    return ('a', 0, tuple(fields))


def enum(variant, *fields):
    return ('a', variant, tuple(fields))


NONE = ('a', 0, ())


def some(x):
    return ('a', 1, (x,))


def is_term(v):
    return v[0] in ('s', 't', 'lin')


def show(v, depth=0):
    if not isinstance(v, tuple):
        return str(v)
    if not v:
        return '()'
    k = v[0]
    if k == 'i':
        return str(v[1])
    if k == 'fl':
        return repr(v[1])
    if k == 's':
        return str(v[1])
    if k == 'a':
        return '{%s%s}' % ('#%d ' % v[1] if v[1] else '', ', '.join(show(x, depth + 1) for x in v[2]))
    if k == 'lin':
        return '(' + '+'.join(('%s*' % c if c != 1 else '') + show(t) for t, c in v[1]) + ('%+d' % v[2] if v[2] else '') + ')'
    if k == 'r':
        return '&%s%s' % (showobj(v[1]), ''.join('.%s' % (p[2] if p[0] == 'f' else '[]') for p in v[2]))
    if k == 't':
        if v[1] == 'fld':
            return '%s.%s%s' % (show(v[2], depth + 1), ('%d:' % v[3]) if v[3] else '', v[4])
        if v[1] == 'elem':
            return '%s[%s]' % (show(v[2], depth + 1), show(v[3], depth + 1))
        return '%s(%s)' % (v[1], ', '.join(show(x, depth + 1) if isinstance(x, tuple) else str(x) for x in v[2:]))
    if k == 'bv':
        return 'bits[%s]' % ','.join(show(b) if isinstance(b, tuple) else str(b) for b in v[1])
    if k == 'v':
        return 'vec:%s' % showobj(v[1])
    return str(v)


def showobj(o):
    if isinstance(o, tuple):
        return ':'.join(show(x) if isinstance(x, tuple) and x and x[0] in ('s', 't', 'i', 'lin') else (showobj(x) if isinstance(x, tuple) else str(x)) for x in o)
    return str(o)


# linear integer terms -------------------------------------------------------
def lin_parts(v):
    if v[0] == 'i':
        return {}, v[1]
    if v[0] == 'lin':
        return dict(v[1]), v[2]
    return {v: 1}, 0


def lin_make(d, c):
    d = {k: x for k, x in d.items() if x}
    if not d:
        return ('i', c)
    if c == 0 and len(d) == 1:
        (k, x), = d.items()
        if x == 1:
            return k
    return ('lin', tuple(sorted(d.items(), key=repr)), c)


def lin_add(a, b, sb=1):
    da, ca = lin_parts(a)
    db, cb = lin_parts(b)
    d = dict(da)
    for k, x in db.items():
        d[k] = d.get(k, 0) + sb * x
    return lin_make(d, ca + sb * cb)


LT, EQ, GT = 1, 2, 4
FLIP = {1: 4, 2: 2, 4: 1, 3: 6, 6: 3, 5: 5, 7: 7, 0: 0}


def sign_of(d):
    """possible signs of a linear term whose atoms are unsigned"""
    ps, c = lin_parts(d)
    if all(x > 0 for x in ps.values()):
        if c > 0:
            return GT
        if c == 0:
            return GT | EQ
    if all(x < 0 for x in ps.values()):
        if c < 0:
            return LT
        if c == 0:
            return LT | EQ
    return 7


class Facts:
    """order/equality masks between terms, enum variants, boolean facts"""
    __slots__ = ('rel', 'var', 'b', 'uf', 'log')

    def __init__(self):
        self.rel = {}
        self.var = {}
        self.b = {}
        self.uf = {}
        self.log = ()

    def copy(self):
        f = Facts()
        f.rel = dict(self.rel)
        f.var = dict(self.var)
        f.b = dict(self.b)
        f.uf = dict(self.uf)
        f.log = self.log
        return f

    def key(self):
        return (frozenset(self.rel.items()), frozenset(self.var.items()), frozenset(self.b.items()), frozenset(self.uf.items()))

    def find(self, t):
        uf = self.uf
        if not uf:
            return t
        seen = 0
        while t in uf:
            t = uf[t]
            seen += 1
            if seen > 100:
                raise Undecided('uf cycle')
        # rewrite below
        if t[0] == 't':
            n = tuple(self.find(x) if isinstance(x, tuple) and x and x[0] in ('s', 't', 'lin') else x for x in t)
            if n != t:
                return self.find(n)
        elif t[0] == 'lin':
            d, c = {}, t[2]
            for k, x in t[1]:
                k2 = self.find(k)
                kd, kc = lin_parts(k2)
                for kk, xx in kd.items():
                    d[kk] = d.get(kk, 0) + x * xx
                c += x * kc
            n = lin_make(d, c)
            if n != t:
                return self.find(n)
        return t

    def mask(self, a, b, eng=None):
        """possible orderings of a relative to b"""
        a, b = self.find(a), self.find(b)
        if a == b:
            return EQ
        if a[0] == 'i' and b[0] == 'i':
            return LT if a[1] < b[1] else GT
        if a[0] == 'fl' and b[0] == 'fl':
            return LT if a[1] < b[1] else (EQ if a[1] == b[1] else GT)
        # linear difference
        if a[0] in ('lin', 'i') or b[0] in ('lin', 'i'):
            if a[0] != 'fl' and b[0] != 'fl':
                d = lin_add(a, b, -1)
                if d[0] == 'i':
                    return LT if d[1] < 0 else (EQ if d[1] == 0 else GT)
                sg = sign_of(d)
                if sg in (1, 2, 4):
                    return sg
                m = self._mask2(a, b, eng) & sg or sg
                if m not in (1, 2, 4):
                    m = m & self._moved(a, b, d, eng) or m
                return m
        return self._mask2(a, b, eng)

    def _moved(self, a, b, d, eng):
        """ordering of a and b from the ordering of the two atoms of their difference x - y + c"""
        ps, c = lin_parts(d)
        if sorted(ps.values()) != [-1, 1]:
            return 7
        for t in (a, b):                    # a difference that may have wrapped says nothing
            pt, k = lin_parts(t)
            if k < 0 or any(v < 0 for v in pt.values()):
                neg = [q for q, v in pt.items() if v < 0]
                pos = [q for q, v in pt.items() if v > 0]
                if k < 0 or len(neg) != 1 or len(pos) != 1 or {pt[neg[0]], pt[pos[0]]} != {1, -1}:
                    return 7
                if self._mask2(pos[0], neg[0], eng) & LT:
                    return 7
        x, = [q for q, v in ps.items() if v == 1]
        y, = [q for q, v in ps.items() if v == -1]
        m = self._mask2(x, y, eng)
        r = 0
        if m & LT:                          # x - y <= -1
            r |= (LT if c <= 0 else LT | EQ if c == 1 else 7)
        if m & EQ:
            r |= LT if c < 0 else EQ if c == 0 else GT
        if m & GT:
            r |= (GT if c >= 0 else EQ | GT if c == -1 else 7)
        return r

    def _mask2(self, a, b, eng):
        m = self.rel.get((a, b))
        if m is None:
            m2 = self.rel.get((b, a))
            m = FLIP[m2] if m2 is not None else 7
        if m not in (1, 2, 4):
            m &= self._closure(a, b)
            if m == 0:
                m = 7
            if eng is not None and eng.known_rel is not None and m not in (1, 2, 4):
                k = eng.known_rel(a, b, self)
                if k is not None and m & k:
                    m &= k
            # non negative integers
        return m

    def _closure(self, a, b):
        # transitive < / <= through known relations (with integer offsets ignored)
        if not self.rel:
            return 7
        res = 7
        for (src, dst, flip) in ((a, b, False), (b, a, True)):
            # best[x] = strict? of path src -> x
            best = {src: False}
            work = [src]
            while work:
                x = work.pop()
                for (p, q), m in self.rel.items():
                    p, q = self.find(p), self.find(q)
                    for (u, v, mm) in ((p, q, m), (q, p, FLIP[m])):
                        if u == x and mm in (1, 3, 2):
                            st = best[x] or mm == 1
                            if v not in best or (st and not best[v]):
                                best[v] = st
                                work.append(v)
            if dst in best:
                r = 1 if best[dst] else 3
                res &= FLIP[r] if flip else r
        return res

    def assume(self, a, b, m):
        a, b = self.find(a), self.find(b)
        cur = self.mask(a, b)
        new = cur & m
        if new == 0:
            return False
        self.log = self.log + (('rel', a, b, new),)
        if new == EQ:
            # orient: constants win, then shorter terms
            if a[0] in ('i', 'fl'):
                a, b = b, a
            elif b[0] not in ('i', 'fl') and (len(repr(a)), repr(a)) < (len(repr(b)), repr(b)):
                a, b = b, a
            if a[0] == 'lin':
                # solve for one unit-coefficient symbol
                d, c = dict(a[1]), a[2]
                for k, x in a[1]:
                    if x in (1, -1) and not self._occurs(k, b):
                        rest = {kk: xx for kk, xx in d.items() if kk != k}
                        r = lin_make(rest, c)
                        # x*k + r = b  -> k = (b - r)*x
                        e = lin_add(b, r, -1)
                        if x == -1:
                            ed, ec = lin_parts(e)
                            e = lin_make({kk: -xx for kk, xx in ed.items()}, -ec)
                        self.uf[k] = e
                        return True
                self.rel[(a, b)] = EQ
                return True
            if self._occurs(a, b):
                self.rel[(a, b)] = EQ
                return True
            self.uf[a] = b
            return True
        self.rel.pop((b, a), None)
        self.rel[(a, b)] = new
        return True

    def _occurs(self, a, b):
        if a == b:
            return True
        if b[0] == 't':
            return any(isinstance(x, tuple) and x and self._occurs(a, x) for x in b[2:])
        if b[0] == 'lin':
            return any(self._occurs(a, k) for k, _ in b[1])
        return False


class Split(Exception):
    """re-execute the current step once per alternative (each a function facts->bool)"""

    def __init__(self, alts, why=None):
        self.alts = alts
        self.why = why


class Frame:
    __slots__ = ('body', 'bb', 'fid', 'dest', 'ret', 'loops', 'env')

    def __init__(self, body, fid, dest, ret):
        self.body = body
        self.bb = 0
        self.fid = fid
        self.dest = dest
        self.ret = ret
        self.loops = ()
        self.env = None

    def copy(self):
        f = Frame(self.body, self.fid, self.dest, self.ret)
        f.bb = self.bb
        f.loops = self.loops
        f.env = self.env
        return f


class State:
    __slots__ = ('frames', 'mem', 'facts', 'events', 'ret', 'panic', 'nfid', 'aux', 'pos')

    def __init__(self):
        self.frames = []
        self.mem = {}
        self.facts = Facts()
        self.events = ()
        self.ret = None
        self.panic = None
        self.nfid = 0
        self.aux = {}
        self.pos = 0

    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.facts = self.facts.copy()
        s.events = self.events
        s.ret = self.ret
        s.panic = self.panic
        s.nfid = self.nfid
        s.aux = dict(self.aux)
        s.pos = self.pos
        return s

    def key(self):
        try:
            return (tuple((f.body['id'], f.bb, f.fid) for f in self.frames), frozenset(self.mem.items()),
                    self.facts.key(), self.events, self.ret, self.panic, tuple(sorted(self.aux.items(), key=repr)))
        except TypeError:
            return None

    def ev(self, *e):
        self.events = self.events + (e,)


# sequence contents ----------------------------------------------------------
# ('V', base, tail): base None (empty) or a term; tail tuple of values
def vec_len(c):
    n = len(c[2])
    if c[1] is None:
        return I(n)
    return lin_add(base_len(c[1]), I(n))


def base_len(b):
    if b is None:
        return I(0)
    if b[0] == 't':
        k = b[1]
        if k == 'vecof':
            return lin_add(base_len(b[2]), I(len(b) - 3))
        if k == 'ins':
            return lin_add(base_len(b[2]), I(1))
        if k == 'rem':
            return lin_add(base_len(b[2]), I(-1))
        if k == 'vset':
            return base_len(b[2])
        if k == 'sorted':
            return base_len(b[4])
        if k == 'filled':
            return b[2]
        if k in ('resized', 'trunc'):
            return b[3]
        if k == 'concat':
            return lin_add(base_len(b[2]), base_len(b[3]))
        if k == 'rep' and b[4] is not None:
            n = vec_len(b[3])
            d, c = lin_parts(b[5])
            return lin_add(n, lin_make({t: x * b[4] for t, x in d.items()}, c * b[4]))
    return T('len', b)


class Engine:
    def __init__(self, prog, hooks=None, budget=400000, max_states=60000, known_rel=None, want_panics=False,
                 havoc_rec=True, max_unroll=40, virt=None):
        self.p = prog
        self.hooks = hooks or {}
        self.steps = 0
        self.budget = budget
        self.max_states = max_states
        self.nstates = 0
        self.known_rel = known_rel
        self.want_panics = want_panics
        self.unmodelled = set()
        self.max_unroll = max_unroll
        self.virt = virt
        self.panics = []
        self.loop_summ = {}
        self.lidc = {}
        self.force_unroll = 0
        self.max_front = 400
        self.unknown = None     # called for calls without body and model
        self.fnseen = set()
        self.blocks_seen = set()
        self.on_write = None
        self.on_unchecked = None
        self.on_agg = None
        self.on_push = None
        self.on_sort = None
        self.on_seqop = None
        self.on_call = None
        self.loopctr = 0
        self.peel = False
        self.nofork_panic = False
        from models import MODELS, model_for
        self.models = MODELS
        self.model_for = model_for

    # ---------------------------------------------------------- facts helpers
    def rel(self, st, a, b, want, why=None):
        """is the ordering of a,b within mask `want`? splits if unknown"""
        m = st.facts.mask(a, b, self)
        if m & want == m:
            return True
        if m & want == 0:
            return False
        raise Split([lambda f: f.assume(a, b, m & want), lambda f: f.assume(a, b, m & ~want & 7)], ('rel', a, b))

    def eq(self, st, a, b):
        return self.rel(st, a, b, EQ)

    def truth(self, st, t):
        """decide a boolean value; splits if unknown"""
        if t[0] == 'i':
            return bool(t[1])
        if t[0] == 't':
            if t[1] == 'not':
                return not self.truth(st, t[2])
            if t[1] in ('and', 'or', 'xor') and len(t) == 4:
                x = self.truth(st, t[2])
                if t[1] == 'and' and not x:
                    return False
                if t[1] == 'or' and x:
                    return True
                y = self.truth(st, t[3])
                return (x and y) if t[1] == 'and' else (x or y) if t[1] == 'or' else x != y
        if t[0] == 'bv':
            return self.truth(st, self.bv_ne0(st, t))
        c = st.facts.find(t)
        if c[0] == 'i':
            return bool(c[1])
        if c in st.facts.b:
            return st.facts.b[c]

        def setb(v):
            def g(f):
                f.b[c] = v
                f.log = f.log + (('b', c, v),)
                return True
            return g
        raise Split([setb(True), setb(False)], ('b', c))

    def variant(self, st, t, ty):
        """variant index of an enum value; splits if unknown"""
        if t[0] == 'a':
            return t[1]
        if not is_term(t):
            raise Undecided('variant of %s' % (t[0],))
        c = st.facts.find(t)
        if c[0] == 'a':
            return c[1]
        f = st.facts.var.get(c)
        if f is not None:
            return f
        tt = self.p.types[ty]
        if tt['k'] != 'adt' or 'variants' not in tt:
            raise Undecided('variants of opaque type %s' % tt['s'])
        n = len(tt['variants'])

        def setv(k):
            def g(f):
                f.var[c] = k
                f.log = f.log + (('var', c, k, tt['s']),)
                return True
            return g
        raise Split([setv(k) for k in range(n)], ('var', c))

    # ---------------------------------------------------------- memory
    def init_obj(self, st, obj):
        """lazily created content of symbolic objects"""
        if obj[0] == 'D':
            return T('deref', obj[1])
        if obj[0] == 'VB':
            return ('V', obj[1], ())
        raise Undecided('uninitialised object %s' % (showobj(obj),))

    def canon_obj(self, st, obj):
        if obj[0] == 'E':
            idx = st.facts.find(obj[2])
            if idx is not obj[2]:
                obj = ('E', obj[1], idx)
            sub = obj[1]
            if sub[0] == 'SL':
                return self.canon_obj(st, ('E', sub[1], lin_add(obj[2], sub[2])))
            # alias with other written elements of the same vector
            key = ('W', obj[1])
            written = st.mem.get(key)
            if written:
                for j in written:
                    jj = st.facts.find(j)
                    if jj == idx:
                        if j != idx:
                            return ('E', obj[1], j)
                        return obj
                for j in written:
                    if self.eq(st, idx, j):
                        return ('E', obj[1], j)
        return obj

    def load_obj(self, st, obj):
        obj = self.canon_obj(st, obj)
        v = st.mem.get(obj)
        if v is not None:
            return v
        if obj[0] == 'E':
            seq = self.load_obj(st, obj[1])
            return self.seq_get(st, seq, obj[2])
        v = self.init_obj(st, obj)
        st.mem[obj] = v
        return v

    def seq_get(self, st, seq, idx):
        if seq[0] == 'V':
            base, tail = seq[1], seq[2]
            if base is None:
                idx = st.facts.find(idx)
                if idx[0] == 'i':
                    if 0 <= idx[1] < len(tail):
                        return tail[idx[1]]
                    raise Undecided('index out of concrete range')
                for k in range(len(tail)):
                    if self.eq(st, idx, I(k)):
                        return tail[k]
                raise Undecided('index outside')
            bl = base_len(base)
            idx = st.facts.find(idx)
            for k in range(len(tail)):
                if self.eq(st, idx, lin_add(bl, I(k))):
                    return tail[k]
            return self.base_get(st, base, idx)
        if seq[0] == 'a':
            idx = st.facts.find(idx)
            if idx[0] == 'i':
                if 0 <= idx[1] < len(seq[2]):
                    return seq[2][idx[1]]
                raise Undecided('array index out of range')
            for k in range(len(seq[2])):
                if self.eq(st, idx, I(k)):
                    return seq[2][k]
            raise Undecided('array index')
        if is_term(seq):
            return T('elem', seq, st.facts.find(idx))
        raise Undecided('seq_get %s' % (seq[0],))

    def base_get(self, st, base, idx):
        # structured bases
        if base is None:
            raise Undecided('index outside')
        if base[0] == 't':
            k = base[1]
            if k == 'vset':
                if self.eq(st, idx, base[3]):
                    return base[4]
                return self.base_get(st, base[2], idx)
            if k == 'vecof':
                return self.seq_get(st, ('V', base[2], tuple(base[3:])), idx)
            if k == 'ins':
                if self.eq(st, idx, base[3]):
                    return base[4]
                if self.rel(st, idx, base[3], LT):
                    return self.base_get(st, base[2], idx)
                return self.base_get(st, base[2], lin_add(idx, I(-1)))
            if k == 'rem':
                if self.rel(st, idx, base[3], LT):
                    return self.base_get(st, base[2], idx)
                return self.base_get(st, base[2], lin_add(idx, I(1)))
            if k == 'filled':
                return base[3]
            if k == 'trunc':
                return self.base_get(st, base[2], idx)
        return T('elem', base, idx)

    # ---------------------------------------------------------- closures run inside a model
    def sub_call(self, st, ctx, cval, cty, args):
        """[(state, value)] of calling closure `cval` with explicit arguments"""
        t = self.p.types[cty]
        while t['k'] == 'ref':
            o, pj = self.as_ref(st, cval)
            cval = self.read(st, o, pj)
            cty = t['elem']
            t = self.p.types[cty]
        bid = t.get('body')
        if bid is None or bid not in self.p.bodies:
            raise Undecided('closure body of %s' % t['s'])
        body = self.p.bodies[bid]
        st = st.copy()
        saved = st.frames
        sret, spos = st.ret, st.pos
        fid = 'f%d' % st.nfid
        st.nfid += 1
        fr = Frame(body, fid, None, None)
        st.frames = [fr]
        st.pos = 0
        a0 = []
        if t['k'] == 'closure':
            if self.p.types[body['locals'][1]]['k'] == 'ref':
                o = ('H', fid)
                st.mem[o] = cval
                a0 = [('r', o, ())]
            else:
                a0 = [cval]
        al = a0 + list(args)
        if body['argc'] != len(al):
            raise Undecided('closure arguments')
        for i, a in enumerate(al):
            st.mem[('L', fid, i + 1)] = a
        outs = []
        for o in self.explore([st]):
            v = o.ret
            o.frames = [f.copy() for f in saved]
            o.ret, o.pos = sret, spos
            for kk in [x for x in o.mem if x[0] == 'L' and x[1] == fid]:
                del o.mem[kk]
            outs.append((o, v))
        return outs

    def assume_eq(self, st, a, b):
        """states (0 or 1) in which the two values are equal"""
        if a == b:
            return [st]
        if a[0] == 'a' or b[0] == 'a':
            if a[0] != 'a':
                a, b = b, a
            n = len(a[2])
            for i in range(n):
                y = self.proj_get(st, b, ('f', a[1], i, n))
                if not self.assume_eq(st, a[2][i], y):
                    return []
            return [st]
        if a[0] in ('i', 'fl') or is_term(a):
            if b[0] in ('i', 'fl') or is_term(b):
                return [st] if st.facts.assume(a, b, EQ) else []
        raise Undecided('assume_eq')

    def store_obj(self, st, obj, val):
        obj = self.canon_obj(st, obj)
        if obj[0] == 'E':
            seq = self.load_obj(st, obj[1])
            idx = st.facts.find(obj[2])
            if seq[0] == 'V':
                base, tail = seq[1], seq[2]
                if base is None:
                    if idx[0] != 'i':
                        for k in range(len(tail)):
                            if self.eq(st, idx, I(k)):
                                idx = I(k)
                                break
                    if idx[0] == 'i' and 0 <= idx[1] < len(tail):
                        t = list(tail)
                        t[idx[1]] = val
                        self.store_obj(st, obj[1], ('V', None, tuple(t)))
                        return
                    raise Undecided('store out of range')
                bl = base_len(base)
                for k in range(len(tail)):
                    if self.eq(st, idx, lin_add(bl, I(k))):
                        t = list(tail)
                        t[k] = val
                        self.store_obj(st, obj[1], ('V', base, tuple(t)))
                        return
                key = ('W', obj[1])
                w = st.mem.get(key, ())
                if idx not in w:
                    # resolve aliases against elements already written happened in canon_obj
                    st.mem[key] = w + (idx,)
                st.mem[('E', obj[1], idx)] = val
                return
            if seq[0] == 'a' and idx[0] == 'i':
                t = list(seq[2])
                t[idx[1]] = val
                self.store_obj(st, obj[1], ('a', seq[1], tuple(t)))
                return
            if is_term(seq):
                key = ('W', obj[1])
                w = st.mem.get(key, ())
                if idx not in w:
                    st.mem[key] = w + (idx,)
                st.mem[('E', obj[1], idx)] = val
                return
            raise Undecided('store elem')
        st.mem[obj] = val

    def proj_get(self, st, v, step):
        k = step[0]
        if k == 'f':
            _, var, i, n = step
            if v[0] == 'a':
                if i < len(v[2]):
                    return v[2][i]
                if v[1] != var:
                    raise Undecided('wrong variant read')
                raise Undecided('field out of range %s' % (show(v),))
            if is_term(v):
                c = v
                return T('fld', c, var, i)
            if v[0] == 'r' and i == 0:
                return v  # transparent wrappers around pointers
            if v[0] in ('i', 'fl', 'bv') and i == 0:
                return v  # scalar of a newtype
            if v[0] == 'z':
                return v
            raise Undecided('project %s' % (v[0],))
        if k == 'e':
            return self.seq_get(st, v, step[1])
        raise Undecided('proj %s' % k)

    def proj_set(self, st, v, steps, val):
        if not steps:
            return val
        step = steps[0]
        k = step[0]
        if k == 'f':
            _, var, i, n = step
            if v is None or v[0] == 'z':
                # uninitialised aggregate being built field by field
                fs = [('u',)] * (n or i + 1)
                fs[i] = self.proj_set(st, ('u',), steps[1:], val)
                return ('a', var, tuple(fs))
            if v[0] == 'u':
                fs = [('u',)] * (n or i + 1)
                fs[i] = self.proj_set(st, ('u',), steps[1:], val)
                return ('a', var, tuple(fs))
            if v[0] == 'a':
                fs = list(v[2])
                while len(fs) <= i:
                    fs.append(('u',))
                fs[i] = self.proj_set(st, fs[i], steps[1:], val)
                return ('a', v[1], tuple(fs))
            if is_term(v):
                if n is None:
                    raise Undecided('write into opaque value')
                fs = [T('fld', v, var, j) for j in range(n)]
                fs[i] = self.proj_set(st, fs[i], steps[1:], val)
                return ('a', var, tuple(fs))
            if v[0] in ('i', 'fl', 'bv') and (n == 1):
                return ('a', var, (self.proj_set(st, v, steps[1:], val),))
        raise Undecided('write through %s' % (k,))

    def read(self, st, obj, proj):
        v = self.load_obj(st, obj)
        for s in proj:
            v = self.proj_get(st, v, s)
        return v

    def write(self, st, obj, proj, val):
        if self.on_write is not None:
            self.on_write(st, obj, proj, val)
        if not proj:
            self.store_obj(st, obj, val)
            return
        try:
            v = self.load_obj(st, obj)
        except Undecided:
            v = ('u',)
        self.store_obj(st, obj, self.proj_set(st, v, proj, val))

    # ---------------------------------------------------------- places
    def as_ref(self, st, v):
        """turn a pointer value into (obj, proj)"""
        if v[0] == 'r':
            return v[1], v[2]
        if v[0] == 'a' and len(v[2]) >= 1:
            # Box / NonNull wrappers
            return self.as_ref(st, v[2][0])
        if is_term(v):
            v = st.facts.find(v)
            return ('D', v), ()
        raise Undecided('deref of %s' % show(v))

    def place(self, st, fr, pl):
        """returns obj, proj, type"""
        obj, proj = ('L', fr.fid, pl[0]), ()
        ty = fr.body['locals'][pl[0]]
        var = 0
        for e in pl[1]:
            k = e[0]
            if k == '*':
                v = self.read(st, obj, proj)
                obj, proj = self.as_ref(st, v)
                ty = self.p.deref_ty(ty)
                var = 0
            elif k == 'f':
                fs = self.p.fields(ty, var) if ty is not None else None
                n = len(fs) if fs is not None else None
                proj = proj + (('f', var, e[1], n),)
                ty = e[2]
                var = 0
            elif k == 'd':
                var = e[1]
            elif k in ('i', 'ci'):
                if k == 'i':
                    idx = self.read(st, ('L', fr.fid, e[1]), ())
                    idx = st.facts.find(idx) if is_term(idx) else idx
                else:
                    if e[3]:
                        raise Undecided('from_end index')
                    idx = I(e[1])
                tt = self.p.types[ty]
                if tt['k'] == 'array' and tt['len'] is not None and tt['len'] <= 16:
                    if idx[0] != 'i':
                        for j in range(tt['len']):
                            if j == tt['len'] - 1 and st.facts.mask(idx, I(tt['len']), self) == LT:
                                idx = I(j)
                                break
                            if self.eq(st, idx, I(j)):
                                idx = I(j)
                                break
                        else:
                            raise Undecided('array index')
                    proj = proj + (('f', 0, idx[1], tt['len']),)
                else:
                    obj, proj = self.elem_place(st, obj, proj, idx)
                ty = tt['elem']
                var = 0
            else:
                raise Undecided('projection %s' % k)
        return obj, proj, ty

    def elem_place(self, st, obj, proj, idx):
        """element idx of the sequence stored at obj.proj"""
        if not proj and obj[0] != 'SL':
            v = self.load_obj(st, obj)
            if v[0] == 'a':
                if idx[0] == 'i':
                    return obj, (('f', 0, idx[1], len(v[2])),)
                for k in range(len(v[2])):
                    if self.eq(st, idx, I(k)):
                        return obj, (('f', 0, k, len(v[2])),)
                raise Undecided('array index')
            return ('E', obj, idx), ()
        if obj[0] == 'SL' and not proj:
            o, p = obj[1], ()
            if isinstance(o, tuple) and o and o[0] in ('RP', 'RA'):
                i = lin_add(idx, obj[2])
                if o[0] == 'RA' and i[0] == 'i':
                    return o[1], o[2] + (('f', 0, i[1], None),)
                return self.elem_place(st, o[1], o[2], i)
            return self.elem_place(st, o, (), lin_add(idx, obj[2]))
        v = self.read(st, obj, proj)
        if v[0] == 'a':
            if idx[0] != 'i':
                for k in range(len(v[2])):
                    if self.eq(st, idx, I(k)):
                        idx = I(k)
                        break
                else:
                    raise Undecided('array index')
            return obj, proj + (('f', 0, idx[1], len(v[2])),)
        if v[0] == 'v':
            return ('E', v[1], idx), ()
        if is_term(v):
            if idx[0] == 'i':
                return obj, proj + (('f', 0, idx[1], None),)
            return ('E', ('D', T('ref', v)), idx), ()
        raise Undecided('element of %s' % v[0])

    # vectors held in values -------------------------------------------------
    def array_slice(self, st, ref, ty):
        """slice reference for a reference to an array whose content is a symbol"""
        t = self.p.types[ty]
        n = t.get('len') if t['k'] == 'array' else None
        if not isinstance(n, int) or n > 64:
            return ref
        try:
            obj, proj = self.as_ref(st, ref)
            if obj[0] == 'SL' and not proj or not is_term(self.read(st, obj, proj)):
                return ref
        except Undecided:
            return ref
        return ('r', ('SL', ('RA', obj, proj), I(0), I(n)), ())

    def vec_obj(self, st, v):
        """heap object of a Vec value (or of a slice reference)"""
        if v[0] == 'v':
            return v[1]
        if is_term(v):
            return ('VB', st.facts.find(v))
        if v[0] == 'a':
            raise Undecided('vec agg')
        raise Undecided('vec value %s' % v[0])

    def vec_at(self, st, ref):
        """heap object of the Vec a reference points to; materialises it"""
        obj, proj = self.as_ref(st, ref)
        v = self.read(st, obj, proj)
        if v[0] == 'V':
            return obj
        o = self.vec_obj(st, v)
        return o

    def new_vec(self, st, base=None, tail=()):
        n = st.nfid
        st.nfid += 1
        obj = ('H', n)
        st.mem[obj] = ('V', base, tuple(tail))
        return ('v', obj)

    def seq_of(self, st, ref):
        """(obj, content, start, len) for a slice reference value"""
        if ref[0] == 'r':
            obj, proj = ref[1], ref[2]
            if not proj:
                if obj[0] == 'SL':
                    return obj, None, obj[2], obj[3]
                c = self.load_obj(st, obj)
            else:
                c = self.read(st, obj, proj)
            if c[0] == 'V':
                return obj, c, I(0), vec_len(c)
            if c[0] == 'a':
                return obj, c, I(0), I(len(c[2]))
            if c[0] == 'v':
                c2 = self.load_obj(st, c[1])
                return c[1], c2, I(0), vec_len(c2)
            if is_term(c):
                return obj, c, I(0), T('len', c)
        if is_term(ref):
            c = T('deref', st.facts.find(ref))
            return ('D', st.facts.find(ref)), c, I(0), T('len', c)
        raise Undecided('slice %s' % show(ref))

    # ---------------------------------------------------------- operands
    def const(self, st, c):
        k = c['c']
        if k == 'int':
            if c['ty'] < 0:
                return I(int(c['v']))
            return self.scalar(int(c['v']), c['ty'])
        if k == 'zst':
            ti = c['ty']
            return self.zst(ti)
        if k == 'fn':
            return ('z',)
        if k == 'agg':
            return ('a', c['var'], tuple(self.const(st, f) for f in c['fields']))
        if k == 'promoted':
            return self.promoted(st, c)
        if k == 'str':
            return ('str', c['v'])
        if k == 'static':
            return S('static ' + c['name'])
        return S('const ' + str(c.get('name') or c.get('d') or 'opaque'))

    def zst(self, ti):
        t = self.p.types[ti]
        if t['k'] == 'tuple':
            return UNIT
        if t['k'] == 'adt' and t.get('variants'):
            fs = self.p.fields(ti) or []
            return ('a', 0, tuple(self.zst(f) for f in fs))
        if t['k'] == 'array':
            return ('a', 0, ())
        return ('z',)

    def scalar(self, v, ti):
        t = self.p.types[ti]
        if t['k'] in ('uint', 'bool', 'char'):
            return I(v)
        if t['k'] == 'int':
            bits = {'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'i128': 128, 'isize': 64}[t['s']]
            if v >= 1 << (bits - 1):
                v -= 1 << bits
            return I(v)
        if t['k'] == 'float':
            import struct
            if t['s'] == 'f64':
                return ('fl', struct.unpack('<d', v.to_bytes(8, 'little'))[0])
            return ('fl', struct.unpack('<f', v.to_bytes(4, 'little'))[0])
        if t['k'] == 'adt' and t.get('variants'):
            if t['adt'] == 'struct':
                fs = self.p.fields(ti)
                out = []
                for f in fs:
                    ft = self.p.types[f]
                    if ft['k'] == 'tuple' and not ft['elems']:
                        out.append(UNIT)
                    elif ft['k'] == 'adt' and not ft.get('variants', [{}])[0].get('fields', [1]):
                        out.append(self.zst(f))
                    else:
                        out.append(self.scalar(v, f))
                return ('a', 0, tuple(out))
            for n, var in enumerate(t['variants']):
                if (int(var['discr']) - v) % 256 == 0 and not any(len(x['fields']) for x in t['variants']):
                    return ('a', n, ())
            # niche: an option of a small enum or bool
            if [len(x['fields']) for x in t['variants']] == [0, 1]:
                it = t['variants'][1]['fields'][0]['ty']
                inner = self.p.types[it]
                if inner['k'] == 'bool':
                    return some(I(v)) if v in (0, 1) else NONE
                if inner['k'] == 'adt' and inner.get('variants') and not any(x['fields'] for x in inner['variants']):
                    r = self.scalar(v, it)
                    return some(r) if r[0] == 'a' else NONE
        return I(v)

    def promoted(self, st, c):
        b = self.p.bodies[c['body']]
        key = ('PR', c['body'])
        if key not in st.mem:
            # evaluate the promoted body's straight-line MIR
            sub = State()
            fr = Frame(b, ('pr', c['body']), None, None)
            sub.frames = [fr]
            sub.nfid = 1
            outs = self.explore([sub])
            if len(outs) != 1:
                raise Undecided('promoted')
            for k, v in outs[0].mem.items():
                st.mem[k] = v
            st.mem[key] = outs[0].ret
        return st.mem[key]

    def operand(self, st, fr, o):
        if o[0] == 'const':
            return self.const(st, o[1])
        obj, proj, ty = self.place(st, fr, o[1])
        v = self.read(st, obj, proj)
        if ty is not None and is_term(v):
            tt = self.p.types[ty]
            # give symbolic vectors an identity so that they can be mutated
            if tt['k'] == 'adt' and tt['path'] == 'std::vec::Vec' and o[0] == 'move':
                return ('v', ('VB', st.facts.find(v)))
        return v

    # ---------------------------------------------------------- rvalues
    def rvalue(self, st, fr, r, dty):
        k = r[0]
        if k == 'use':
            return self.operand(st, fr, r[1])
        if k == 'ref' or k == 'rawptr':
            pl = r[2]
            # reborrow of a plain pointer deref keeps the pointer value
            if pl[1] and pl[1][-1][0] == '*' :
                inner = [pl[0], pl[1][:-1]]
                obj, proj, ty = self.place(st, fr, inner)
                v = self.read(st, obj, proj)
                if v[0] in ('r', 'str', 'z') or is_term(v):
                    return v
                if v[0] == 'a':
                    return self.unwrap_ptr(v)
            if pl[1] and pl[1][-1][0] == 'ss':
                raise Undecided('subslice pattern')
            obj, proj, ty = self.place(st, fr, pl)
            return ('r', obj, proj)
        if k == 'bin':
            a = self.operand(st, fr, r[2])
            b = self.operand(st, fr, r[3])
            return self.binop(st, r[1], a, b, r[4])
        if k == 'un':
            a = self.operand(st, fr, r[2])
            return self.unop(st, r[1], a, r[3])
        if k == 'discr':
            obj, proj, ty = self.place(st, fr, r[1])
            if not proj and obj not in st.mem and self.p.types[ty]['s'] in ('std::option::Option<!>', 'std::option::Option<std::convert::Infallible>'):
                return I(0)  # a zero-sized residual: only None is inhabited
            v = self.read(st, obj, proj)
            if v[0] == 'i':
                return v
            vi = self.variant(st, v, ty)
            tt = self.p.types[ty]
            if tt.get('variants'):
                d = int(tt['variants'][vi]['discr'])
                if tt.get('path') == 'std::cmp::Ordering' and d > 127:
                    d -= 256
                return I(d)
            return I(vi)
        if k == 'agg':
            ops = tuple(self.operand(st, fr, o) for o in r[4])
            if r[1] == 'rawptr':
                return ops[0]
            if self.on_agg and r[2] in self.on_agg:
                self.on_agg[r[2]](st, fr, ('a', r[3], ops))
            return ('a', r[3], ops)
        if k == 'repeat':
            v = self.operand(st, fr, r[1])
            n = r[2]
            if n is None or n > 64:
                raise Undecided('array repeat')
            return ('a', 0, (v,) * n)
        if k == 'cast':
            return self.cast(st, r[1], self.operand(st, fr, r[2]), r[3], r[4])
        raise Undecided('rvalue %s' % k)

    def unwrap_ptr(self, v):
        while v[0] == 'a':
            v = v[2][0]
        return v

    def cast(self, st, kind, v, ty, fty):
        if kind.startswith('IntToInt'):
            t, f = self.p.types[ty], self.p.types[fty]
            if v[0] == 'i':
                bits = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'u128': 128,
                        'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'isize': 64, 'i128': 128}.get(t['s'])
                if bits:
                    n = v[1] & ((1 << bits) - 1)
                    if t['s'][0] == 'i' and n >= 1 << (bits - 1):
                        n -= 1 << bits
                    return I(n)
            if v[0] == 'a':
                return I(v[1])
            if t['s'] in ('u8', 'i8', 'u16', 'i16') and f['s'] in ('u32', 'u64', 'usize', 'i32', 'i64', 'isize', 'u128', 'i128') and (is_term(v) or v[0] == 'lin'):
                return T('narrow', v, t['s'])
            return v
        if kind.startswith('PointerCoercion(Unsize'):
            t, f = self.p.types[ty], self.p.types[fty]
            if t['k'] in ('ref', 'ptr') and f['k'] in ('ref', 'ptr') and self.p.types[t['elem']]['k'] == 'slice':
                return self.array_slice(st, v, f['elem'])
            return v
        if kind.startswith('FloatToFloat'):
            return T('f2f', v, self.p.types[ty]['s'])
        if kind.startswith('FloatToInt') or kind.startswith('IntToFloat'):
            return T(kind.split('(')[0], v, self.p.types[ty]['s'])
        if kind.startswith('Transmute') and v[0] == 'i':
            s = self.p.types[ty]['s'].replace('core::', 'std::')
            k = {-1: 0, 255: 0, 0: 1, 1: 2}.get(v[1])
            if s.endswith('cmp::Ordering') and k is not None:
                return enum(k)
            if s.endswith('cmp::Ordering>') and s.startswith('std::option::Option<'):
                return some(enum(k)) if k is not None else NONE
        return v

    def tobv(self, st, v):
        if v[0] == 'bv':
            return v[1]
        if v[0] == 'i':
            return tuple((v[1] >> k) & 1 for k in range(8))
        if is_term(v):
            v = st.facts.find(v)
            out = []
            for k in range(8):
                b = T('bit', v, k)
                f = st.facts.b.get(b)
                out.append(b if f is None else int(f))
            return tuple(out)
        if v[0] == 'a' and len(v[2]) == 1:
            return self.tobv(st, v[2][0])
        raise Undecided('bits of %s' % v[0])

    def frombv(self, bits):
        if all(isinstance(b, int) for b in bits):
            return I(sum(b << k for k, b in enumerate(bits)))
        # x.bit0..7 of one term
        b0 = bits[0]
        if isinstance(b0, tuple) and b0[1] == 'bit' and all(
                isinstance(b, tuple) and b[0] == 't' and b[1] == 'bit' and b[2] == b0[2] and b[3] == k for k, b in enumerate(bits)):
            return b0[2]
        return ('bv', tuple(bits))

    def bv_ne0(self, st, v):
        bits = self.tobv(st, v)
        if any(b == 1 for b in bits if isinstance(b, int)):
            return TRUE
        unk = [b for b in bits if isinstance(b, tuple)]
        if not unk:
            return FALSE
        for b in unk:
            if self.truth(st, b):
                return TRUE
        return FALSE

    def binop(self, st, op, a, b, ty):
        t = self.p.types[ty]
        tk = t['k']
        if op in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne', 'Cmp'):
            a, b = self.scal(a), self.scal(b)
            if a[0] == 'bv' or b[0] == 'bv' or (tk == 'uint' and t['s'] == 'u8' and op in ('Eq', 'Ne') and (is_term(a) or is_term(b)) and (a[0] == 'i' or b[0] == 'i')):
                if op in ('Eq', 'Ne'):
                    x = self.tobv(st, a)
                    y = self.tobv(st, b)
                    res = True
                    for p, q in zip(x, y):
                        if p == q:
                            continue
                        pv = bool(p) if isinstance(p, int) else self.truth(st, p)
                        qv = bool(q) if isinstance(q, int) else self.truth(st, q)
                        if pv != qv:
                            res = False
                            break
                    return I(int(res == (op == 'Eq')))
                raise Undecided('bits compare')
            if tk == 'bool' and op in ('Eq', 'Ne'):
                x, y = self.truth(st, a), self.truth(st, b)
                return I(int((x == y) == (op == 'Eq')))
            if tk in ('ptr', 'ref', 'fnptr'):
                if a == b:
                    return I(int(op in ('Eq', 'Le', 'Ge')))
                raise Undecided('pointer compare')
            want = {'Lt': LT, 'Le': LT | EQ, 'Gt': GT, 'Ge': GT | EQ, 'Eq': EQ, 'Ne': LT | GT}
            if op == 'Cmp':
                if self.rel(st, a, b, LT):
                    return enum(0)
                return enum(1) if self.rel(st, a, b, EQ) else enum(2)
            a, b = self.cmp_norm(st, a, b)
            return I(int(self.rel(st, a, b, want[op])))
        if op.startswith('Add') or op.startswith('Sub') or op.startswith('Mul') or op in ('Div', 'Rem'):
            o = op[:3]
            withov = op.endswith('WithOverflow')
            if tk == 'float':
                v = self.fop(o, a, b)
            elif tk in ('uint', 'int'):
                a, b = self.scal(a), self.scal(b)
                if a[0] == 'bv' or b[0] == 'bv':
                    raise Undecided('arith on bits')
                a, b = st.facts.find(a) if is_term(a) else a, st.facts.find(b) if is_term(b) else b
                if o == 'Add':
                    v = lin_add(a, b)
                elif o == 'Sub':
                    v = lin_add(a, b, -1)
                elif o == 'Mul':
                    if a[0] == 'i':
                        a, b = b, a
                    if b[0] == 'i':
                        d, c = lin_parts(a)
                        v = lin_make({k: x * b[1] for k, x in d.items()}, c * b[1])
                    else:
                        v = T('mul', a, b)
                elif o == 'Div':
                    v = I(a[1] // b[1]) if a[0] == 'i' and b[0] == 'i' and b[1] else T('div', a, b)
                else:
                    v = I(a[1] % b[1]) if a[0] == 'i' and b[0] == 'i' and b[1] else T('rem', a, b)
                if v[0] == 'i' and tk == 'uint':
                    bits = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'u128': 128}[t['s']]
                    v = I(v[1] & ((1 << bits) - 1))
            else:
                raise Undecided('arith on %s' % tk)
            if withov:
                return agg(v, FALSE)
            return v
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            if tk == 'bool':
                if a[0] == 'i' and b[0] == 'i':
                    return I({'BitAnd': a[1] & b[1], 'BitOr': a[1] | b[1], 'BitXor': a[1] ^ b[1]}[op])
                x = self.truth(st, a)
                y = self.truth(st, b)
                return I(int({'BitAnd': x and y, 'BitOr': x or y, 'BitXor': x != y}[op]))
            a, b = self.scal(a), self.scal(b)
            if a[0] == 'i' and b[0] == 'i':
                return I({'BitAnd': a[1] & b[1], 'BitOr': a[1] | b[1], 'BitXor': a[1] ^ b[1]}[op])
            if t['s'] == 'u8':
                x, y = self.tobv(st, a), self.tobv(st, b)
                out = []
                for p, q in zip(x, y):
                    if isinstance(p, tuple) and not isinstance(q, tuple):
                        p, q = q, p
                    # p is const if any
                    if isinstance(p, int):
                        if op == 'BitAnd':
                            out.append(q if p else 0)
                        elif op == 'BitOr':
                            out.append(1 if p else q)
                        else:
                            if not p:
                                out.append(q)
                            elif isinstance(q, int):
                                out.append(1 - q)
                            else:
                                out.append(int(not self.truth(st, q)))
                    elif p == q:
                        out.append(p if op != 'BitXor' else 0)
                    else:
                        pv, qv = self.truth(st, p), self.truth(st, q)
                        out.append(int({'BitAnd': pv and qv, 'BitOr': pv or qv, 'BitXor': pv != qv}[op]))
                return self.frombv(out)
            return T(op, a, b)
        if op.startswith('Shl') or op.startswith('Shr'):
            a, b = self.scal(a), self.scal(b)
            if a[0] == 'i' and b[0] == 'i':
                return I((a[1] << b[1]) & ((1 << 64) - 1) if op.startswith('Shl') else a[1] >> b[1])
            if t['s'] == 'u8' and b[0] == 'i':
                x = self.tobv(st, a)
                n = b[1]
                if op.startswith('Shr'):
                    return self.frombv(tuple(x[n:]) + (0,) * n)
                return self.frombv((0,) * n + tuple(x[:8 - n]))
            return T(op, a, b)
        if op == 'Offset':
            return self.ptr_add(st, a, b)
        raise Undecided('binop %s' % op)

    def cmp_norm(self, st, a, b):
        return a, b

    def scal(self, v):
        while v[0] == 'a' and len(v[2]) == 1:
            v = v[2][0]
        return v

    def fop(self, o, a, b):
        if a[0] == 'fl' and b[0] == 'fl':
            x, y = a[1], b[1]
            try:
                return ('fl', {'Add': x + y, 'Sub': x - y, 'Mul': x * y, 'Div': x / y if y else float('nan')}[o])
            except KeyError:
                pass
        return T('f' + o.lower(), a, b)

    def unop(self, st, op, a, ty):
        t = self.p.types[ty]
        if op == 'Not':
            if t['k'] == 'bool':
                if a[0] == 'i':
                    return I(1 - a[1])
                if a[0] == 't' and a[1] == 'not':
                    return a[2]
                return T('not', a)
            if t['s'] == 'u8':
                x = self.tobv(st, a)
                return self.frombv([1 - b if isinstance(b, int) else int(not self.truth(st, b)) for b in x])
            return T('inv', a)
        if op == 'Neg':
            if a[0] == 'fl':
                return ('fl', -a[1])
            if a[0] == 'i':
                return I(-a[1])
            if t['k'] == 'float':
                return T('fneg', a)
            d, c = lin_parts(a)
            return lin_make({k: -x for k, x in d.items()}, -c)
        if op == 'PtrMetadata':
            return self.seq_of(st, a)[3]
        raise Undecided('unop %s' % op)

    def ptr_add(self, st, p, n):
        obj, proj = self.as_ref(st, p)
        if obj[0] == 'E' and not proj:
            return ('r', ('E', obj[1], lin_add(obj[2], n)), ())
        raise Undecided('pointer arithmetic')

    # ---------------------------------------------------------- havoc / widening
    def fresh(self, st, hint):
        st.nfid += 1
        return S('%s#%d' % (hint, st.nfid))

    def havoc(self, st, v, ty, name, depth=0, keep=None):
        """an arbitrary value of type ty, reusing everything that cannot have changed"""
        t = self.p.types[ty]
        k = t['k']
        if k == 'ref':
            if not t['mut']:
                return v
            self.havoc_ref(st, v, t['elem'], name)
            return v
        if k == 'adt' and t['path'] == 'std::vec::Vec':
            o = self.vec_obj(st, v)
            self.set_vec(st, o, ('V', S(name + '.vec'), ()))
            return ('v', o)
        if k in ('adt', 'tuple', 'array') and t.get('adt') != 'enum':
            fs = self.p.fields(ty)
            if fs is None:
                return S(name)
            out = []
            for i, f in enumerate(fs):
                fv = self.proj_get(st, v, ('f', 0, i, len(fs)))
                out.append(self.havoc(st, fv, f, '%s.%d' % (name, i), depth + 1))
            return ('a', 0, tuple(out))
        return S(name)

    def havoc_ref(self, st, ref, ty, name):
        obj, proj = self.as_ref(st, ref)
        v = self.read(st, obj, proj)
        nv = self.havoc(st, v, ty, name)
        self.write(st, obj, proj, nv)

    def set_vec(self, st, obj, content):
        """replace a vector's content, dropping per-element overlays"""
        for key in [k for k in st.mem if isinstance(k, tuple) and k and ((k[0] == 'E' and k[1] == obj) or (k[0] == 'W' and k[1] == obj))]:
            del st.mem[key]
        st.mem[obj] = content

    def vec_push(self, st, obj, val):
        c = self.load_obj(st, obj)
        if c[0] != 'V':
            if is_term(c):
                c = ('V', c, ())
            else:
                raise Undecided('push on %s' % c[0])
        st.mem[obj] = ('V', c[1], c[2] + (val,))

    # ---------------------------------------------------------- execution
    def start(self, body, args, mem=None, facts=None):
        st = State()
        st.mem = dict(mem or {})
        if facts:
            st.facts = facts.copy()
        fr = Frame(body, 'f0', None, None)
        st.nfid = 1
        st.frames = [fr]
        for i, a in enumerate(args):
            st.mem[('L', 'f0', i + 1)] = a
        self.fnseen.add(body['path'])
        return st

    def run(self, body, args, mem=None, facts=None, aux=None):
        self.panics = []
        RECENT.clear()
        st = self.start(body, args, mem, facts)
        if aux:
            st.aux.update(aux)
        outs = self.explore([st])
        return outs

    def sym_args(self, body, names=None):
        """one symbol per parameter; reference parameters get their own object"""
        args, mem = [], {}
        for i in range(body['argc']):
            ty = body['locals'][i + 1]
            t = self.p.types[ty]
            nm = (names[i] if names and i < len(names) and names[i] else 'arg%d' % (i + 1))
            if t['k'] in ('ref', 'ptr'):
                obj = ('P', nm)
                mem[obj] = S(nm)
                args.append(('r', obj, ()))
            elif t['k'] == 'adt' and t['path'] == 'std::vec::Vec':
                obj = ('VB', S(nm))
                mem[obj] = ('V', S(nm), ())
                args.append(('v', obj))
            else:
                args.append(S(nm))
        return args, mem

    def explore(self, work, depth0=None, loop=None):
        """run states to completion.
        With loop=(depth, head, blocks): returns (backs, exits) where exits carry the block they left from"""
        done, backs, exits = [], [], []
        work = list(work)
        seen = set()
        while work:
            st = work.pop()
            self.nstates += 1
            if self.nstates > self.max_states:
                raise Budget('too many abstract states')
            while True:
                self.steps += 1
                if self.steps > self.budget:
                    raise Budget('step budget')
                snapshot = None
                try:
                    r = self.step(st)
                except Split as sp:
                    outs = []
                    for alt in sp.alts:
                        s2 = st.copy()
                        if alt(s2.facts):
                            outs.append(s2)
                    if not outs:
                        break
                    work.extend(outs[1:])
                    self.nstates += len(outs) - 1
                    st = outs[0]
                    continue
                if r is None:
                    continue
                if r == 'done':
                    if loop is not None and len(st.frames) < loop[0]:
                        exits.append((st, None))
                    else:
                        done.append(st)
                    break
                if r == 'panic':
                    if self.want_panics:
                        self.panics.append(st)
                    break
                if r == 'dead':
                    break
                if r[0] == 'jump':
                    src, dst = r[1], r[2]
                    fr = st.frames[-1]
                    if loop is not None and len(st.frames) == loop[0]:
                        if dst == loop[1]:
                            fr.bb = dst
                            st.pos = 0
                            backs.append(st)
                            break
                        if dst not in loop[2]:
                            fr.bb = dst
                            st.pos = 0
                            exits.append((st, src))
                            break
                    fr.bb = dst
                    st.pos = 0
                    loops, dom = self.p.loops(fr.body)
                    if dst in loops:
                        outs = self.do_loop(st, dst, loops[dst])
                        # continue each exit
                        for o in outs:
                            if o.ret is not None and not o.frames:
                                done.append(o)
                            elif loop is not None and len(o.frames) == loop[0] and o.frames[-1].body is fr.body and o.frames[-1].fid == fr.fid:
                                ob = o.frames[-1].bb
                                if ob == loop[1]:
                                    backs.append(o)
                                elif ob not in loop[2]:
                                    exits.append((o, dst))
                                elif ob in loops and False:
                                    pass
                                else:
                                    work.append(o)
                            elif loop is not None and len(o.frames) < loop[0]:
                                exits.append((o, None))
                            else:
                                work.append(o)
                        break
                    continue
                if r[0] == 'returned':
                    if loop is not None and len(st.frames) < loop[0]:
                        exits.append((st, None))
                        break
                    continue
                if r[0] == 'states':
                    sts = r[1]
                    if not sts:
                        break
                    work.extend(sts[1:])
                    st = sts[0]
                    continue
        if loop is not None:
            return backs, exits
        return done

    def do_loop(self, st, head, info):
        blocks, prim = info
        depth = len(st.frames)
        exits = []
        cur = [st]
        lidc = dict(self.lidc)
        # a nested loop head reached as continuation of an exit may itself be a loop head:
        it = 0
        save_panics = len(self.panics)
        while cur:
            it += 1
            nxt = []
            bad = False
            ex_all = []
            for h in cur:
                backs, ex = self.iterate(h, depth, head, blocks)
                if backs and it > self.force_unroll and any(src == prim or prim is None for (_, src) in ex):
                    bad = True
                    break
                nxt.extend(backs)
                ex_all.extend(ex)
            if bad or it > self.max_unroll or len(nxt) > self.max_front:
                del self.panics[save_panics:]
                self.lidc = lidc
                return self.widen_loop(st, head, info)
            exits.extend(s for s, _ in ex_all)
            cur = self.dedupe(nxt)
        return exits

    def iterate(self, h, depth, head, blocks):
        s = h.copy()
        s.frames[-1].bb = head
        s.pos = 0
        return self.explore_loop(s, (depth, head, blocks))

    def next_iteration(self, summ, b):
        """(back states, exit states) of one more iteration from a loop state; their events are those of this iteration"""
        b = b.copy()
        b.events = ()
        if b.aux.get('pend'):
            raise Undecided('pending state at loop head')
        backs, ex = self.iterate(b, summ['depth'], summ['block'], summ['blocks'])
        return backs, [s for s, _ in ex]

    def explore_loop(self, s, loop):
        return self.explore([s], loop=loop)

    def dedupe(self, sts):
        out, seen = [], set()
        for s in sts:
            k = s.key()
            if k is not None:
                try:
                    if k in seen:
                        continue
                    seen.add(k)
                except TypeError:
                    pass
            out.append(s)
        return out

    def widen_loop(self, st, head, info):
        blocks, prim = info
        depth = len(st.frames)
        fr = st.frames[-1]
        lid = '%s@%d' % (fr.body['path'].split('::')[-1] if not fr.body['path'].endswith('}') else fr.body['path'], head)
        self.loopctr += 1
        lid = '%s/%s' % (lid, fr.fid)
        # the same loop entered along several paths is summarised once per path
        k = self.lidc.get(lid, 0)
        self.lidc[lid] = k + 1
        if k:
            lid += '~%d' % k
        lidc = self.lidc
        h = st.copy()
        ev0 = h.events
        h.events = ()
        log0 = h.facts.log
        summ = None
        for rnd in range(8):
            np = len(self.panics)
            self.lidc = dict(lidc)
            backs, ex = self.iterate(h, depth, head, blocks)
            if rnd == 0 and self.peel:
                # a second iteration before anything is forgotten, for the benefit of the hooks
                for b in backs:
                    self.iterate(b, depth, head, blocks)
            h2 = self.widen(st, h, backs, lid, rnd)
            if h2 is None:
                break
            del self.panics[np:]
            h = h2
        else:
            raise Undecided('loop does not stabilise: %s' % lid)
        hb = self.bounded(st, h, backs, ex, lid)
        if hb is not None:
            del self.panics[np:]
            self.lidc = dict(lidc)
            h = hb
            backs, ex = self.iterate(h, depth, head, blocks)
        alts = []
        for b in backs:
            alts.append((b.events, b))
        summ = ('loop', lid, tuple(a[0] for a in alts))
        self.loop_summ.setdefault(lid, []).append({'entry': st, 'head': h, 'backs': backs, 'exits': [s for s, _ in ex], 'body': fr.body, 'block': head, 'srcs': [src for _, src in ex], 'depth': depth, 'blocks': blocks, 'lid': lid})
        outs = []
        for s, src in ex:
            s.events = ev0 + (summ,) + s.events
            outs.append(s)
        return outs

    def bounded(self, st0, h, backs, ex, lid):
        """head state with  x <= n  added for counters that every iteration sees below n and moves by one"""
        K = S(lid + ':K')
        if not backs:
            return None
        old = set(h.facts.rel.items())
        out = None
        for (a, b), m in backs[0].facts.rel.items():
            if ((a, b), m) in old or m not in (LT, GT):
                continue
            x, n = (a, b) if m == LT else (b, a)
            dx, cx = lin_parts(x)
            if dx.get(K) != 1 or (lid + ':') in repr(n) or any(k != K and (lid + ':') in repr(k) for k in dx):
                continue
            x0 = lin_make({k: v for k, v in dx.items() if k != K}, cx)
            if st0.facts.mask(x0, n) & GT:
                continue
            if any(bk.facts.mask(x, n) != LT for bk in backs):
                continue
            if not any(o.facts.mask(x, n) & GT for o, _ in ex):
                continue
            out = out or h.copy()
            if not out.facts.assume(x, n, LT | EQ):
                return None
        return out

    def widen(self, st0, h, backs, lid, rnd):
        """least abstract state above h and all back states; None if h already covers them"""
        changed = False
        h2 = h.copy()
        keys = set()
        fid = h.frames[-1].fid
        live_fids = {f.fid for f in h.frames}
        for b in backs:
            for k, v in b.mem.items():
                if k[0] == 'L' and k[1] not in live_fids:
                    continue
                if h.mem.get(k) != v:
                    keys.add(k)
            for k in h.mem:
                if k not in b.mem and k[0] != 'L':
                    keys.add(k)
        vec_changed = set()
        for k in sorted(keys, key=repr):
            hv = h.mem.get(k)
            if k[0] in ('E', 'W'):
                # an element of a symbolic vector was written: forget the whole content
                base = k[1]
                if k[0] == 'E' and hv is not None and all(b.mem.get(k) == hv for b in backs):
                    continue
                vec_changed.add(base)
                continue
            if hv is None:
                # object created in the loop (or first materialised there)
                vals = {b.mem.get(k) for b in backs}
                if k[0] in ('D', 'VB', 'P', 'PR'):
                    ini = None
                    try:
                        ini = self.init_obj(h, k) if k[0] in ('D', 'VB') else None
                    except Undecided:
                        pass
                    if ini is None:
                        # promoted constants never change
                        if k[0] == 'PR':
                            continue
                        raise Undecided('widen %s' % (k,))
                    nv = self.join_val(h, ini, [b.mem.get(k, ini) for b in backs], '%s:%s' % (lid, showobj(k)), rnd)
                    if nv != ini:
                        h2.mem[k] = nv
                        changed = True
                    continue
                continue  # locals dead at the head / per-iteration temporaries
            if any(k not in b.mem for b in backs):
                bv = [b.mem.get(k) for b in backs if k in b.mem]
            else:
                bv = [b.mem[k] for b in backs]
            if k[0] == 'L' and any(k not in b.mem for b in backs):
                # moved out / dead on some path: unknown at head, must be dead
                pass
            nv = self.join_val(h, hv, bv, '%s:%s' % (lid, showobj(k)), rnd)
            if nv != hv:
                h2.mem[k] = nv
                changed = True
        for base in vec_changed:
            key = ('WV', lid, base)
            ver = S('%s:%s' % (lid, showobj(base)))
            cur = h2.mem.get(base)
            if cur is None or cur[0] != 'V' or cur[1] != ver:
                self.set_vec(h2, base, ('V', ver, ()))
                changed = True
            else:
                # already arbitrary: overlays of the head stay dropped
                for kk in [x for x in h2.mem if x[0] in ('E', 'W') and x[1] == base]:
                    del h2.mem[kk]
        # auxiliary abstract state
        for k in set(h.aux) | set(x for b in backs for x in b.aux):
            hv = h.aux.get(k)
            vals = [b.aux.get(k) for b in backs]
            if any(v != hv for v in vals):
                nv = self.join_aux(k, hv, vals, lid, rnd)
                if nv != hv:
                    h2.aux[k] = nv
                    changed = True
        # facts learned in the loop about values of the head must not be kept
        if not changed:
            return None
        h2.facts = st0.facts.copy()
        h2.events = ()
        return h2

    def join_aux(self, k, hv, vals, lid, rnd):
        return ('top', lid, k)

    def join_val(self, st, hv, bvs, name, rnd):
        if all(b == hv for b in bvs):
            return hv
        if hv[0] == 'V':
            return self.join_vec(st, hv, bvs, name, rnd)
        if hv[0] == 'a' and all(b[0] == 'a' and b[1] == hv[1] and len(b[2]) == len(hv[2]) for b in bvs):
            return ('a', hv[1], tuple(self.join_val(st, f, [b[2][i] for b in bvs], '%s.%d' % (name, i), rnd) for i, f in enumerate(hv[2])))
        sym = S(name)
        # widened already: stays
        if hv == sym:
            return hv
        # induction variables: every iteration adds the same constant
        K = S(name.split(':', 1)[0] + ':K')
        if hv[0] in ('i', 's', 'lin', 't') and all(b[0] in ('i', 's', 'lin', 't') for b in bvs):
            ds = {lin_add(b, hv, -1) for b in bvs}
            if len(ds) == 1:
                d = ds.pop()
                if d[0] == 'i':
                    c = lin_parts(hv)[0].get(K, 0)
                    if c == d[1]:
                        return hv
                    if c == 0 and d[1] > 0:
                        return lin_add(hv, lin_make({K: d[1]}, 0))
        return sym

    def join_vec(self, st, hv, bvs, name, rnd):
        # pure appends keep the prefix: base rep(name, prefix, appended per iteration, K)
        K = S(name.split(':', 1)[0] + ':K')
        if hv[1] is not None and hv[1][0] == 't' and hv[1][1] == 'rep' and hv[1][2] == name and not hv[2]:
            ok = all(b[0] == 'V' and b[1] == hv[1] for b in bvs)
            if ok:
                ns = {len(b[2]) for b in bvs}
                if hv[1][4] is None or ns == {hv[1][4]}:
                    return hv
                return ('V', T('rep', name, hv[1][3], None, K), ())
            return ('V', S(name), ())
        if hv[1] == S(name) and not hv[2]:
            return hv
        if all(b[0] == 'V' and b[1] == hv[1] and b[2][:len(hv[2])] == hv[2] for b in bvs):
            ns = {len(b[2]) - len(hv[2]) for b in bvs}
            return ('V', T('rep', name, hv, ns.pop() if len(ns) == 1 else None, K), ())
        return ('V', S(name), ())

    # ---------------------------------------------------------- steps
    def step(self, st):
        fr = st.frames[-1]
        bl = fr.body['blocks'][fr.bb]
        n = len(bl['s'])
        self.blocks_seen.add((fr.body['id'], fr.bb))
        while st.pos < n:
            s = bl['s'][st.pos]
            k = s[0]
            if k == '=':
                try:
                    dty = None
                    v = self.rvalue(st, fr, s[2], dty)
                    obj, proj, ty = self.place(st, fr, s[1])
                    self.write(st, obj, proj, v)
                except Undecided as e:
                    if not getattr(e, 'sp', None):
                        e.sp = s[-1]
                        e.args = ('%s [%s:%s]' % (e.args[0], s[-1][0], s[-1][1]),)
                    raise
            elif k == 'setd':
                obj, proj, ty = self.place(st, fr, s[1])
                v = self.read(st, obj, proj)
                if v[0] == 'a':
                    self.write(st, obj, proj, ('a', s[2], v[2]))
                else:
                    raise Undecided('set discriminant')
            elif k == 'dead':
                st.mem.pop(('L', fr.fid, s[1]), None)
            st.pos += 1
        try:
            return self.terminator(st, fr, bl)
        except Undecided as e:
            if not getattr(e, 'sp', None):
                e.sp = bl['sp']
                e.args = ('%s [%s:%s]' % (e.args[0], bl['sp'][0], bl['sp'][1]),)
            raise

    def goto(self, st, fr, dst):
        return ('jump', fr.bb, dst)

    def terminator(self, st, fr, bl):
        t = bl['t']
        k = t[0]
        if k == 'goto':
            return self.goto(st, fr, t[1])
        if k == 'switch':
            v = self.operand(st, fr, t[1])
            v = self.scal(v)
            tt = self.p.types[t[4]]
            if tt['k'] == 'bool':
                b = self.truth(st, v)
                n = int(b)
            else:
                if is_term(v):
                    v = st.facts.find(v)
                if v[0] == 'bv':
                    v = self.decide_bits(st, v)
                if is_term(v):
                    for val, dst in t[2]:
                        if self.eq(st, v, self.scalar(int(val), t[4])):
                            return self.goto(st, fr, dst)
                    return self.goto(st, fr, t[3])
                if v[0] != 'i':
                    raise Undecided('switch on %s' % v[0])
                n = v[1]
            for val, dst in t[2]:
                if self.scalar(int(val), t[4])[1] == n:
                    return self.goto(st, fr, dst)
            return self.goto(st, fr, t[3])
        if k == 'return':
            rv = st.mem.get(('L', fr.fid, 0), UNIT)
            return self.do_return(st, rv)
        if k == 'drop':
            return self.goto(st, fr, t[2])
        if k == 'unreachable':
            raise Undecided('analysis reaches unreachable code in %s' % fr.body['path'])
        if k == 'assert':
            v = self.operand(st, fr, t[1])
            if self.want_panics:
                ok = self.truth(st, v) == t[2]
                if not ok:
                    st.panic = ('assert', t[4], bl['sp'], fr.body['path'])
                    return 'panic'
            else:
                # continue only where the check passed
                try:
                    ok = self.truth(st, v) == t[2]
                except Split as sp:
                    keep = []
                    for alt in sp.alts:
                        keep.append(alt)
                    raise
                if not ok:
                    st.panic = ('assert', t[4], bl['sp'], fr.body['path'])
                    return 'panic'
            return self.goto(st, fr, t[3])
        if k == 'call':
            return self.call(st, fr, t, bl)
        if k in ('resume', 'abort'):
            return 'dead'
        raise Undecided('terminator %s' % k)

    def decide_bits(self, st, v):
        return I(sum((b if isinstance(b, int) else int(self.truth(st, b))) << k for k, b in enumerate(v[1])))

    def do_return(self, st, rv):
        fr = st.frames[-1]
        if len(st.frames) == 1:
            st.ret = rv
            st.frames = []
            return 'done'
        dest, ret = fr.dest, fr.ret
        # drop the callee's locals unless something still points to them
        fid = fr.fid
        st.frames.pop()
        for kk in [x for x in st.mem if x[0] == 'L' and x[1] == fid]:
            del st.mem[kk]
        obj, proj = dest
        self.write(st, obj, proj, rv)
        if ret is None:
            return 'dead'
        caller = st.frames[-1]
        if fr.env:
            fr.env(self, st, rv)
        st.pos = 0
        src = caller.bb
        return ('jump', src, ret)

    def call(self, st, fr, t, bl):
        cal, ops, dest, target, atys, fop = t[1], t[2], t[3], t[4], t[5], t[6]
        # arguments are read before anything changes
        save = st.mem
        args = [self.operand(st, fr, o) for o in ops]
        kind = cal.get('kind')
        path = cal.get('rpath') or cal.get('path')
        dobj, dproj, dty = self.place(st, fr, dest)
        ctx = CallCtx(self, st, fr, cal, args, atys, dobj, dproj, dty, target, bl['sp'])
        if kind == 'ptr':
            raise Undecided('indirect call')
        if self.on_call is not None:
            self.on_call(ctx)
        h = self.hooks.get(path) or self.hooks.get(cal['path'])
        if h is None and cal.get('inst') is not None:
            h = self.hooks.get(self.p.names[cal['inst']])
        if h is not None:
            r = h(ctx)
            if r is not NotImplemented:
                return self.finish(ctx, r)
        if kind == 'virtual' or (kind == 'unresolved' and cal.get('trait')):
            h = self.virt
            if h is not None:
                r = h(ctx)
                if r is not NotImplemented:
                    return self.finish(ctx, r)
            if kind == 'virtual':
                st.ev('virt', path, tuple(args))
                return self.finish(ctx, UNIT if self.p.ty_s(dty) == '()' else self.fresh(st, path))
        m = self.model_for(self, cal, path)
        if m is not None:
            r = m(ctx)
            if r is not NotImplemented:
                return self.finish(ctx, r)
        inst = cal.get('inst')
        if inst is not None and inst in self.p.bodies:
            return self.enter(ctx, self.p.bodies[inst])
        if target is None:
            st.panic = ('call', path, bl['sp'], fr.body['path'])
            return 'panic'
        if self.unknown is not None:
            r = self.unknown(ctx)
            if r is not NotImplemented:
                return self.finish(ctx, r)
        self.unmodelled.add(path)
        if not path.startswith(('std::fmt', 'core::fmt')) and not (cal.get('kind') == 'item' and all(self.p.types[x]['k'] in ('int', 'uint', 'float', 'bool', 'char') for x in atys)):
            RECENT.add(path)
        r = T('call', path, *[self.snap(st, a) for a in args])
        for a, ty in zip(args, atys):
            tt = self.p.types[ty]
            if tt['k'] == 'ref' and tt['mut']:
                self.havoc_ref(st, a, tt['elem'], 'hv:%s#%d' % (path, st.nfid))
                st.nfid += 1
        return self.finish(ctx, r)

    def snap(self, st, v, depth=0):
        """value with references replaced by what they currently refer to"""
        if depth > 4:
            return v
        if v[0] == 'r':
            try:
                return T('refto', self.snap(st, self.read(st, v[1], v[2]), depth + 1))
            except Undecided:
                return v
        if v[0] == 'v':
            c = st.mem.get(v[1])
            return T('vecof', c[1] if c and c[1] else I(0), *[self.snap(st, x, depth + 1) for x in (c[2] if c else ())])
        if v[0] == 'a':
            return ('a', v[1], tuple(self.snap(st, x, depth + 1) for x in v[2]))
        if is_term(v):
            return st.facts.find(v)
        return v

    def finish(self, ctx, r):
        st = ctx.st
        if r == 'panic' or r == 'dead':
            return r
        if isinstance(r, tuple) and r and r[0] == 'enter':
            return r[1]
        if ctx.target is None:
            st.panic = ('call', ctx.path, ctx.sp, ctx.fr.body['path'])
            return 'panic'
        self.write(st, ctx.dobj, ctx.dproj, r)
        st.pos = 0
        return ('jump', ctx.fr.bb, ctx.target)

    def enter(self, ctx, body, args=None):
        st = ctx.st
        args = list(ctx.args if args is None else args)
        depth = sum(1 for f in st.frames if f.body['id'] == body['id'])
        if depth >= 1 or len(st.frames) > 40:
            h = self.hooks.get('<recursion>')
            if h is not None:
                r = h(ctx, body)
                if r is not NotImplemented:
                    return self.finish(ctx, r)
            raise Undecided('recursive call of %s' % body['path'])
        self.fnseen.add(body['path'])
        fid = 'f%d' % st.nfid
        st.nfid += 1
        nf = Frame(body, fid, (ctx.dobj, ctx.dproj), ctx.target)
        # rust-call ABI: closures receive their arguments as a tuple
        cal = ctx.cal
        tr = cal.get('trait') or ''
        if body['argc'] != len(args) or (tr.startswith('std::ops::Fn') and body['kind'] == 'fn'):
            if tr.startswith('std::ops::Fn') and len(args) == 2:
                tup = args[1]
                ti = ctx.atys[1]
                n = len(self.p.fields(ti) or [])
                flat = [self.proj_get(st, tup, ('f', 0, i, n)) for i in range(n)]
                if body['spread'] is None:
                    if body['argc'] == 1 + n:
                        args = [args[0]] + flat
                    elif body['argc'] == n:
                        args = flat
        if body['kind'] == 'shim' and body['spread'] is not None and len(args) == 2:
            pass
        if body['argc'] != len(args):
            raise Undecided('argument count %s' % body['path'])
        # closure by value where the body wants a reference
        st.frames.append(nf)
        st.pos = 0
        for i, a in enumerate(args):
            st.mem[('L', fid, i + 1)] = a
        loops, dom = self.p.loops(body)
        if 0 in loops:
            return ('jump', 0, 0)
        return None


# calls the latest run came across that have neither a body nor a model
RECENT = set()


class CallCtx:
    def __init__(self, eng, st, fr, cal, args, atys, dobj, dproj, dty, target, sp):
        self.e = eng
        self.st = st
        self.fr = fr
        self.cal = cal
        self.args = args
        self.atys = atys
        self.dobj = dobj
        self.dproj = dproj
        self.dty = dty
        self.target = target
        self.sp = sp
        self.path = cal.get('rpath') or cal['path']

    def where(self):
        return '%s:%s (%s)' % (self.sp[0], self.sp[1], self.fr.body['path'])

    def call_closure(self, cval, cty, args, then=None):
        """enter a closure body with explicit arguments"""
        raise NotImplementedError
