"""Loading a file: errors (C21) and sections (C22)."""
from common import *
from graph import *
from engine import *
from mesh import *
from frontmodel import *
import models
from models import mk_iter, pending
from checks_i import Api, builder_fns, arg_kind
import itertools

# what a line of the file can be
KINDS = ('HOLE', 'STEINER', 'empty', 'blank', 'one', 'two', 'more')
WORDS = {'HOLE': 1, 'STEINER': 1, 'empty': 0, 'blank': 0, 'one': 1, 'two': 2, 'more': 3}
TEXT = S('TEXT')
BYTES = S('BYTES')
PART = S('PART')


class Loading:
    """one run of a loader on a file of n lines of any kind"""

    def __init__(self, a, f, n):
        self.a, self.p, self.f, self.n = a, a.p, f, n
        self.lines = [S('l%d' % i) for i in range(n)]
        e = self.e = Engine(a.p, max_states=200000, want_panics=True)
        e.force_unroll = 14
        e.max_front = 10 ** 6
        self.kinds = [i for i, k in enumerate(KINDS) if n < 4 or k not in ('blank', 'more')]
        e.unknown = self.unknown
        e.budget = 10 ** 9
        for g, own, rest in builder_fns(a):
            if not own or own and g['output'] == a.B:
                e.hooks[g['path']] = self.builder(g, own, rest)
        for k in ('std::str::traits::<impl std::cmp::PartialEq for str>::eq', 'core::str::traits::<impl std::cmp::PartialEq for str>::eq'):
            e.hooks[k] = self.streq
        e.hooks['core::str::<impl str>::is_empty'] = self.strempty
        e.hooks['std::string::String::is_empty'] = self.strempty
        for w in ('is_nan', 'is_finite', 'is_infinite'):
            for t in ('f64', 'f32'):
                for pre in ('core::%s::<impl %s>::%s', 'std::%s::<impl %s>::%s'):
                    e.hooks[pre % (t, t, w)] = self.unknown

    # ------------------------------------------------------- text values
    def txt(self, st, v):
        v = unref(st, self.e, v)
        n = 0
        while v[0] == 'r' and n < 4:
            v = unref(st, self.e, v)
            n += 1
        return st.facts.find(v) if is_term(v) else v

    def kind(self, st, l):
        k = st.facts.var.get(T('kind', l))
        if k is not None:
            return KINDS[k]

        def setk(i):
            def g(f):
                f.var[T('kind', l)] = i
                return True
            return g
        raise Split([setk(i) for i in self.kinds], ('kind', l))

    def equals(self, st, t, lit):
        """is this text equal to a literal"""
        if t[0] == 'str':
            return I(int(t[1] == lit))
        if t in self.lines:
            k = self.kind(st, t)
            if k in ('HOLE', 'STEINER'):
                return I(int(lit == k))
            if k == 'empty':
                return I(int(lit == ''))
            if lit in ('HOLE', 'STEINER', '') or k != 'one' and not lit.split() or k in ('two', 'more') and len(lit.split()) != WORDS[k]:
                return I(0)
            return T('streq', t, ('str', lit))
        if t[0] == 't' and t[1] == 'word' and t[2] in self.lines:
            k = self.kind(st, t[2])
            if k in ('HOLE', 'STEINER'):
                return I(int(lit == k))
            if lit == '' or ' ' in lit:
                return I(0)
            if t[3] == I(0) and lit in ('HOLE', 'STEINER') and k == 'one':
                return I(0)
            return T('streq', t, ('str', lit))
        return T('streq', t, ('str', lit))

    def streq(self, ctx):
        x, y = (self.txt(ctx.st, v) for v in ctx.args[:2])
        if x[0] == 'str':
            x, y = y, x
        if y[0] == 'str':
            return self.equals(ctx.st, x, y[1])
        return T('streq', *sorted((x, y), key=repr))

    def strempty(self, ctx):
        t = self.txt(ctx.st, ctx.args[0])
        return self.equals(ctx.st, t, '')

    def trimmed(self, st, t):
        if t[0] == 'str':
            return ('str', t[1].strip())
        if t in self.lines and self.kind(st, t) in ('empty', 'blank'):
            return ('str', '')
        if t in self.lines or t[0] == 't' and t[1] == 'word':
            return t        # lines of the model have nothing around their words
        return T('trim', t)

    # ------------------------------------------------------- builder
    def builder(self, g, own, rest):
        def h(ctx):
            e, st = self.e, ctx.st
            prev = self.txt(st, ctx.args[own[0]]) if own else None
            vals = []
            for i in rest:
                if arg_kind(self.a, g['inputs'][i]) == 'sources' and unref(st, e, ctx.args[i])[0] != 'v':
                    return NotImplemented       # an iterator: what it does with it
                vals.append(self.deep(st, ctx.args[i]))
            b = T('bld', I(len(st.events)))
            st.ev('builder', g['path'].split('::')[-1], prev, tuple(vals), b, ctx.where())
            return b
        return h

    def deep(self, st, v, depth=0):
        """value with lists spelled out"""
        e = self.e
        if depth > 6:
            raise Undecided('deep value')
        v = unref(st, e, v)
        if v[0] == 'v':
            c = e.load_obj(st, v[1])
            if c[0] != 'V' or c[1] is not None or st.mem.get(('W', v[1])):
                b, els, over = self.a.flat(e, st, v)
                if b is not None or over:
                    raise Undecided('list of another form: %s' % (show(b)[:150] if b else ''))
                return ('list',) + tuple(self.deep(st, x, depth + 1) for x in els)
            return ('list',) + tuple(self.deep(st, x, depth + 1) for x in c[2])
        if v[0] == 'a':
            # a list about to be moved out
            if len(v[2]) == 3 and v[2][0][0] == 'itk':
                raise Undecided('iterator')
            return ('a', v[1], tuple(self.deep(st, x, depth + 1) for x in v[2]))
        return v

    # ------------------------------------------------------- std
    def either(self, ctx, what, make, broken=None):
        """a call that succeeds or fails"""
        def both():
            good, bad = ctx.st.copy(), ctx.st.copy()
            v = make(good)
            if broken is not None:
                broken(bad)
            bad.ev('fail', what, ctx.where())
            return [(good, enum(0, v)), (bad, enum(1, T('error', what, I(len(bad.events)))))]
        return pending(ctx, both)

    def unknown(self, ctx):
        e, st, p = self.e, ctx.st, self.p
        path = ctx.path
        name = path.split('::')[-1]
        out = p.ty_s(ctx.dty)
        args = ctx.args
        if out.startswith('std::result::Result<') and out.endswith(', std::io::Error>'):
            cut = self.limit(st, args[0]) if args and name in ('read_to_string', 'read_to_end') else None
            def make(s):
                if name == 'read_to_string' and len(args) == 2:
                    r = args[1]
                    old = self.txt(s, r)
                    e.write(s, *e.as_ref(s, r), TEXT if old in (('str', ''),) else T('join', old, TEXT))
                    return S('size')
                if name == 'read_to_string':
                    return TEXT
                if name == 'read_to_end' and len(args) == 2:
                    obj = e.vec_at(s, args[1])
                    c = e.load_obj(s, obj)
                    if c != ('V', None, ()):
                        raise Undecided('reading behind other bytes')
                    e.set_vec(s, obj, ('V', BYTES, ()))
                    return S('size')
                if path == 'std::fs::read':
                    return e.new_vec(s, BYTES)
                if out.startswith('std::result::Result<std::fs::File'):
                    return T('file', I(len(s.events)))
                e_ = S('io:%s' % name)
                RECENT.add(path)
                return e_

            def broken(s):
                # what was read before the failure
                if name == 'read_to_string' and len(args) == 2:
                    e.write(s, *e.as_ref(s, args[1]), PART)
                elif name == 'read_to_end' and len(args) == 2:
                    e.set_vec(s, e.vec_at(s, args[1]), ('V', BYTES, ()))
            if cut is not None:
                def three():
                    out_ = []
                    for what in ('io', 'limit', None):
                        s = st.copy()
                        if what == 'limit':
                            v = make(s)
                            if name == 'read_to_string':
                                e.write(s, *e.as_ref(s, args[1]), PART)
                            s.ev('cut', cut, ctx.where())
                            out_.append((s, enum(0, T('size', cut))))
                        elif what == 'io':
                            broken(s)
                            s.ev('fail', 'io', ctx.where())
                            out_.append((s, enum(1, T('error', 'io', I(len(s.events))))))
                        else:
                            v = make(s)
                            out_.append((s, enum(0, v)))
                    return out_
                return pending(ctx, three)
            return self.either(ctx, 'io', make, broken)
        if name in ('from_utf8', 'from_utf8_lossy', 'from_utf8_unchecked', 'from_utf8_mut', 'from_utf8_lossy_owned'):
            v = args[0]
            if not self.is_bytes(st, v):
                return NotImplemented
            if name == 'from_utf8':
                return self.either(ctx, 'utf8', lambda s: TEXT)
            st.ev('lossy', name, ctx.where())
            return TEXT
        if path.endswith('io::Read::by_ref') or name == 'by_ref' and 'io::' in path:
            return args[0]
        if path.endswith('io::Read::take') or name == 'take' and 'io::Read' in path:
            return T('limited', self.txt(st, args[0]), args[1])
        if name in ('is_nan', 'is_finite', 'is_infinite') and 'f64' in path or name in ('is_nan', 'is_finite', 'is_infinite') and 'f32' in path:
            v = e.scal(unref(st, e, args[0]))
            if v[0] == 't' and v[1] == 'num':
                return T('odd', S(name), v)
            return NotImplemented
        if path in ('std::fs::File::options', 'std::fs::OpenOptions::new', 'std::fs::OpenOptions::read', 'std::fs::OpenOptions::write', 'std::fs::OpenOptions::create', 'std::fs::OpenOptions::append', 'std::fs::OpenOptions::truncate'):
            return T('opts', S(name))
        if path.endswith('BufReader::<R>::new') or path.endswith('BufReader::<R>::with_capacity'):
            return T('buffered', self.txt(st, args[-1]))
        if name == 'lines' and 'BufRead' in path:
            o = e.new_vec(st, None, tuple(self.lines))
            return mk_iter('move', ('r', o[1], ()), I(0), I(self.n))
        if path == '<std::io::Lines<B> as std::iter::Iterator>::next':
            key = ('pend', ctx.fr.fid, ctx.fr.bb)
            if key not in st.aux:
                pt = models.it_parts(e, st, args[0])
                if pt is None:
                    return NotImplemented

                def both():
                    good, bad = st.copy(), st.copy()
                    bad.ev('fail', 'io', ctx.where())
                    ob, pr, v = pt
                    if v[2][1] == v[2][2]:
                        return [(good, NONE)]
                    x = e.read(good, *e.as_ref(good, models.elem_ref(e, good, v[2][0][2], v[2][1])))
                    for s in (good, bad):
                        e.write(s, ob, pr, ('a', 0, (v[2][0], lin_add(v[2][1], I(1)), v[2][2])))
                    return [(good, some(enum(0, x))), (bad, some(enum(1, T('error', 'io', I(len(bad.events))))))]
                return pending(ctx, both)
            return st.aux.pop(key)
        if path == 'core::str::<impl str>::lines':
            t = self.txt(st, args[0])
            if t not in (TEXT, PART, ('str', '')):
                return NotImplemented
            ls = () if t[0] == 'str' else tuple(self.lines)
            o = e.new_vec(st, None, ls)
            return mk_iter('move', ('r', o[1], ()), I(0), I(len(ls)))
        if name in ('split_whitespace', 'split_ascii_whitespace') and 'str' in path:
            t = self.txt(st, args[0])
            if t == ('str', ''):
                ws = []
            elif t in self.lines:
                ws = [T('word', t, I(i)) for i in range(WORDS[self.kind(st, t)])]
            else:
                return NotImplemented
            o = e.new_vec(st, None, tuple(ws))
            return mk_iter('move', ('r', o[1], ()), I(0), I(len(ws)))
        if name in ('next', 'next_back') and any(x in path for x in ('Lines<', 'SplitWhitespace<', 'SplitAsciiWhitespace<')):
            return (models.it_next if name == 'next' else models.it_next_back)(ctx)
        if path == 'core::str::<impl str>::parse' or name == 'from_str' and 'f' in out:
            t = self.txt(st, args[0])
            if t in self.lines:
                k = self.kind(st, t)
                if k == 'one':
                    t = T('word', t, I(0))
                else:
                    st.ev('fail', 'parse', ctx.where())
                    return enum(1, T('error', 'parse', I(0)))
            if t[0] == 'str':
                try:
                    float(t[1] if t[1] == t[1].strip() and '_' not in t[1] else 'x')
                except ValueError:
                    return enum(1, T('error', 'parse', I(0)))
                return enum(0, T('num', t, 'const'))
            if not (t[0] == 't' and t[1] == 'word'):
                return NotImplemented
            if self.kind(st, t[2]) in ('HOLE', 'STEINER'):
                return enum(1, T('error', 'parse', I(0)))
            ty = out.split('Result<')[1].split(',')[0]
            if ty not in ('f64', 'f32'):
                return NotImplemented
            if e.truth(st, T('isnum', t)):
                return enum(0, T('num', t, ty))
            return enum(1, T('error', 'parse', I(0)))
        if name in ('trim', 'trim_end', 'trim_start') and 'str' in path:
            return self.trimmed(st, self.txt(st, args[0]))
        if name in ('deref', 'as_str', 'to_string', 'to_owned', 'clone', 'into_string', 'as_ref', 'borrow', 'into_boxed_str') and ('str' in p.ty_s(ctx.atys[0]) or 'String' in p.ty_s(ctx.atys[0])) and ('str' in out or 'String' in out):
            return self.txt(st, args[0])
        if path in ('std::string::String::new', '<std::string::String as std::default::Default>::default', 'std::string::String::with_capacity'):
            return ('str', '')
        if name in ('starts_with', 'ends_with', 'contains') and 'str' in path and args[1][0] in ('str', 'i'):
            t = self.txt(st, args[0])
            if t in self.lines:
                k = self.kind(st, t)
                lit = args[1][1] if args[1][0] == 'str' else chr(args[1][1])
                f = {'starts_with': str.startswith, 'ends_with': str.endswith, 'contains': lambda a_, b_: b_ in a_}[name]
                if k in ('HOLE', 'STEINER'):
                    return I(int(f(k, lit)))
                if k == 'empty':
                    return I(int(lit == ''))
                return T('pat', name, t, ('str', lit))
            if t[0] == 't' and t[1] == 'word' and t[2] in self.lines:
                lit = args[1][1] if args[1][0] == 'str' else chr(args[1][1])
                if self.kind(st, t[2]) in ('HOLE', 'STEINER'):
                    f = {'starts_with': str.startswith, 'ends_with': str.endswith, 'contains': lambda a_, b_: b_ in a_}[name]
                    return I(int(f(self.kind(st, t[2]), lit)))
                return T('pat', name, t, ('str', lit)) if lit else I(1)
            return NotImplemented
        if name == 'eq_ignore_ascii_case' and args[1][0] != 'i':
            x, y = self.txt(st, args[0]), self.txt(st, args[1])
            if x[0] == 'str':
                x, y = y, x
            if y[0] == 'str' and (x in self.lines or x[0] == 't' and x[1] == 'word'):
                k = self.kind(st, x if x in self.lines else x[2])
                if k in ('HOLE', 'STEINER'):
                    return I(int(y[1].upper() == k))
                if k == 'one' or x[0] == 't' and y[1]:
                    return T('pat', name, x, y)
                if x in self.lines and not y[1].split():
                    return self.equals(st, x, y[1])
                return I(0) if x in self.lines and WORDS[k] != len(y[1].split()) else T('pat', name, x, y)
            return NotImplemented
        if 'dyn std::error::Error' in out and 'Result' not in out or out == 'loader::LoaderError' and False:
            return T('err', I(len(st.events)))
        if path.startswith(('std::fmt', 'core::fmt')) or name == 'must_use' or out in ('std::fmt::Arguments<\'_>',):
            return T('fmt', I(len(st.events)))
        return NotImplemented

    def limit(self, st, v):
        """the number of bytes a reader stops after, whatever it has read"""
        v = self.txt(st, v)
        n = 0
        while v[0] == 't' and v[1] in ('limited', 'buffered') and n < 6:
            if v[1] == 'limited' and v[3] != I(2 ** 64 - 1):
                return v[3]
            v = v[2]
            n += 1
        return None

    def is_bytes(self, st, v):
        e = self.e
        v = unref(st, e, v)
        try:
            if v[0] == 'v':
                return e.load_obj(st, v[1]) == ('V', BYTES, ())
            if v[0] == 'r' or v[0] == 'V':
                return v == ('V', BYTES, ())
        except Undecided:
            pass
        return False

    # ------------------------------------------------------- run
    def run(self):
        args, mem = self.e.sym_args(self.f['body'], ['self', 'path'])
        return self.e.run(self.f['body'], args, mem)


def loaders(p):
    """functions that give a builder or a loader error"""
    a = Api(p)
    out = []
    for f in p.fns:
        if not f.get('body') or 'inputs' not in f or len(f['inputs']) < 1:
            continue
        t = p.types[f['output']]
        if t['k'] != 'adt' or t['path'] != 'std::result::Result':
            continue
        ar = [x for x in t.get('args') or [] if isinstance(x, int)]
        if len(ar) == 2 and p.types[ar[0]].get('path') == 'cdt::Builder' and f['path'].endswith('::load'):
            out.append(f)
    if not out:
        raise NoAnchor('loader')
    return a, out


def line_state(L, st):
    """per line: kind or None if never looked at, {word: is a number}"""
    out = []
    for l in L.lines:
        k = st.facts.var.get(T('kind', l))
        nums = {}
        if k is not None:
            for i in range(WORDS[KINDS[k]]):
                nums[i] = st.facts.b.get(T('isnum', T('word', l, I(i))))
        out.append((None if k is None else KINDS[k], nums))
    return out


def spelled(ls):
    return ' / '.join('?' if k is None else k + (' (%s)' % ', '.join('number' if n else 'not a number' if n is False else 'anything' for i, n in sorted(nums.items())) if k in ('one', 'two', 'more') else '') for k, nums in ls) or 'no lines'


def outcomes(c, p, n, judge):
    a, fs = loaders(p)
    for f in fs:
        wh = where(f['span'], f['path'])
        with c.guard('loader', wh):
            L = Loading(a, f, n)
            outs = L.run()
            c.count('functions_analysed', len(L.e.fnseen) + 1)
            c.count('paths', len(outs))
            judge(L, f, wh, outs, L.e.panics)
            if not outs:
                c.bad('loader gives a result', wh, 'no outcome', key='none')


def sizes_():
    return tuple(range(8)) if os.environ.get('VERIF_TIER') == 'thorough' else tuple(range(6))


def lists(L, vals):
    """lists of line numbers, one per list of points among the arguments"""
    a = L.a
    out = []
    for v in vals:
        if v[0] == 'list' and v[1:] and all(x[0] == 'list' for x in v[1:]):
            out.extend([[line_of(L, q) for q in x[1:]] for x in v[1:]])
        elif v[0] == 'list':
            out.append([line_of(L, q) for q in v[1:]])
        elif v[0] == 'a' and len(v[2]) == 2 and not v[2][0][0] == 'list':
            out.append([line_of(L, v)])
        elif v[0] == 'a' and len(v[2]) == 2:
            out.append([line_of(L, q) for q in v[2][0][1:]])
        elif v[0] in ('z', 'u') or v == UNIT:
            continue
        else:
            raise Undecided('argument %s' % show(v)[:100])
    return out


def line_of(L, q):
    """number of the line whose coordinates these are, else what they are"""
    if q[0] != 'a' or len(q[2]) != 2:
        raise Undecided('point %s' % show(q)[:100])
    x, y = q[2][L.a.x], q[2][L.a.y]
    if all(v[0] == 't' and v[1] == 'num' for v in (x, y)):
        wx, wy = x[2], y[2]
        if wx[0] == wy[0] == 't' and wx[2] == wy[2] and (wx[3], wy[3]) == (I(0), I(1)):
            return L.lines.index(wx[2])
    return '(%s, %s)' % (show(x), show(y))


def odd(st):
    """a number of the file was found to be no ordinary one"""
    return any(k_[0] == 't' and k_[1] == 'odd' for k_, v_ in st.facts.b.items())


def c21():
    c = Check('C21', 'Abstract interpretation of the loader on files whose lines range over an abstract domain (section headers, empty and blank lines, lines of one, two or more words, every word a number or not) with every '
              'I/O call, text conversion and number conversion free to fail: on every path a failure or an unparsable line ends in an error value, no path panics, no line is skipped and nothing is read past an error.',
              ['lines have no white space around their words', 'the builder itself rejects a repeated consecutive point by a panic (C08)'])
    p = prog()

    def given(L, st, ls, wh):
        """the builder is given the point of every line that has one"""
        with c.guard('points of the file', wh):
            got = [q for ev in st.events if ev[0] == 'builder' for x in lists(L, ev[3]) for q in x]
            want = [i for i, (k, nums) in enumerate(ls) if k in ('two', 'more') and nums.get(0) and nums.get(1)]
            lost = [i for i in want if i not in got]
            c.expect(not lost, 'no point of the file is silently dropped [%d lines]' % L.n, wh, 'the point of line %s of %s is in no section%s' % (lost[0] if lost else '', spelled(ls), ' when it is no ordinary number' if odd(st) else ''), key='dropped')

    def judge(L, f, wh, outs, panics):
        for st in outs:
            r = st.ret
            if r[0] != 'a':
                c.und('outcome of the loader', wh, 'returns %s' % show(r)[:150])
                continue
            err = r[1] == 1
            ls = line_state(L, st)
            fails = [ev for ev in st.events if ev[0] == 'fail' and ev[1] != 'parse']
            lossy = [ev for ev in st.events if ev[0] == 'lossy']
            if lossy:
                c.bad('text that is not UTF-8 is an error', lossy[0][-1], '%s accepts it' % lossy[0][1], key='lossy')
            if fails:
                c.expect(err, 'a failing %s is an error' % {'io': 'read', 'utf8': 'conversion of the text'}.get(fails[0][1], fails[0][1]), fails[0][-1], 'the loader gives a builder all the same', key='fail:%s' % fails[0][1])
                continue
            cuts = [ev for ev in st.events if ev[0] == 'cut']
            if cuts and not err:
                if any('size[' in show(x) or 'PART' in show(x) for k_ in st.facts.rel for x in (k_ if isinstance(k_, tuple) and k_ and isinstance(k_[0], tuple) else (k_,)) if isinstance(x, tuple)):
                    c.und('the whole file is read', cuts[0][-1], 'length looked at')
                else:
                    c.bad('the whole file is read', cuts[0][-1], 'what a file has behind its first %s bytes is silently left out' % show(cuts[0][1]), key='limit')
                continue
            if err:
                c.ok('error path', wh)
                continue
            given(L, st, ls, wh)
            for i, (k, nums) in enumerate(ls):
                if k is None:
                    c.bad('every line is looked at [%d lines]' % L.n, wh, 'a builder is given without looking at line %d of %s' % (i, spelled(ls)), key='skipped')
                elif k == 'one':
                    c.bad('an incomplete coordinate pair is an error [%d lines]' % L.n, wh, 'line %d of %s is accepted' % (i, spelled(ls)), key='incomplete')
                elif k in ('two', 'more'):
                    for j in (0, 1):
                        c.expect(nums.get(j) is True, 'a coordinate that is not a number is an error [%d lines]' % L.n, wh, 'word %d of line %d of %s is accepted' % (j, i, spelled(ls)), key='number')
                else:
                    c.ok('line', wh)
        seen = set()
        for st in panics:
            pn = st.panic
            ls = line_state(L, st)
            k = (pn[0], pn[1], str(pn[2])[:60])
            if k in seen:
                continue
            seen.add(k)
            c.bad('loading never panics', where(pn[2], pn[3]), '%s panics on %s%s' % (pn[1], spelled(ls), ' after a failed %s' % [ev[1] for ev in st.events if ev[0] == 'fail'][0] if any(ev[0] == 'fail' for ev in st.events) else ''), key='panic:%s' % pn[3])
        if not panics:
            c.ok('loading never panics [%d lines]' % L.n, wh)
    for n in sizes_():
        outcomes(c, p, n, judge)
    return c.finish()


def c22():
    c = Check('C22', 'Abstract interpretation of the loader on files whose lines range over an abstract domain (section headers, empty lines, coordinate lines), with the builder calls recorded: on every path the builder '
              'receives the outline, then the holes in file order, then the steiner points, each list being exactly the points of the lines of its sections, first word x and second word y.',
              ['lines have no white space around their words'])
    p = prog()

    def judge(L, f, wh, outs, panics):
        a = L.a
        for st in outs:
            r = st.ret
            ls = line_state(L, st)
            if any(ev[0] in ('fail', 'lossy') for ev in st.events):
                continue
            if any(k is None or k in ('blank', 'one') or k in ('two', 'more') and (nums.get(0) is False or nums.get(1) is False) for k, nums in ls):
                continue
            if any(k == 'more' for k, _ in ls) and r[0] == 'a' and r[1] == 1:
                continue
            if r[0] != 'a':
                raise Undecided('returns %s' % show(r)[:150])
            nm = '[%d lines]' % L.n
            if r[1] == 1 and odd(st):
                continue        # not a number, or infinite, is refused
            if r[1] == 1:
                c.bad('a well-formed file is loaded %s' % nm, wh, 'error for %s' % spelled(ls), key='refused')
                continue
            # what the file says
            outline, holes, steiner, cur = [], [], [], None
            cur = outline
            for i, (k, nums) in enumerate(ls):
                if k == 'HOLE':
                    cur = []
                    holes.append(cur)
                elif k == 'STEINER':
                    cur = steiner
                elif k in ('two', 'more'):
                    cur.append(i)
            # what the builder is told
            ops, chain = [], None
            bad = None
            for ev in st.events:
                if ev[0] != 'builder':
                    continue
                name, prev, vals, b, w = ev[1:6]
                if prev != chain and not (prev is None):
                    bad = 'the builder given to %s is not the one made before' % name
                if prev is None:
                    ops = []
                chain = b
                ops.append((name, vals, w))
            got_o, got_h, got_s = [], [], []
            stage, order = 0, True
            for name, vals, w in ops:
                pts = lists(L, vals)
                if name == 'new':
                    if got_o:
                        bad = 'two outlines'
                    got_o = pts[0]
                elif name in ('add_hole', 'add_holes'):
                    order &= stage <= 1 or not any(pts)
                    stage = max(stage, 1) if any(pts) else stage
                    got_h.extend(pts)
                else:
                    stage = 2 if any(pts) else stage
                    for q in pts:
                        got_s.extend(q)
            sp = spelled(ls)
            if bad or r[2][0] != chain:
                c.bad('the builder given back has received all sections %s' % nm, wh, bad or 'gives %s' % show(r[2][0])[:100], key='chain')
                continue
            c.expect(got_o == outline, 'coordinates before any header form the outline %s' % nm, wh, 'for %s the outline has the points of lines %s' % (sp, told(got_o)), key='outline')
            c.expect([h for h in got_h if h] == [h for h in holes if h], 'coordinates after a HOLE header form that hole %s' % nm, wh, 'for %s the holes have the points of lines %s' % (sp, [told(h) for h in got_h]), key='holes')
            c.expect(got_s == steiner, 'coordinates after a STEINER header are steiner points %s' % nm, wh, 'for %s the steiner points are those of lines %s' % (sp, told(got_s)), key='steiner')
            c.expect(order, 'the builder receives the holes before the steiner points %s' % nm, wh, 'for %s steiner points come first' % sp, key='order')
        if panics:
            for st in panics:
                ls = line_state(L, st)
                if any(ev[0] == 'fail' for ev in st.events) or any(k in (None, 'blank', 'one') or k in ('two', 'more') and not (nums.get(0) and nums.get(1)) for k, nums in ls):
                    continue
                c.bad('a well-formed file is loaded [%d lines]' % L.n, where(st.panic[2], st.panic[3]), 'panic for %s' % spelled(ls), key='refused')

    def told(x):
        return ', '.join(map(str, x)) or 'none'
    for n in sizes_():
        outcomes(c, p, n, judge)
    return c.finish()


CHECKS = {'C21': c21, 'C22': c22}
