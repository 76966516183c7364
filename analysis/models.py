"""Abstract transfer functions of the std routines the library calls.

Each model states the documented behaviour of one std routine in terms of the engine's
value domain.  std routines with a MIR body that is made of ordinary code (Option, Result,
iterator adaptors, comparisons) are not modelled: their real bodies are analysed.
"""
from engine import *


def _m(*paths):
    def deco(f):
        for p in paths:
            MODELS[p] = f
        return f
    return deco


MODELS = {}


# ------------------------------------------------------------- small helpers
def elem_ref(e, st, ref, idx):
    """reference to element idx of the sequence `ref` points to"""
    if ref[0] == 'r':
        obj, proj = ref[1], ref[2]
        if not proj and obj[0] != 'SL':
            c = e.load_obj(st, obj)
            if c[0] == 'v':
                obj = c[1]
        o, p = e.elem_place(st, obj, proj, st.facts.find(idx))
        return ('r', o, p)
    if is_term(ref):
        o, p = e.elem_place(st, ('D', st.facts.find(ref)), (), st.facts.find(idx))
        return ('r', o, p)
    raise Undecided('element ref of %s' % ref[0])


def seq_ref(e, st, ref, ty=None):
    """slice reference for a &Vec / &[T] / &[T;N] reference"""
    if ty is not None:
        t = e.p.types[e.p.deref_ty(ty)]
        if t['k'] == 'adt' and t['path'] == 'std::vec::Vec':
            return vec_slice(e, st, ref)
        if t['k'] == 'array':
            ref = e.array_slice(st, ref, e.p.deref_ty(ty))
    if ref[0] == 'r' and ref[1][0] == 'SL' and not ref[2]:
        return ref
    obj, proj = e.as_ref(st, ref)
    if obj[0] == 'SL' and not proj:
        return ('r', obj, ())
    v = e.read(st, obj, proj)
    if v[0] == 'v':
        return ('r', v[1], ())
    if v[0] in ('V', 'a'):
        return ('r', obj, proj)
    if is_term(v):
        return ('r', obj, proj)
    raise Undecided('seq of %s' % v[0])


def vec_slice(e, st, ref):
    """&Vec -> slice reference to its heap object"""
    obj, proj = e.as_ref(st, ref)
    v = e.read(st, obj, proj)
    if v[0] == 'V':
        return ('r', obj, ())
    return ('r', e.vec_obj(st, v), ())


def seq_len(e, st, ref):
    n = e.seq_of(st, ref)[3]
    return st.facts.find(n) if n[0] != 'i' else n


def freeze(e, st, obj):
    """a base term standing for the current content of a vector object"""
    c = e.load_obj(st, obj)
    if is_term(c):
        c = ('V', c, ())
    if c[0] == 'a':
        return T('vecof', None, *c[2])
    base, tail = c[1], c[2]
    w = st.mem.get(('W', obj), ())
    for i in w:
        base = T('vset', base, i, e.load_obj(st, ('E', obj, i)))
    if tail or base is None:
        return T('vecof', base, *tail)
    return base


def thaw(base):
    """content value for a base term"""
    if base[0] == 't' and base[1] == 'vecof':
        return ('V', base[2], tuple(base[3:]))
    return ('V', base, ())


def mk_iter(kind, obj, pos, end):
    return ('a', 0, (('itk', kind, obj), pos, end))


def range_bounds(e, st, v, ty, n):
    """(start, end) of a range value"""
    p = e.p.types[ty]['path'] if e.p.types[ty]['k'] == 'adt' else ''
    f = lambda i, k: e.scal(e.proj_get(st, v, ('f', 0, i, k)))
    if p == 'std::ops::Range':
        return f(0, 2), f(1, 2)
    if p == 'std::ops::RangeTo':
        return I(0), f(0, 1)
    if p == 'std::ops::RangeFrom':
        return f(0, 1), n
    if p == 'std::ops::RangeFull':
        return I(0), n
    if p == 'std::ops::RangeInclusive':
        return f(0, 3), lin_add(f(1, 3), I(1))
    if p == 'std::ops::RangeToInclusive':
        return I(0), lin_add(f(0, 1), I(1))
    return None


def sub_slice(e, st, ref, lo, hi):
    ref = seq_ref(e, st, ref)
    obj, proj = ref[1], ref[2]
    ln = lin_add(hi, lo, -1)
    if obj[0] == 'SL' and not proj:
        return ('r', ('SL', obj[1], lin_add(obj[2], lo), ln), ())
    if proj:
        return ('r', ('SL', ('RP', obj, proj), lo, ln), ())
    return ('r', ('SL', obj, lo, ln), ())


def is_idx(e, ctx, k=1):
    t = e.p.types[ctx.atys[k]]
    return t['k'] == 'uint'


# ------------------------------------------------------------- slices
@_m('core::slice::<impl [T]>::get', 'core::slice::<impl [T]>::get_mut')
def slice_get(ctx):
    e, st = ctx.e, ctx.st
    ref = seq_ref(e, st, ctx.args[0], ctx.atys[0])
    n = seq_len(e, st, ref)
    if is_idx(e, ctx):
        i = e.scal(ctx.args[1])
        if below(e, st, ref, i, n):
            return some(elem_ref(e, st, ref, i))
        return NONE
    b = range_bounds(e, st, ctx.args[1], ctx.atys[1], n)
    if b is None:
        return NotImplemented
    if e.rel(st, b[0], b[1], LT | EQ) and e.rel(st, b[1], n, LT | EQ):
        return some(sub_slice(e, st, ref, *b))
    return NONE


@_m('core::slice::<impl [T]>::get_unchecked', 'core::slice::<impl [T]>::get_unchecked_mut')
def slice_get_unchecked(ctx):
    e, st = ctx.e, ctx.st
    ref = seq_ref(e, st, ctx.args[0], ctx.atys[0])
    if not is_idx(e, ctx):
        return NotImplemented
    if e.on_unchecked is not None:
        e.on_unchecked(ctx, ref, e.scal(ctx.args[1]), seq_len(e, st, ref))
    return elem_ref(e, st, ref, e.scal(ctx.args[1]))


def below(e, st, ref, i, n):
    """i < n; within a part of a sequence, compared as positions of the whole sequence"""
    if i[0] == 'i' and i[1] >= 1 << 63:
        return False  # no allocation is that long
    if ref[0] == 'r' and ref[1][0] == 'SL' and not ref[2]:
        lo = ref[1][2]
        return e.rel(st, lin_add(i, lo), lin_add(lo, n), LT)
    return e.rel(st, i, n, LT)


def in_range(st, i):
    """an index that passed its check is not a difference that wrapped"""
    m, k = lin_parts(i)
    if k >= 0 and all(v > 0 for v in m.values()):
        return True
    return bool(st.facts.assume(I(0), i, LT | EQ))


@_m('std::vec::Vec::<T, A>::index', 'core::slice::index::<impl std::ops::Index<I> for [T]>::index',
    'core::slice::index::<impl std::ops::IndexMut<I> for [T]>::index_mut',
    '<std::vec::Vec<T, A> as std::ops::Index<I>>::index',
    '<std::vec::Vec<T, A> as std::ops::IndexMut<I>>::index_mut')
def slice_index(ctx):
    e, st = ctx.e, ctx.st
    ref = seq_ref(e, st, ctx.args[0], ctx.atys[0])
    n = seq_len(e, st, ref)
    if is_idx(e, ctx):
        i = e.scal(ctx.args[1])
        if below(e, st, ref, i, n) and in_range(st, i):
            return elem_ref(e, st, ref, i)
        st.panic = ('index', ctx.path, ctx.sp, ctx.fr.body['path'])
        return 'panic'
    b = range_bounds(e, st, ctx.args[1], ctx.atys[1], n)
    if b is None:
        return NotImplemented
    if e.rel(st, b[0], b[1], LT | EQ) and e.rel(st, b[1], n, LT | EQ):
        return sub_slice(e, st, ref, *b)
    st.panic = ('index', ctx.path, ctx.sp, ctx.fr.body['path'])
    return 'panic'


@_m('core::slice::<impl [T]>::iter', 'core::slice::<impl [T]>::iter_mut',
    'std::array::<impl std::iter::IntoIterator for &\'a [T; N]>::into_iter',
    'std::array::<impl std::iter::IntoIterator for &\'a mut [T; N]>::into_iter',
    'core::slice::iter::<impl std::iter::IntoIterator for &\'a [T]>::into_iter',
    'core::slice::iter::<impl std::iter::IntoIterator for &\'a mut [T]>::into_iter',
    '<&\'a std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter',
    '<&\'a mut std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter')
def slice_iter(ctx):
    e, st = ctx.e, ctx.st
    ref = seq_ref(e, st, ctx.args[0], ctx.atys[0])
    return mk_iter('ref', ref, I(0), seq_len(e, st, ref))


def it_parts(e, st, itref):
    obj, proj = e.as_ref(st, itref)
    v = e.read(st, obj, proj)
    if v[0] != 'a' or len(v[2]) != 3 or v[2][0][0] != 'itk':
        return None
    return obj, proj, v


def it_elem(e, st, itk, pos):
    kind, seq = itk[1], itk[2]
    if kind == 'ref':
        return elem_ref(e, st, seq, pos)
    if kind[0] == 'win':
        return sub_slice(e, st, seq, pos, lin_add(pos, I(kind[1])))
    # moved out
    if seq[0] == 'r' and seq[1][0] == 'SL':
        raise Undecided('move out of subslice')
    return e.read(st, *e.as_ref(st, elem_ref(e, st, seq, pos)))


@_m("<std::slice::Iter<'a, T> as std::iter::Iterator>::next", "<std::slice::IterMut<'a, T> as std::iter::Iterator>::next",
    "<std::vec::IntoIter<T, A> as std::iter::Iterator>::next", "<std::vec::Drain<'_, T, A> as std::iter::Iterator>::next",
    "<std::array::IntoIter<T, N> as std::iter::Iterator>::next", "<std::slice::Windows<'a, T> as std::iter::Iterator>::next")
def it_next(ctx):
    e, st = ctx.e, ctx.st
    p = it_parts(e, st, ctx.args[0])
    if p is None:
        return NotImplemented
    obj, proj, v = p
    itk, pos, end = v[2]
    m = st.facts.mask(pos, end, e) & (LT | EQ)
    if m == LT:
        more = True
    elif m == EQ or m == 0:
        more = False
    else:
        raise Split([lambda f: f.assume(pos, end, LT), lambda f: f.assume(pos, end, EQ)], ('it', pos, end))
    if not more:
        return NONE
    x = it_elem(e, st, itk, pos)
    e.write(st, obj, proj, ('a', 0, (itk, lin_add(pos, I(1)), end)))
    return some(x)


@_m("<std::slice::Windows<'a, T> as std::iter::DoubleEndedIterator>::next_back", "<std::slice::IterMut<'a, T> as std::iter::DoubleEndedIterator>::next_back",
    "<std::array::IntoIter<T, N> as std::iter::DoubleEndedIterator>::next_back", "<std::slice::Iter<'a, T> as std::iter::DoubleEndedIterator>::next_back", "<std::vec::IntoIter<T, A> as std::iter::DoubleEndedIterator>::next_back")
def it_next_back(ctx):
    e, st = ctx.e, ctx.st
    p = it_parts(e, st, ctx.args[0])
    if p is None:
        return NotImplemented
    obj, proj, v = p
    itk, pos, end = v[2]
    m = st.facts.mask(pos, end, e) & (LT | EQ)
    if m == EQ or m == 0:
        return NONE
    if m != LT:
        raise Split([lambda f: f.assume(pos, end, LT), lambda f: f.assume(pos, end, EQ)], ('it', pos, end))
    end = lin_add(end, I(-1))
    x = it_elem(e, st, itk, end)
    e.write(st, obj, proj, ('a', 0, (itk, pos, end)))
    return some(x)


def _nth(ctx):
    e, st = ctx.e, ctx.st
    p = it_parts(e, st, ctx.args[0])
    if p is None:
        return NotImplemented
    obj, proj, v = p
    itk, pos, end = v[2]
    tgt = lin_add(pos, e.scal(ctx.args[1]))
    if e.rel(st, tgt, end, LT):
        x = it_elem(e, st, itk, tgt)
        e.write(st, obj, proj, ('a', 0, (itk, lin_add(tgt, I(1)), end)))
        return some(x)
    e.write(st, obj, proj, ('a', 0, (itk, end, end)))
    return NONE


@_m("<std::slice::Iter<'a, T> as std::iter::Iterator>::nth", "std::iter::Iterator::nth")
def it_nth(ctx):
    return _nth(ctx)


@_m("std::iter::Iterator::advance_by", "<std::slice::Iter<'a, T> as std::iter::Iterator>::advance_by")
def it_advance(ctx):
    return NotImplemented


@_m("<std::slice::Iter<'a, T> as std::iter::Iterator>::size_hint", "<std::slice::Iter<'a, T> as std::iter::ExactSizeIterator>::len",
    "std::iter::ExactSizeIterator::len")
def it_size(ctx):
    e, st = ctx.e, ctx.st
    p = it_parts(e, st, ctx.args[0])
    if p is None:
        return NotImplemented
    _, _, v = p
    n = lin_add(v[2][2], v[2][1], -1)
    if ctx.path.endswith('len'):
        return n
    return agg(n, some(n))


def _zip_next(ctx):
    """Zip of two slice iterators: both step together, ends with the shorter"""
    e, st = ctx.e, ctx.st
    obj, proj = e.as_ref(st, ctx.args[0])
    v = e.read(st, obj, proj)
    # Zip { a, b, index, len }
    if v[0] != 'a' or len(v[2]) != 4:
        return NotImplemented
    a, b, idx, ln = v[2]
    ok = all(x[0] == 'a' and len(x[2]) == 3 and x[2][0][0] == 'itk' for x in (a, b))
    if not ok:
        return NotImplemented
    if e.rel(st, idx, ln, LT):
        x = it_elem(e, st, a[2][0], lin_add(a[2][1], idx))
        y = it_elem(e, st, b[2][0], lin_add(b[2][1], idx))
        e.write(st, obj, proj, ('a', 0, (a, b, lin_add(idx, I(1)), ln)))
        return some(agg(x, y))
    return NONE


@_m('std::iter::range::<impl std::iter::Iterator for std::ops::Range<A>>::next')
def range_next(ctx):
    e, st = ctx.e, ctx.st
    obj, proj = e.as_ref(st, ctx.args[0])
    v = e.read(st, obj, proj)
    a = e.scal(e.proj_get(st, v, ('f', 0, 0, 2)))
    b = e.scal(e.proj_get(st, v, ('f', 0, 1, 2)))
    if e.rel(st, a, b, LT):
        e.write(st, obj, proj, ('a', 0, (lin_add(a, I(1)), b)))
        return some(a)
    return NONE


@_m('std::iter::range::<impl std::iter::DoubleEndedIterator for std::ops::Range<A>>::next_back')
def range_next_back(ctx):
    e, st = ctx.e, ctx.st
    obj, proj = e.as_ref(st, ctx.args[0])
    v = e.read(st, obj, proj)
    a = e.scal(e.proj_get(st, v, ('f', 0, 0, 2)))
    b = e.scal(e.proj_get(st, v, ('f', 0, 1, 2)))
    if e.rel(st, a, b, LT):
        nb = lin_add(b, I(-1))
        e.write(st, obj, proj, ('a', 0, (a, nb)))
        return some(nb)
    return NONE


@_m('core::slice::<impl [T]>::last_mut', 'core::slice::<impl [T]>::last', 'core::slice::<impl [T]>::first', 'core::slice::<impl [T]>::first_mut')
def slice_last(ctx):
    e, st = ctx.e, ctx.st
    ref = seq_ref(e, st, ctx.args[0], ctx.atys[0])
    n = seq_len(e, st, ref)
    if e.rel(st, I(0), n, LT):
        return some(elem_ref(e, st, ref, I(0) if 'first' in ctx.path else lin_add(n, I(-1))))
    return NONE


@_m('core::slice::<impl [T]>::len', 'std::vec::Vec::<T, A>::len')
def vec_len_m(ctx):
    return seq_len(ctx.e, ctx.st, seq_ref(ctx.e, ctx.st, ctx.args[0], ctx.atys[0]))


@_m('std::vec::Vec::<T, A>::capacity')
def vec_capacity(ctx):
    """any number that is not less than the number of elements"""
    n = seq_len(ctx.e, ctx.st, seq_ref(ctx.e, ctx.st, ctx.args[0], ctx.atys[0]))
    c = ctx.e.fresh(ctx.st, 'capacity')
    ctx.st.facts.assume(n, c, LT | EQ)
    return c


@_m('core::slice::<impl [T]>::is_empty', 'std::vec::Vec::<T, A>::is_empty')
def vec_is_empty(ctx):
    n = seq_len(ctx.e, ctx.st, seq_ref(ctx.e, ctx.st, ctx.args[0], ctx.atys[0]))
    return I(int(ctx.e.eq(ctx.st, n, I(0))))


@_m('std::slice::<impl [T]>::sort_by', 'core::slice::<impl [T]>::sort_unstable_by_key', 'core::slice::<impl [T]>::sort_unstable_by',
    'std::slice::<impl [T]>::sort_by_key', 'std::slice::<impl [T]>::sort', 'core::slice::<impl [T]>::sort_unstable')
def slice_sort(ctx):
    e, st = ctx.e, ctx.st
    ref = seq_ref(e, st, ctx.args[0], ctx.atys[0])
    if ref[2] or ref[1][0] == 'SL':
        raise Undecided('sort of part')
    base = freeze(e, st, ref[1])
    cl = e.p.types[ctx.atys[1]]['s'] if len(ctx.atys) > 1 else ''
    if e.on_sort is not None:
        e.on_sort(ctx, ref, base)
    meth = ctx.path.split('::')[-1]
    e.set_vec(st, ref[1], ('V', T('sorted', meth, S('cmp:%d' % ctx.atys[1] if len(ctx.atys) > 1 else 'cmp'), base), ()))
    return UNIT


@_m('core::slice::<impl [T]>::binary_search_by_key')
def bsearch(ctx):
    """spec: Ok(i) => key(elem i) == key;  Err(i) => place where it would be"""
    e, st = ctx.e, ctx.st
    key = ('pend', ctx.fr.fid, ctx.fr.bb)
    if key in st.aux:
        return st.aux.pop(key)
    ref = seq_ref(e, st, ctx.args[0], ctx.atys[0])
    n = seq_len(e, st, ref)
    kobj, kproj = e.as_ref(st, ctx.args[1])
    kv = e.read(st, kobj, kproj)
    st.nfid += 1
    tag = st.nfid
    outs = []
    # found
    s = st.copy()
    i = S('bs#%d' % tag)
    if s.facts.assume(i, n, LT):
        for (s2, val) in e.sub_call(s, ctx, ctx.args[2], ctx.atys[2], [elem_ref(e, s, ref, i)]):
            for s3 in e.assume_eq(s2, val, kv):
                s3.aux[key] = enum(0, i)
                s3.ev('bsearch', 'ok', ref, kv, i, n, ctx.where())
                outs.append(s3)
    s = st.copy()
    if s.facts.assume(i, n, LT | EQ):
        s.aux[key] = enum(1, i)
        s.ev('bsearch', 'err', ref, kv, i, n, ctx.where())
        outs.append(s)
    return ('enter', ('states', outs))


# ------------------------------------------------------------- Vec
@_m('std::vec::Vec::<T>::new', 'std::vec::Vec::<T>::with_capacity', '<std::vec::Vec<T> as std::default::Default>::default')
def vec_new(ctx):
    return ctx.e.new_vec(ctx.st)


@_m('<std::vec::Vec<T, A> as std::ops::Deref>::deref', '<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut',
    'std::vec::Vec::<T, A>::as_slice', 'std::vec::Vec::<T, A>::as_mut_slice')
def vec_deref(ctx):
    return vec_slice(ctx.e, ctx.st, ctx.args[0])


@_m('std::vec::Vec::<T, A>::as_mut_ptr', 'std::vec::Vec::<T, A>::as_ptr', 'core::slice::<impl [T]>::as_ptr', 'core::slice::<impl [T]>::as_mut_ptr')
def vec_ptr(ctx):
    r = vec_slice(ctx.e, ctx.st, ctx.args[0]) if 'vec' in ctx.path else seq_ref(ctx.e, ctx.st, ctx.args[0], ctx.atys[0])
    return elem_ref(ctx.e, ctx.st, r, I(0))


@_m('std::ptr::mut_ptr::<impl *mut T>::add', 'std::ptr::const_ptr::<impl *const T>::add')
def ptr_add_m(ctx):
    r = ctx.e.ptr_add(ctx.st, ctx.args[0], ctx.e.scal(ctx.args[1]))
    if ctx.e.on_unchecked is not None:
        obj = r[1]
        ctx.e.on_unchecked(ctx, ('r', obj[1], ()), obj[2], seq_len(ctx.e, ctx.st, ('r', obj[1], ())))
    return r


def vobj(ctx, k=0):
    return vec_slice(ctx.e, ctx.st, ctx.args[k])[1]


@_m('std::vec::Vec::<T, A>::push')
def vec_push_m(ctx):
    o = vobj(ctx)
    if ctx.e.on_push is not None:
        ctx.e.on_push(ctx, o, ctx.args[1])
    ctx.e.vec_push(ctx.st, o, ctx.args[1])
    return UNIT


@_m('std::vec::Vec::<T, A>::pop')
def vec_pop(ctx):
    e, st = ctx.e, ctx.st
    o = vobj(ctx)
    c = e.load_obj(st, o)
    if is_term(c):
        c = ('V', c, ())
    if c[2]:
        e.store_obj(st, o, ('V', c[1], c[2][:-1]))
        return some(c[2][-1])
    if c[1] is None:
        return NONE
    n = st.facts.find(base_len(c[1])) if base_len(c[1])[0] != 'i' else base_len(c[1])
    if e.rel(st, I(0), n, LT):
        i = lin_add(n, I(-1))
        x = e.load_obj(st, ('E', o, i))
        b = freeze(e, st, o)
        e.set_vec(st, o, ('V', T('rem', b, i), ()))
        return some(x)
    return NONE


@_m('std::vec::Vec::<T, A>::insert')
def vec_insert(ctx):
    e, st = ctx.e, ctx.st
    o = vobj(ctx)
    i = e.scal(ctx.args[1])
    i = st.facts.find(i) if is_term(i) else i
    n = seq_len(e, st, ('r', o, ()))
    if not e.rel(st, i, n, LT | EQ):
        st.panic = ('insert', ctx.path, ctx.sp, ctx.fr.body['path'])
        return 'panic'
    c = e.load_obj(st, o)
    if c[0] == 'V' and c[1] is None and i[0] == 'i':
        t = list(c[2])
        t.insert(i[1], ctx.args[2])
        e.set_vec(st, o, ('V', None, tuple(t)))
        return UNIT
    b = freeze(e, st, o)
    if e.on_seqop is not None:
        e.on_seqop(ctx, o, 'ins', i, ctx.args[2])
    e.set_vec(st, o, ('V', T('ins', b, i, ctx.args[2]), ()))
    return UNIT


@_m('std::vec::Vec::<T, A>::remove')
def vec_remove(ctx):
    e, st = ctx.e, ctx.st
    o = vobj(ctx)
    i = e.scal(ctx.args[1])
    i = st.facts.find(i) if is_term(i) else i
    n = seq_len(e, st, ('r', o, ()))
    if not e.rel(st, i, n, LT):
        st.panic = ('remove', ctx.path, ctx.sp, ctx.fr.body['path'])
        return 'panic'
    c = e.load_obj(st, o)
    if c[0] == 'V' and c[1] is None and i[0] == 'i':
        t = list(c[2])
        x = t.pop(i[1])
        e.set_vec(st, o, ('V', None, tuple(t)))
        return x
    x = e.load_obj(st, ('E', o, i))
    b = freeze(e, st, o)
    if e.on_seqop is not None:
        e.on_seqop(ctx, o, 'rem', i, x)
    e.set_vec(st, o, ('V', T('rem', b, i), ()))
    return x


@_m('std::vec::Vec::<T, A>::resize')
def vec_resize(ctx):
    e, st = ctx.e, ctx.st
    o = vobj(ctx)
    c = e.load_obj(st, o)
    n = e.scal(ctx.args[1])
    if c[0] == 'V' and c[1] is None and not c[2]:
        e.set_vec(st, o, ('V', T('filled', n, ctx.args[2]), ()))
        return UNIT
    ln = seq_len(e, st, ('r', o, ()))
    e.set_vec(st, o, ('V', T('resized', freeze(e, st, o), n, ctx.args[2]), ()))
    return UNIT


@_m('std::vec::from_elem')
def from_elem(ctx):
    return ctx.e.new_vec(ctx.st, T('filled', ctx.e.scal(ctx.args[1]), ctx.args[0]))


@_m('std::vec::Vec::<T, A>::clear')
def vec_clear(ctx):
    o = vobj(ctx)
    ctx.e.set_vec(ctx.st, o, ('V', None, ()))
    return UNIT


@_m('std::vec::Vec::<T, A>::truncate')
def vec_truncate(ctx):
    e, st = ctx.e, ctx.st
    o = vobj(ctx)
    n = e.scal(ctx.args[1])
    ln = seq_len(e, st, ('r', o, ()))
    if e.rel(st, n, ln, LT):
        e.set_vec(st, o, ('V', T('trunc', freeze(e, st, o), n), ()))
    return UNIT


@_m('std::vec::Vec::<T, A>::reserve', 'std::vec::Vec::<T, A>::shrink_to_fit', 'std::vec::Vec::<T, A>::reserve_exact')
def vec_noop(ctx):
    return UNIT


@_m('<std::vec::Vec<T, A> as std::clone::Clone>::clone', 'std::slice::<impl [T]>::to_vec')
def vec_clone(ctx):
    e, st = ctx.e, ctx.st
    r = seq_ref(e, st, ctx.args[0], ctx.atys[0])
    if r[2] or r[1][0] == 'SL':
        raise Undecided('clone of part')
    c = thaw(freeze(e, st, r[1]))
    return e.new_vec(st, c[1], c[2])


@_m('std::vec::Vec::<T, A>::drain')
def vec_drain(ctx):
    e, st = ctx.e, ctx.st
    o = vobj(ctx)
    if e.p.types[ctx.atys[1]].get('path') != 'std::ops::RangeFull':
        return NotImplemented
    c = thaw(freeze(e, st, o))
    e.set_vec(st, o, ('V', None, ()))
    v = e.new_vec(st, c[1], c[2])
    return mk_iter('move', ('r', v[1], ()), I(0), seq_len(e, st, ('r', v[1], ())))


@_m('<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter', 'std::array::iter::<impl std::iter::IntoIterator for [T; N]>::into_iter')
def vec_into_iter(ctx):
    e, st = ctx.e, ctx.st
    v = ctx.args[0]
    if is_term(v) and e.p.types[ctx.atys[0]]['k'] == 'array':
        v = ('a', 0, tuple(array_items(e, st, v, ctx.atys[0])))
    if v[0] == 'a':
        nv = e.new_vec(st, None, v[2])
        return mk_iter('move', ('r', nv[1], ()), I(0), I(len(v[2])))
    o = e.vec_obj(st, v)
    return mk_iter('move', ('r', o, ()), I(0), seq_len(e, st, ('r', o, ())))


@_m('std::vec::Vec::<T, A>::append')
def vec_append(ctx):
    e, st = ctx.e, ctx.st
    o, o2 = vobj(ctx), vobj(ctx, 1)
    c2 = e.load_obj(st, o2)
    c = e.load_obj(st, o)
    if c2[0] == 'V' and c2[1] is None:
        for x in c2[2]:
            e.vec_push(st, o, x)
    elif c[0] == 'V' and c[1] is None and not c[2]:
        cc = thaw(freeze(e, st, o2))
        e.set_vec(st, o, cc)
    else:
        e.set_vec(st, o, ('V', T('concat', freeze(e, st, o), freeze(e, st, o2)), ()))
    e.set_vec(st, o2, ('V', None, ()))
    return UNIT


def pending(ctx, make):
    """models that run closures: make() -> [(state, value)]; the call is repeated in each state and finds its value"""
    key = ('pend', ctx.fr.fid, ctx.fr.bb)
    if key in ctx.st.aux:
        return ctx.st.aux.pop(key)
    outs = []
    for s, v in make():
        s.aux[key] = v
        outs.append(s)
    return ('enter', ('states', outs))


def array_items(e, st, v, ty):
    t = e.p.types[ty]
    if v[0] == 'a':
        return list(v[2])
    n = t.get('len') if t['k'] == 'array' else None
    if not isinstance(n, int) or n > 64:
        raise Undecided('array of unknown length')
    return [e.proj_get(st, v, ('f', 0, i, None)) for i in range(n)]


@_m('std::array::<impl [T; N]>::map')
def array_map(ctx):
    e, st = ctx.e, ctx.st

    def make():
        cur = [(st.copy(), ())]
        for x in array_items(e, st, ctx.args[0], ctx.atys[0]):
            nxt = []
            for s, vals in cur:
                for s2, v in e.sub_call(s, ctx, ctx.args[1], ctx.atys[1], [x]):
                    nxt.append((s2, vals + (v,)))
            cur = nxt
        return [(s, ('a', 0, vals)) for s, vals in cur]
    return pending(ctx, make)


@_m('std::vec::Vec::<T, A>::retain')
def vec_retain(ctx):
    e, st = ctx.e, ctx.st
    o = vobj(ctx)
    c = e.load_obj(st, o)
    if ('pend', ctx.fr.fid, ctx.fr.bb) not in st.aux and (c[0] != 'V' or c[1] is not None or st.mem.get(('W', o))):
        return NotImplemented

    def make():
        cur = [(st.copy(), ())]
        for x in c[2]:
            nxt = []
            for s, keep in cur:
                h = ('H', 'rt%d' % s.nfid)
                s.nfid += 1
                s.mem[h] = x
                for s2, v in e.sub_call(s, ctx, ctx.args[1], ctx.atys[1], [('r', h, ())]):
                    for val in (True, False):
                        s3 = s2.copy()
                        if v[0] == 'i':
                            if bool(v[1]) != val:
                                continue
                        elif is_term(v):
                            f = s3.facts.find(v)
                            if s3.facts.b.get(f, val) != val:
                                continue
                            s3.facts.b[f] = val
                        else:
                            raise Undecided('condition of retain')
                        nxt.append((s3, keep + ((x,) if val else ())))
            cur = nxt
        for s, keep in cur:
            e.set_vec(s, o, ('V', None, keep))
        return [(s, UNIT) for s, _ in cur]
    return pending(ctx, make)


@_m('core::slice::<impl [T]>::split_at', 'core::slice::<impl [T]>::split_at_mut')
def split_at(ctx):
    e, st = ctx.e, ctx.st
    ref = seq_ref(e, st, ctx.args[0], ctx.atys[0])
    n, k = seq_len(e, st, ref), e.scal(ctx.args[1])
    if e.rel(st, n, k, LT):
        st.panic = ('index', ctx.path, ctx.sp, ctx.fr.body['path'])
        return 'panic'
    return agg(sub_slice(e, st, ref, I(0), k), sub_slice(e, st, ref, k, n))


@_m('core::slice::<impl [T]>::split_first', 'core::slice::<impl [T]>::split_last', 'core::slice::<impl [T]>::split_first_mut', 'core::slice::<impl [T]>::split_last_mut')
def split_end(ctx):
    e, st = ctx.e, ctx.st
    ref = seq_ref(e, st, ctx.args[0], ctx.atys[0])
    n = seq_len(e, st, ref)
    if not e.rel(st, I(0), n, LT):
        return NONE
    if 'first' in ctx.path:
        return some(agg(elem_ref(e, st, ref, I(0)), sub_slice(e, st, ref, I(1), n)))
    m = lin_add(n, I(-1))
    return some(agg(elem_ref(e, st, ref, m), sub_slice(e, st, ref, I(0), m)))


@_m('core::slice::<impl [T]>::windows')
def windows(ctx):
    e, st = ctx.e, ctx.st
    ref = seq_ref(e, st, ctx.args[0], ctx.atys[0])
    w = e.scal(ctx.args[1])
    if w[0] != 'i' or w[1] < 1:
        return NotImplemented
    n = seq_len(e, st, ref)
    last = lin_add(n, I(1 - w[1]))
    if e.rel(st, n, w, LT):
        last = I(0)
    return mk_iter(('win', w[1]), ref, I(0), last)


@_m('core::slice::<impl [T]>::swap')
def slice_swap(ctx):
    e, st = ctx.e, ctx.st
    ref = seq_ref(e, st, ctx.args[0], ctx.atys[0])
    n = seq_len(e, st, ref)
    i, j = e.scal(ctx.args[1]), e.scal(ctx.args[2])
    if not (e.rel(st, i, n, LT) and e.rel(st, j, n, LT)):
        st.panic = ('index', ctx.path, ctx.sp, ctx.fr.body['path'])
        return 'panic'
    ri, rj = elem_ref(e, st, ref, i), elem_ref(e, st, ref, j)
    a, b = e.read(st, ri[1], ri[2]), e.read(st, rj[1], rj[2])
    e.write(st, ri[1], ri[2], b)
    e.write(st, rj[1], rj[2], a)
    return UNIT


@_m('core::slice::<impl [T]>::reverse')
def slice_reverse(ctx):
    e, st = ctx.e, ctx.st
    ref = seq_ref(e, st, ctx.args[0], ctx.atys[0])
    if ref[2] or ref[1][0] == 'SL':
        return NotImplemented
    c = e.load_obj(st, ref[1])
    if c[0] == 'V' and c[1] is None and not st.mem.get(('W', ref[1])):
        e.set_vec(st, ref[1], ('V', None, tuple(reversed(c[2]))))
        return UNIT
    return NotImplemented


@_m('core::slice::<impl [T]>::contains')
def slice_contains(ctx):
    e, st = ctx.e, ctx.st
    r = seq_ref(e, st, ctx.args[0], ctx.atys[0])
    return T('contains', e.snap(st, r), e.snap(st, ctx.args[1]))


# ------------------------------------------------------------- mem, num, misc
@_m('std::mem::replace')
def mem_replace(ctx):
    e, st = ctx.e, ctx.st
    o, p = e.as_ref(st, ctx.args[0])
    v = e.read(st, o, p)
    e.write(st, o, p, ctx.args[1])
    return v


@_m('std::mem::swap')
def mem_swap(ctx):
    e, st = ctx.e, ctx.st
    o, p = e.as_ref(st, ctx.args[0])
    o2, p2 = e.as_ref(st, ctx.args[1])
    v, w = e.read(st, o, p), e.read(st, o2, p2)
    e.write(st, o, p, w)
    e.write(st, o2, p2, v)
    return UNIT


@_m('std::mem::take')
def mem_take(ctx):
    e, st = ctx.e, ctx.st
    t = e.p.types[e.p.deref_ty(ctx.atys[0])]
    if t['k'] == 'adt' and t['path'] == 'std::vec::Vec':
        o, p = e.as_ref(st, ctx.args[0])
        v = e.read(st, o, p)
        if v[0] == 'V':
            raise Undecided('take of raw vec')
        ob = e.vec_obj(st, v)
        c = thaw(freeze(e, st, ob))
        # moved out: the new owner gets the content, the old slot an empty vector
        nv = e.new_vec(st, c[1], c[2])
        e.set_vec(st, ob, ('V', None, ()))
        if v[0] != 'v':
            e.write(st, o, p, ('v', ob))
        return nv
    if t['k'] == 'adt' and t['path'] == 'std::option::Option':
        o, p = e.as_ref(st, ctx.args[0])
        v = e.read(st, o, p)
        e.write(st, o, p, NONE)
        return v
    return NotImplemented


@_m('core::num::<impl usize>::checked_sub', 'core::num::<impl u32>::checked_sub')
def checked_sub(ctx):
    e, st = ctx.e, ctx.st
    a, b = e.scal(ctx.args[0]), e.scal(ctx.args[1])
    if e.rel(st, b, a, LT | EQ):
        return some(lin_add(a, b, -1))
    return NONE


@_m('core::num::<impl usize>::checked_add')
def checked_add(ctx):
    return some(lin_add(ctx.e.scal(ctx.args[0]), ctx.e.scal(ctx.args[1])))


@_m('core::num::<impl usize>::saturating_sub')
def saturating_sub(ctx):
    e, st = ctx.e, ctx.st
    a, b = e.scal(ctx.args[0]), e.scal(ctx.args[1])
    if e.rel(st, b, a, LT | EQ):
        return lin_add(a, b, -1)
    return I(0)


@_m('core::num::<impl usize>::wrapping_sub', 'core::num::<impl usize>::wrapping_add')
def wrapping(ctx):
    e = ctx.e
    a, b = e.scal(ctx.args[0]), e.scal(ctx.args[1])
    if a[0] == 'i' and b[0] == 'i':
        return I((a[1] + (b[1] if 'add' in ctx.path else -b[1])) & ((1 << 64) - 1))
    return T('wrapping_' + ctx.path[-3:], a, b)


def _fmm(name):
    def f(ctx):
        return T(name, *[ctx.e.scal(a) for a in ctx.args])
    return f


for ft in ('f64', 'f32'):
    for mod in ('core::%s::<impl %s>', 'std::%s::<impl %s>', 'core::num::<impl %s>'):
        for nm in ('max', 'min', 'abs', 'sqrt', 'powi', 'signum', 'floor', 'ceil', 'round', 'trunc', 'hypot', 'atan2', 'mul_add', 'recip'):
            try:
                MODELS[(mod % ((ft, ft) if mod.count('%s') == 2 else (ft,))) + '::' + nm] = _fmm('f' + nm)
            except TypeError:
                pass


@_m('core::f64::<impl f64>::total_cmp', 'core::f32::<impl f32>::total_cmp', 'std::f64::<impl f64>::total_cmp', 'std::f32::<impl f32>::total_cmp')
def float_total_cmp(ctx):
    """the order of the reals, except that a negative zero comes before a positive one"""
    e, st = ctx.e, ctx.st
    rd = lambda a: e.scal(e.read(st, *e.as_ref(st, a)) if a[0] == 'r' else a)
    a, b = rd(ctx.args[0]), rd(ctx.args[1])
    if a == b:
        return enum(1)
    if e.rel(st, a, b, LT):
        return enum(0)
    if e.rel(st, a, b, GT):
        return enum(2)
    if e.truth(st, T('zeros_in_order', a, b)):
        return enum(0)
    return enum(2) if e.truth(st, T('zeros_in_order', b, a)) else enum(1)


@_m('std::intrinsics::cold_path', 'std::hint::must_use')
def ident(ctx):
    return ctx.args[0] if ctx.args else UNIT


@_m('std::boxed::Box::<T>::new')
def box_new(ctx):
    st = ctx.st
    st.nfid += 1
    obj = ('H', st.nfid)
    st.mem[obj] = ctx.args[0]
    return ('r', obj, ())


@_m('std::boxed::Box::<T>::new_uninit')
def box_uninit(ctx):
    # MaybeUninit is the union { uninit: (), value: ManuallyDrop<T> }
    st = ctx.st
    st.nfid += 1
    obj = ('H', st.nfid)
    st.mem[obj] = ('a', 0, (UNIT, ('a', 0, (('u',),))))
    return ('r', obj, ())


@_m('std::boxed::box_assume_init_into_vec_unsafe')
def box_into_vec(ctx):
    e, st = ctx.e, ctx.st
    obj, proj = e.as_ref(st, ctx.args[0])
    v = e.read(st, obj, proj)
    if v[0] != 'a' or len(v[2]) != 2 or v[2][1][0] != 'a' or v[2][1][2][0][0] != 'a':
        raise Undecided('vec! of unknown contents')
    return e.new_vec(st, None, v[2][1][2][0][2])


@_m('robust::orient2d')
def m_orient(ctx):
    return T('orient2d', *[ctx.e.snap(ctx.st, a) for a in ctx.args])


@_m('robust::incircle')
def m_incircle(ctx):
    return T('incircle', *[ctx.e.snap(ctx.st, a) for a in ctx.args])


@_m('core::str::traits::<impl std::cmp::PartialEq for str>::eq')
def str_eq(ctx):
    a, b = ctx.args
    if a[0] == 'str' and b[0] == 'str':
        return I(int(a[1] == b[1]))
    a, b = sorted((ctx.e.snap(ctx.st, a), ctx.e.snap(ctx.st, b)), key=repr)
    return T('streq', a, b)


@_m('core::str::<impl str>::is_empty')
def str_is_empty(ctx):
    a = ctx.args[0]
    if a[0] == 'str':
        return I(int(not a[1]))
    return T('strempty', ctx.e.snap(ctx.st, a))


@_m('std::intrinsics::integer_min')
def int_min(ctx):
    e, st = ctx.e, ctx.st
    a, b = e.scal(ctx.args[0]), e.scal(ctx.args[1])
    return a if e.rel(st, a, b, LT | EQ) else b


@_m('std::intrinsics::integer_max')
def int_max(ctx):
    e, st = ctx.e, ctx.st
    a, b = e.scal(ctx.args[0]), e.scal(ctx.args[1])
    return b if e.rel(st, a, b, LT | EQ) else a


def model_for(eng, cal, path):
    m = MODELS.get(path)
    if m is not None:
        return m
    if path.endswith("as std::iter::adapters::zip::ZipImpl<A, B>>::next") or 'zip::ZipImpl' in path and path.endswith('>::next'):
        return _zip_next
    return None
