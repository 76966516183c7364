"""Canonical forms of coordinate arithmetic: polynomials over coordinate symbols, signed predicates, sign tables."""
import itertools
from fractions import Fraction
from engine import *


def parity(perm):
    s = 1
    perm = list(perm)
    for i in range(len(perm)):
        while perm[i] != i:
            j = perm[i]
            perm[i], perm[j] = perm[j], perm[i]
            s = -s
    return s


def canon_pred(t):
    """(sign, term) with the arguments of an alternating predicate sorted"""
    args = t[2:]
    order = sorted(range(len(args)), key=lambda i: repr(args[i]))
    inv = parity(order)
    return inv, ('t', t[1]) + tuple(args[i] for i in order)


def is_float_atom(t):
    return is_term(t)


def poly(t):
    """polynomial of a float term: {sorted tuple of atoms: coefficient}"""
    if t[0] == 'fl':
        return {(): Fraction(t[1])} if t[1] else {}
    if t[0] == 'i':
        return {(): Fraction(t[1])} if t[1] else {}
    if t[0] == 'a' and len(t[2]) == 1:
        return poly(t[2][0])
    if t[0] == 't':
        k = t[1]
        if k in ('fadd', 'fsub'):
            return padd(poly(t[2]), poly(t[3]), 1 if k == 'fadd' else -1)
        if k == 'fmul':
            return pmul(poly(t[2]), poly(t[3]))
        if k == 'fneg':
            return padd({}, poly(t[2]), -1)
        if k == 'f2f' and t[3] == 'f64':
            return poly(t[2])
        if k == 'f2f' and t[2][0] == 't' and t[2][1] == 'f2f':
            return poly(('t', 'f2f', t[2][2], t[3]) if t[2][3] == 'f64' and not (t[2][2][0] == 't' and t[2][2][1] == 'f2f') else t[2][2])
        if k == 'fmul_add' and len(t) == 5:
            return padd(pmul(poly(t[2]), poly(t[3])), poly(t[4]), 1)
        if k in ('orient2d', 'incircle'):
            s, c = canon_pred(t)
            return {(c,): Fraction(s)}
        if k == 'fdiv':
            d = poly(t[3])
            if list(d) == [()]:
                return {m: c / d[()] for m, c in poly(t[2]).items()}
    return {(t,): Fraction(1)}


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + s * c
        if r[m] == 0:
            del r[m]
    return r


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n, key=repr))
            r[k] = r.get(k, 0) + c * d
            if r[k] == 0:
                del r[k]
    return r


def pkey(p):
    return tuple(sorted(p.items(), key=repr))


def split_const(p):
    q = dict(p)
    c = q.pop((), Fraction(0))
    return q, c


def scale_of(p, q):
    """k with p == k*q, or None"""
    if set(p) != set(q) or not p:
        return None
    m = next(iter(p))
    k = p[m] / q[m]
    return k if all(p[x] == k * q[x] for x in p) else None


def is_float_term(t):
    if t[0] == 'fl':
        return True
    if t[0] == 't' and t[1] in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'orient2d', 'incircle', 'f2f', 'fmul_add', 'fabs', 'fmax', 'fmin'):
        return True
    return False


def float_constraints(log, isf=is_float_term):
    """[(poly without constant, constant, mask)]: poly + constant REL 0"""
    out = []
    for x in log:
        if x[0] != 'rel':
            continue
        a, b, m = x[1], x[2], x[3]
        if not (isf(a) or isf(b)):
            continue
        p, c = split_const(padd(poly(a), poly(b), -1))
        out.append((p, c, m))
    return out


def sgn(x):
    return LT if x < 0 else (GT if x > 0 else EQ)


# representative magnitude classes of a real number
CLASSES3 = {'-': Fraction(-10 ** 6), '0': Fraction(0), '+': Fraction(10 ** 6)}


def narrowed(p):
    """a comparison of values rounded to a narrower type: the unrounded comparison, or None"""
    r, some = {}, False
    for m, k in p.items():
        if len(m) == 1 and m[0][0] == 't' and m[0][1] == 'f2f':
            some = True
            q = poly(m[0][2])
        else:
            q = {m: Fraction(1)}
        for n, d in q.items():
            r[n] = r.get(n, 0) + k * d
            if not r[n]:
                del r[n]
    return r if some else None


def absolute(p, polys, vals):
    """bounds of a combination of magnitudes in terms of the given values, or None"""
    fa = [(m[0][2], k) for m, k in p.items() if len(m) == 1 and m[0][0] == 't' and m[0][1] == 'fabs']
    if len(fa) != len(p):
        return None
    if len(fa) == 1:
        q, c = split_const(poly(fa[0][0]))
        for r, v in zip(polys, vals):
            k = scale_of(q, r)
            if k is not None:
                x = abs(k * v + c) * fa[0][1]
                return x, x
    if len(fa) == 2 and fa[0][1] == -fa[1][1]:
        q, c = split_const(padd(poly(fa[0][0]), poly(fa[1][0]), -1))
        for r, v in zip(polys, vals):
            k = scale_of(q, r)
            if k is not None and not c:
                x = abs(k * v * fa[0][1])
                return -x, x
    return None


def consistent(cons, polys, vals):
    """is a path condition possible when each polys[i] has value vals[i]?  returns (possible, foreign constraints)"""
    foreign = []
    for p, c, m in cons:
        if not p:
            if not (sgn(c) & m):
                return False, foreign
            continue
        hit = None
        for q, v in zip(polys, vals):
            k = scale_of(p, q)
            if k is not None:
                hit = k * v
                break
        if hit is None:
            w = narrowed(p) if not c else None
            k = v = None
            for q, v in zip(polys, vals):
                k = scale_of(w, q) if w else None
                if k is not None:
                    break
            if k is not None:
                # rounding keeps the order, but may make different values equal
                if not ((sgn(k * v) | EQ) & m):
                    return False, foreign
                continue
            iv = absolute(p, polys, vals)
            if iv is not None:
                lo, hi = iv[0] + c, iv[1] + c
                if not ((LT if lo < 0 else 0) | (GT if hi > 0 else 0) | (EQ if lo <= 0 <= hi else 0)) & m:
                    return False, foreign
                continue
            foreign.append((p, c, m))
            continue
        if not (sgn(hit + c) & m):
            return False, foreign
    return True, foreign


def show_poly(p):
    return ' + '.join('%s*%s' % (c, '*'.join(show(a) for a in m)) for m, c in list(p.items())[:6]) or '0'


def diff_only(t, ok=None):
    """are coordinates used only inside differences of two coordinates (of the same axis)?"""
    if t[0] in ('fl', 'i'):
        return True
    if t[0] == 'a':
        return all(diff_only(x) for x in t[2])
    if t[0] == 't':
        if t[1] == 'fsub' and not is_arith(t[2]) and not is_arith(t[3]):
            return True
        if t[1] in ('fadd', 'fsub', 'fmul', 'fneg', 'fdiv', 'fmul_add', 'fabs'):
            return all(diff_only(x) for x in t[2:])
    return False


def is_arith(t):
    return t[0] == 'fl' or (t[0] == 't' and t[1] in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'fmul_add', 'fabs', 'f2f', 'fmax', 'fmin'))
