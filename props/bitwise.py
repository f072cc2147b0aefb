"""C01: bitwise operators."""
from .base import *

PRE = '''
template <int N> AI V<N> s_and(V<N> a, V<N> b) {
    U<N> a0 = ~a.v & ~a.m, b0 = ~b.v & ~b.m, zero = a0 | b0, one = (a.v & ~a.m) & (b.v & ~b.m);
    return {one, (U<N>)~(zero | one)};
}
template <int N> AI V<N> s_or(V<N> a, V<N> b) {
    U<N> a1 = a.v & ~a.m, b1 = b.v & ~b.m, one = a1 | b1, zero = (~a.v & ~a.m) & (~b.v & ~b.m);
    return {one, (U<N>)~(zero | one)};
}
template <int N> AI V<N> s_xor(V<N> a, V<N> b) {
    U<N> x = a.m | b.m;
    return {(U<N>)((a.v ^ b.v) & ~x), x};
}
template <int N> AI V<N> s_not(V<N> a) { return {(U<N>)(~a.v & ~a.m), a.m}; }
'''
OPS = {'and': ('&', 's_and'), 'or': ('|', 's_or'), 'xor': ('^', 's_xor')}


def two(A, B, op, s):
    W, sg = max(A.n, B.n), A.sg and B.sg
    return bcase('%s_%s_%s' % (op, A.nm, B.nm), A, B, 'a %s b' % OPS[op][0],
                 'out.expect<%d>(%s<%d>(ext4<%d>(va, %s), ext4<%d>(vb, %s)), %s, %d);'.replace('out.', 'o.') % (
                     W, OPS[op][1], W, W, tb(sg), W, tb(sg), tb(four(A, B)), sg), spec_pre=PRE)


def compound(A, B, op):
    W, sg = max(A.n, B.n), A.sg and B.sg
    return Case('%seq_%s_%s' % (op, A.nm, B.nm), A.ld('a') + B.ld('b') + ' a %s= b; st(a, o);' % OPS[op][0],
                A.get('va') + B.get('vb') + ' RUN; auto r = %s<%d>(ext4<%d>(va, %s), ext4<%d>(vb, %s));'
                'o.expect<%d>(V<%d>{(U<%d>)r.v, (U<%d>)r.m}, %s, %d);' % (
                    OPS[op][1], W, W, tb(sg), W, tb(sg), A.n, A.n, A.n, A.n, tb(A.four), A.sg), spec_pre=PRE)


def cases(tier):
    r = []
    k = 0
    for op in OPS:
        for kind in (b, l):
            for n in same(tier):
                for i, (x, y) in enumerate(SG):
                    k += 1
                    if tier == 'quick' and k % 3 and n not in (1, 13, 100):
                        continue
                    r.append(two(kind(n, x), kind(n, y), op, OPS[op]))
            for (n, m) in mix(tier):
                for x, y in SG:
                    k += 1
                    if tier == 'quick' and k % 3 and (n, m) not in ((13, 32), (100, 64)):
                        continue
                    r.append(two(kind(n, x), kind(m, y), op, OPS[op]))
        for (n, m) in mix(tier):
            r.append(two(l(n), b(m), op, OPS[op]))
            r.append(two(l(n, True), b(m, True), op, OPS[op]))
        # ranges that do not start at 0, and ascending ranges
        r.append(two(T('logic', 10, 3), T('logic', 12, 5), op, 0))
        r.append(two(T('bit', 10, 3), T('bit', 12, 5, True), op, 0))
        r.append(two(T('logic', 0, 12), l(13), op, 0))
        r.append(two(T('logic', 0, 7), T('logic', 0, 12), op, 0))
        r.append(two(T('bit', 4, 103), T('bit', 0, 12), op, 0))
        for kind in (b, l):
            for n, m, s, t in ((13, 13, False, False), (13, 13, True, True), (100, 100, False, False), (64, 64, True, True),
                               (32, 8, True, True), (8, 32, False, False), (13, 100, False, False), (100, 13, True, True), (100, 130, False, False)):
                r.append(compound(kind(n, s), kind(m, t), op))
    for kind in (b, l):
        for n in T_SAME if tier != 'quick' else Q_SAME:
            for s in (False, True):
                A = kind(n, s)
                r.append(ucase('not_%s' % A.nm, A, '~a', 'o.expect<%d>(s_not<%d>(va), %s, 2);' % (n, n, tb(A.four)), spec_pre=PRE))
    for A in (T('logic', 0, 12), T('bit', 3, 70), T('logic', 20, 8)):
        r.append(ucase('not_%s' % A.nm, A, '~a', 'o.expect<%d>(s_not<%d>(va), %s, 2);' % (A.n, A.n, tb(A.four)), spec_pre=PRE))
    return dedupe(r)


PROPS = {
    'C01': {
        'cases': cases,
        'chunk': 24,
        'bounds': lambda t: 'all 2- and 4-state operand values of the listed widths (%s; mixed %s) and signedness pairs; loops fully unrolled' % (
            same(t), mix(t)),
    },
}
