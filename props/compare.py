"""C06 comparisons, C07 case equality, C08 reductions."""
from .base import *

OPS = {'eq': '==', 'ne': '!=', 'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>='}
PRE = '''
template <int N> AI bool s_lt(U<N> a, U<N> b, bool s) {
    U<N> k = s ? (U<N>)((U<N>)1 << (N - 1)) : (U<N>)0;
    return (U<N>)(a ^ k) < (U<N>)(b ^ k);
}
template <> AI bool s_lt<1>(U<1> a, U<1> b, bool s) { return s ? (bool)a && !(bool)b : !(bool)a && (bool)b; }
'''
# one harness decides all six comparisons of a pair
def six(A, B):
    W, s = max(A.n, B.n), A.sg and B.sg
    impl = A.ld('a') + B.ld('b') + ''.join(' st(a %s b, o);' % OPS[k] for k in OPS)
    sp = A.get('va') + B.get('vb') + ' RUN; auto x = ext<%d>(va.v, %s); auto y = ext<%d>(vb.v, %s);' % (W, tb(s), W, tb(s))
    sp += ' bool eq = x == y, lt = s_lt<%d>(x, y, %s), gt = s_lt<%d>(y, x, %s), xz = (va.m != 0) | (vb.m != 0); (void)xz;' % (W, tb(s), W, tb(s))
    for k, e in (('eq', 'eq'), ('ne', '!eq'), ('lt', 'lt'), ('le', '!gt'), ('gt', 'gt'), ('ge', '!lt')):
        if A.four:
            sp += ' o.expect<1>(xz ? V<1>{0, 1} : V<1>{(U<1>)(%s), 0}, true, 0);' % e
        else:
            sp += ' o.expect_bool(%s);' % e
    return Case('cmp_%s_%s' % (A.nm, B.nm), impl, sp, spec_pre=PRE)


def bl(A, B):
    """bit against logic: the result is a bool, false when unknown"""
    W, s = max(A.n, B.n), A.sg and B.sg
    impl = A.ld('a') + B.ld('b') + ''.join(' st(a %s b, o);' % OPS[k] for k in ('lt', 'le', 'gt', 'ge'))
    sp = A.get('va') + B.get('vb') + ' RUN; auto x = ext<%d>(va.v, %s); auto y = ext<%d>(vb.v, %s);' % (W, tb(s), W, tb(s))
    sp += ' bool lt = s_lt<%d>(x, y, %s), gt = s_lt<%d>(y, x, %s), k = vb.m == 0;' % (W, tb(s), W, tb(s))
    for e in ('lt', '!gt', 'gt', '!lt'):
        sp += ' o.expect_bool(k && (%s));' % e
    return Case('cmpbl_%s_%s' % (A.nm, B.nm), impl, sp, spec_pre=PRE)


def pairs(tier, f):
    r = []
    k = 0
    for kind in (b, l):
        for n in same(tier):
            for x, y in SG:
                r.append(f(kind(n, x), kind(n, y)))
        for n, m in mix(tier):
            for x, y in SG:
                r.append(f(kind(n, x), kind(m, y)))
    for n, m in mix(tier) + [(n, n) for n in same(tier)]:
        r.append(f(l(n), b(m)))
        r.append(f(l(n, True), b(m, True)))
    r.append(f(T('logic', 10, 3), T('logic', 12, 5)))
    r.append(f(T('logic', 0, 12), l(13)))
    r.append(f(T('logic', 0, 7), T('logic', 0, 12)))
    r.append(f(T('bit', 4, 103), T('bit', 0, 12)))
    return r


def cmp_cases(tier):
    r = pairs(tier, six)
    for n, m in mix(tier) + [(n, n) for n in same(tier)]:
        r.append(bl(b(n), l(m)))
        r.append(bl(b(n, True), l(m, True)))
        r.append(bl(b(n, True), l(m)))
    return dedupe(r)


def match(A, B):
    W, s = max(A.n, B.n), A.sg and B.sg
    sp = A.get('va') + B.get('vb') + ' RUN; auto x = ext4<%d>(va, %s); auto y = ext4<%d>(vb, %s); bool e = (x.v == y.v) & (x.m == y.m);' % (
        W, tb(s), W, tb(s))
    return Case('match_%s_%s' % (A.nm, B.nm), A.ld('a') + B.ld('b') + ' st(a.match(b), o); st(a.nmatch(b), o);', sp + ' o.expect_bool(e); o.expect_bool(!e);')


def match_cases(tier):
    return dedupe(pairs(tier, match))


REDPRE = '''
template <int N> AI V<1> r_and(V<N> a) {
    U<N> zero = ~a.v & ~a.m;
    return zero != 0 ? V<1>{0, 0} : a.m != 0 ? V<1>{0, 1} : V<1>{1, 0};
}
template <int N> AI V<1> r_or(V<N> a) {
    U<N> one = a.v & ~a.m;
    return one != 0 ? V<1>{1, 0} : a.m != 0 ? V<1>{0, 1} : V<1>{0, 0};
}
template <int N> AI V<1> r_xor(V<N> a) {
    if (a.m != 0) return V<1>{0, 1};
    U<1> p = 0;
    for (int i = 0; i < N; i++) p ^= (U<1>)(a.v >> i);
    return V<1>{p, 0};
}
AI V<1> r_inv(V<1> a) { return a.m != 0 ? V<1>{0, 1} : V<1>{(U<1>)~a.v, 0}; }
'''


def red(A):
    impl = A.ld('a')
    sp = A.get('va') + ' RUN; auto x = r_and<%d>(va), y = r_or<%d>(va), z = r_xor<%d>(va);' % (A.n, A.n, A.n)
    for op, e in (('r_and', 'x'), ('r_nand', 'r_inv(x)'), ('r_or', 'y'), ('r_nor', 'r_inv(y)'), ('r_xor', 'z'), ('r_xnor', 'r_inv(z)')):
        impl += ' st(a.%s(), o);' % op
        sp += (' o.expect<1>(%s, true, 0);' if A.four else ' o.expect_bool((bool)(%s).v);') % e
    return Case('red_%s' % A.nm, impl, sp, spec_pre=REDPRE)


def boolean(A):
    n = A.n
    impl = A.ld('a') + ' st(static_cast<bool>(a), o); st(!a, o);'
    sp = A.get('va') + ' RUN;'
    if A.four:
        # a known value is true if any bit is 1; with x or z the conversion is false and ! is x
        sp += ' o.expect_bool(va.m == 0 && va.v != 0); o.expect<1>(va.m != 0 ? V<1>{0, 1} : V<1>{(U<1>)(va.v == 0), 0}, true, 0);'
    else:
        sp += ' o.expect_bool(va.v != 0); o.expect_bool(va.v == 0);'
    return Case('bool_%s' % A.nm, impl, sp)


def counts(A):
    """bit only: population count, any/all set, index of the highest set bit"""
    n = A.n
    impl = A.ld('a') + ' st(a.popcount(), o); st(a.any_set(), o); st(a.all_set(), o); if (a.any_set()) st(a.highest_bit(), o);'
    sp = A.get('va') + ' RUN; u64 c = 0, h = 0; for (int i = 0; i < %d; i += 64) c += __builtin_popcountll((u64)(va.v >> i)); for (int i = 0; i < %d; i++) if ((U<1>)(va.v >> i)) h = i;' % (n, n)
    sp += ' o.expect_int(64, false, c); o.expect_bool(va.v != 0); o.expect_bool(va.v == ones<%d>()); if (va.v != 0) o.expect_int(64, false, h);' % n
    return Case('count_%s' % A.nm, impl, sp)


def red_cases(tier):
    r = []
    ts = []
    for kind in (b, l):
        for n in ([1, 2, 5, 8, 13, 16, 31, 32, 33, 63, 64, 65, 100, 128, 129] if tier == 'quick' else T_SAME):
            for s in (False, True):
                ts.append(kind(n, s))
    ts += [T('logic', 10, 3), T('logic', 0, 12), T('bit', 12, 5), T('bit', 0, 8), T('logic', 80, 3), T('logic', 0, 99), T('bit', 0, 99)]
    for A in ts:
        r.append(red(A))
        r.append(boolean(A))
        if not A.four:
            r.append(counts(A))
    return dedupe(r)


B = lambda t: 'all values of the listed widths (%s; mixed %s) and signedness pairs; loops fully unrolled' % (same(t), mix(t))
PROPS = {
    'C06': {'cases': cmp_cases, 'chunk': 24, 'bounds': B},
    'C07': {'cases': match_cases, 'chunk': 24, 'bounds': B},
    'C08': {'cases': red_cases, 'chunk': 16, 'bounds': 'all values of widths 1..300 at the holder boundaries, both signs, ascending and offset ranges'},
}
