"""C19 sequences of operations, C22 the 2-state and the 4-state types agree."""
from .base import *
from .bitwise import PRE

SHIFTS = {'<<': '<<', '>>': '>>'}


def known(X, v):
    """spec: the symbolic value v of the 2-state twin, then of X with no x or z"""
    n = X.n
    return 'auto %s = in.bits<%d>(); put<%d>(in, %s); put<%d>(in, 0);' % (v, n, n, v, n)


def both(A, v):
    """impl: the same value in both kinds"""
    return A.like(kind='bit').ld(v + '2') + A.like(kind='logic').ld(v + '4')


def rel(name, ins, expr, kind, size, free_sign=False, assume=''):
    """expr over 2-state and 4-state operands; kind: 'v' a vector of size bits, 'b' a truth value, 'i' a number, 't' text"""
    im = ''.join(both(A, v) for A, v in ins)
    sub = lambda k: expr.replace('@', k)
    im += ('st_text' if kind == 't' else 'st') + '(%s, o);' % sub('2')
    im += ('st_text' if kind == 't' else 'st') + '(%s, o);' % sub('4')
    sp = ''.join(known(A, 'v' + v) for A, v in ins) + assume + ' RUN; '
    w = (size + 63) // 64
    if kind == 'v':
        sp += 'o.same_vector<%d>(%s);' % (size, tb(free_sign))
    elif kind == 'b':
        sp += 'o.same_bool();'
    elif kind == 'i':
        sp += 'o.same_words(2);'
    else:
        sp += 'o.same_words(%d);' % (1 + (size + 7) // 8)
    return Case(name, im, sp)


def agree(tier):
    r = []
    pairs = [(n, n) for n in same(tier)] + mix(tier)
    for q, (n, m) in enumerate(pairs):
        for k, (s, t) in enumerate(SG if tier != 'quick' else [SG[q % 4], SG[(q + 2) % 4]] if n == m else [SG[q % 4]]):
            A, B = l(n, s), l(m, t)
            if (q + k) % 3 == 2 and n > 1:
                A = T('logic', 2, n + 1, s)
            ins = [(A, 'a'), (B, 'b')]
            nm = '%s_%s' % (A.nm, B.nm)
            N = max(n, m)
            for o, f in (('and', '&'), ('or', '|'), ('xor', '^'), ('add', '+'), ('sub', '-'), ('mul', '*')):
                r.append(rel('%s_%s' % (o, nm), ins, 'a@ %s b@' % f, 'v', N))
            if N <= 64:
                for o, f in (('div', '/'), ('mod', '%')):
                    r.append(rel('%s_%s' % (o, nm), ins, 'a@ %s b@' % f, 'v', N, assume='sym_assume(vb != 0);'))
            for o, f in (('eq', '=='), ('ne', '!='), ('lt', '<'), ('le', '<='), ('gt', '>'), ('ge', '>=')):
                r.append(rel('%s_%s' % (o, nm), ins, 'a@ %s b@' % f, 'b', 1))
            r.append(rel('match_%s' % nm, ins, 'a@.match(b@)', 'b', 1))
            for o, f in (('shl', 'a@ << b@'), ('shr', 'a@ >> b@'), ('ashr', 'a@.ashr(b@)')):
                c = rel('%s_%s' % (o, nm), ins, f, 'v', n, free_sign=True)
                if n > 24:      # the amount, one case for each
                    c.spec = 'sym_fork(%d, %d, %dull); ' % (3 * A.word(), n, min((1 << 64) - 1, (1 << m) - 1)) + c.spec
                r.append(c)
            r.append(rel('concat_%s' % nm, ins, 'a@.concat(b@)', 'v', n + m))
            # through a third type
            for C in (l(n + 1, True), l(max(1, m - 1), False), l(65, t))[(q + k) % 3 if tier == 'quick' else 0:][:1 if tier == 'quick' else 3]:
                c = lambda k, C=C: '[&] { L::%%s<%d, %d, %s> c; c = a%s + b%s; return c; }()' % (C.msb, C.lsb, tb(C.sg), k, k)
                e2, e4 = c('2') % 'bit', c('4') % 'logic'
                x = rel('assign_%s_%s' % (C.nm, nm), ins, 'a@', 'v', C.n)
                x.impl = both(A, 'a') + both(B, 'b') + 'st(%s, o); st(%s, o);' % (e2, e4)
                r.append(x)
    for q, n in enumerate(same(tier)):
        for s in (False, True):
            ts = [l(n, s), T('logic', 0, n - 1, s) if n > 1 else l(1, s), T('logic', n + 2, 3, s)]
            for A in ts if tier != 'quick' else [ts[(q + s) % 3]]:
                ins = [(A, 'a')]
                nm = A.nm
                r.append(rel('not_%s' % nm, ins, '~a@', 'v', n, free_sign=True))
                r.append(rel('neg_%s' % nm, ins, '-a@', 'v', n))
                r.append(rel('lnot_%s' % nm, ins, '!a@', 'b', 1))
                r.append(rel('bool_%s' % nm, ins, 'static_cast<bool>(a@)', 'b', 1))
                for f in ('r_and', 'r_nand', 'r_or', 'r_nor', 'r_xor', 'r_xnor'):
                    r.append(rel('%s_%s' % (f, nm), ins, 'a@.%s()' % f, 'b', 1))
                r.append(rel('u64_%s' % nm, ins, 'a@.to_uint64()', 'i', 1))
                if n <= 64:
                    r.append(rel('num_%s' % nm, ins, 'a@.to_num()', 'i', 1))
                r.append(rel('preinc_%s' % nm, ins, '++a@', 'v', n))
                if A.lsb == 0 and A.msb >= 0:
                    r.append(rel('postdec_%s' % nm, ins, '(a@--, a@)', 'v', n))
                for m in sorted({1, n, n + 1, 64, 65, n + 64}):
                    if m >= n:
                        r.append(rel('ext%d_%s' % (m, nm), ins, 'a@.template extend<%d>()' % m, 'v', m))
                lo, hi = min(A.msb, A.lsb), max(A.msb, A.lsb)
                for a, z in {(lo, hi), (lo + n // 2, hi), (lo, lo + n // 2), (lo + n // 3, lo + n // 3)}:
                    h, g = (z, a) if A.msb >= A.lsb else (a, z)
                    r.append(rel('slice%d_%d_%s' % (h, g, nm), ins, 'a@.template slice<%d, %d>()' % (h, g), 'v', z - a + 1))
                idx = 'in.buf[in.n++] = sym_u64(900);'
                for i in (lo, (lo + hi) // 2, hi):
                    r.append(rel('bit%d_%s' % (i, nm), ins, 'a@[%d]' % i, 'v', 1))
                B = l(33, True)
                r.append(rel('at_%s' % nm, ins + [(B, 'b')], 'a@[static_cast<int>(b@.to_uint64())]', 'v', 1,
                             assume='sym_assume((u64)vb >= %d && (u64)vb <= %d);' % (max(lo, 0), hi)))
    return dedupe(r)


# ---------------------------------------------------------------- sequences
PRES = PRE + """
template <int N> AI V<N> strict(V<N> a, U<N> r) { return a.m != 0 ? allx<N>() : V<N>{r, 0}; }
template <int N> AI V<N> strict2(V<N> a, bool m, U<N> r) { return (a.m != 0) | m ? allx<N>() : V<N>{r, 0}; }
"""


def steps(X, Y):
    """name, library statement, specification statement; x the variable, y an operand, k a number"""
    N, M = X.n, Y.n
    W, sg = max(N, M), X.sg and Y.sg
    lo, hi = min(X.msb, X.lsb), max(X.msb, X.lsb)
    cut = 'V<%d>{(U<%d>)r.v, (U<%d>)r.m}' % (N, N, N)
    e = 'auto r = %%s<%d>(ext4<%d>(x, %s), ext4<%d>(y, %s)); x = %s;' % (W, W, tb(sg), W, tb(sg), cut)
    ar = 'bool u = y.m != 0; x = strict2<%d>(x, u, (U<%d>)(ext<%d>(x.v, %s) %%s ext<%d>(y.v, %s)));' % (N, N, W, tb(sg), W, tb(sg))
    AM = 'k & 255' if N <= 16 else '(k & 1 ? %d : 1)' % (N // 2 + 3) if N <= 64 else str(N // 2 + 3)      # shift amounts
    sh = lambda f: 'x = strict<%d>(x, %s<%d>(x.v, %s));' % (N, f, N, AM)
    amt = 'L::%s<7, 0>(static_cast<uint8_t>(%s))' % (X.kind, AM)
    # any index, or one of four, one of which is out of range
    at = 'k' if N <= 16 else '((k & 2) ? (k & 1) ? %d : %d : (k & 1) ? %d : %d)' % (lo, (lo + hi) // 2, hi, hi + 1)
    s = [('inc', '++x;', 'x = strict<%d>(x, (U<%d>)(x.v + 1));' % (N, N)),
         ('dec', '--x;', 'x = strict<%d>(x, (U<%d>)(x.v - 1));' % (N, N)),
         ('and', 'x &= y;', e % 's_and'), ('or', 'x |= y;', e % 's_or'), ('xor', 'x ^= y;', e % 's_xor'),
         ('add', 'x = x + y;', ar % '+'), ('sub', 'x = x - y;', ar % '-'),
         ('not', 'x = ~x;', 'x = s_not<%d>(x);' % N), ('neg', 'x = -x;', 'x = strict<%d>(x, (U<%d>)-x.v);' % (N, N)),
         ('shl', 'x <<= %s;' % amt, sh('shl')), ('shr', 'x >>= %s;' % amt, sh('shr')),
         ('set', 'x.set(static_cast<int>(%s), (y.%s & 1) != 0);' % (at, 'value.to_uint64()' if Y.four else 'to_uint64()'),
          'long long at = %s; if (at >= 0 && at < %d) { U<%d> one = shl<%d>((U<%d>)1, (u64)at); x = {(U<%d>)((x.v & ~one) | ((U<1>)y.v ? one : (U<%d>)0)), (U<%d>)(x.m & ~one)}; }' % (
              '(long long)(int)(%s) - (%d)' % (at, X.lsb) if X.msb >= X.lsb else '(%d) - (long long)(int)(%s)' % (X.lsb, at), N, N, N, N, N, N, N)),
         ('copy', 'x = y;', 'auto r = ext4<%d>(y, %s); x = {r.v, r.m};' % (N, tb(Y.sg)))]
    if N > 2:
        a, b_ = lo + 1, lo + max(1, N - 2)
        h, g = (b_, a) if X.msb >= X.lsb else (a, b_)
        low = min(abs(h - X.lsb), abs(g - X.lsb))
        w = b_ - a + 1
        s.append(('update', 'x.template update<%d, %d>(y);' % (h, g),
                  'U<%d> win = (U<%d>)((U<%d>)ones<%d>() << %d); auto r = ext4<%d>(y, false); x = {(U<%d>)((x.v & ~win) | ((U<%d>)(r.v << %d) & win)), (U<%d>)((x.m & ~win) | ((U<%d>)(r.m << %d) & win))};' % (
                      N, N, N, w, low, N, N, N, low, N, N, low)))
        d = X.msb >= X.lsb
        c = lo + N // 3
        p1 = 'x.template slice<%d, %d>()' % ((c, lo) if d else (lo, c))
        p2 = 'x.template slice<%d, %d>()' % ((hi, c + 1) if d else (c + 1, hi))
        top, bot = (p2, p1) if d else (p1, p2)
        n1 = (c - lo + 1) if d else (hi - c)      # the lower part
        s.append(('rotate', 'x = %s.concat(%s);' % (bot, top),
                  'x = {(U<%d>)((x.v >> %d) | (x.v << %d)), (U<%d>)((x.m >> %d) | (x.m << %d))};' % (N, n1, N - n1, N, n1, N - n1)))
    s.append(('test', 'x = x == y;', ('U<%d> c, d; bool u = (x.m != 0) | (y.m != 0); c = ext<%d>(x.v, %s); d = ext<%d>(y.v, %s); bool q = c == d; x = {(U<%d>)(u ? 0 : q), (U<%d>)u};' % (
        W, W, tb(sg), W, tb(sg), N, N)) if four(X, Y) else 'U<%d> c = ext<%d>(x.v, %s), d = ext<%d>(y.v, %s); x = {(U<%d>)(c == d), 0};' % (W, W, tb(sg), W, tb(sg), N)))
    return s


def chain(X, Y, ops, n, i):
    """n steps, each any of ops"""
    S = [x for x in steps(X, Y) if x[0] in ops]
    im = X.ld('x') + 'u64 op[%d], k[%d]; %s y[%d];' % (n, n, Y.cpp, n)
    im += ''.join('op[%d] = *p++ & 3; k[%d] = *p++; ld_into(y[%d], p);' % (j, j, j) for j in range(n))
    im += 'auto step = [&](u64 op, u64 k, const %s &y) { switch (op) {' % Y.cpp
    im += ' '.join('case %d: { %s break; }' % (j, x[1]) for j, x in enumerate(S)) + ' default: break; } };'
    im += ''.join('step(op[%d], k[%d], y[%d]);' % (j, j, j) for j in range(n)) + ' st(x, o);'
    sp = X.get('x') + 'u64 op[%d], k[%d]; V<%d> ys[%d];' % (n, n, Y.n, n)
    w = X.word() * (2 if X.four else 1)
    for j in range(n):
        sp += 'sym_fork(%d, 4, 3); op[%d] = in.word() & 3; k[%d] = in.word(); ys[%d] = in.val<%d, %s>();' % (
            w, j, j, j, Y.n, tb(Y.four))
        w += 2 + Y.word() * (2 if Y.four else 1)
    sp += ' RUN; for (int j = 0; j < %d; j++) { u64 k_ = k[j]; auto y = ys[j]; u64 k = k_; (void)k; switch (op[j]) {' % n
    sp += ' '.join('case %d: { %s break; }' % (j, x[2]) for j, x in enumerate(S)) + ' default: break; } }'
    sp += 'o.expect<%d>(x, %s, %d);' % (X.n, tb(X.four), X.sg)
    return Case('seq%d_%s_%s_%s' % (n, X.nm, Y.nm, i), im, sp, spec_pre=PRES)


SUMS = ['inc', 'dec', 'add', 'sub', 'neg']


def chains(tier):
    """one sum and three other operations in each harness"""
    r = []
    import random
    rnd = random.Random(7)
    for q, n in enumerate((1, 5, 13, 32, 33, 64, 65, 100, 128) if tier == 'quick' else (1, 2, 5, 8, 13, 16, 31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 130, 192)):
        for kind in ('bit', 'logic'):
            X = T(kind, n - 1, 0, (q + (kind == 'bit')) % 2 == 0)
            if q % 4 == 3:
                X = T(kind, 2, n + 1, X.sg)
            for i in range(1 if tier == 'quick' else 4):
                m = (n, max(1, n - 3), n + 5, 64, 65, 8)[(q + i + 2 * (kind == 'bit')) % 6]
                Y = T(kind, m - 1, 0, (q + i) % 3 == 0)
                rest = [x[0] for x in steps(X, Y) if x[0] not in SUMS]
                rnd.shuffle(rest)
                rest *= 2
                for j, s in enumerate(SUMS):
                    r.append(chain(X, Y, [s] + rest[3 * j:3 * j + 3], 2 if n > 64 and tier == 'quick' else 3, '%d%s' % (i, s)))
    return dedupe(r)


PROPS = {
    'C19': {'cases': chains, 'chunk': 4, 'bounds': 'all values, operands, indices and amounts, in every sequence of three steps (two beyond 64 bits at the quick tier) out of the four operations of each harness; beyond 16 bits shift amounts and indices are drawn from a few'},
    'C22': {'cases': agree, 'chunk': 40, 'bounds': 'all values at the listed widths, signs and ranges'},
}
