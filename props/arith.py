"""C02-C04: arithmetic."""
from .base import *

OPS = {'add': '+', 'sub': '-'}


def two(A, B, op):
    W, sg, f = max(A.n, B.n), A.sg and B.sg, four(A, B)
    c = OPS[op]
    return bcase('%s_%s_%s' % (op, A.nm, B.nm), A, B, 'a %s b' % c,
                 'U<%(W)d> r = ext<%(W)d>(va.v, %(s)s) %(c)s ext<%(W)d>(vb.v, %(s)s);'
                 'o.expect<%(W)d>((va.m != 0) | (vb.m != 0) ? allx<%(W)d>() : V<%(W)d>{r, 0}, %(f)s, %(sg)d);'
                 % dict(W=W, s=tb(sg), c=c, f=tb(f), sg=sg))


def unary(A, name, stmt, expr, sg):
    n = A.n
    return Case('%s_%s' % (name, A.nm), A.ld('a') + stmt,
                A.get('va') + ' RUN; U<%d> one = 1; U<%d> zero = 0; (void)one; (void)zero; V<%d> r = va.m != 0 ? allx<%d>() : V<%d>{(U<%d>)(%s), 0};' % (
                    n, n, n, n, n, n, expr) + sg)


def un(A):
    n, f, s = A.n, tb(A.four), int(A.sg)
    e = 'o.expect<%d>(r, %s, %d);' % (n, f, s)
    # only x/z handling differs in unary +: x or z operands give x
    return [
        unary(A, 'neg', 'st(-a, o);', 'zero - va.v', e),
        unary(A, 'pos', 'st(+a, o);', 'va.v', e),
        unary(A, 'preinc', 'auto &q = ++a; st(a, o); st(q, o);', 'va.v + one', e + e),
        unary(A, 'predec', 'auto &q = --a; st(a, o); st(q, o);', 'va.v - one', e + e),
        unary(A, 'postinc', 'auto q = a++; st(a, o); st(q, o);', 'va.v + one', e + 'o.expect<%d>(va, %s, %d);' % (n, f, s)),
        unary(A, 'postdec', 'auto q = a--; st(a, o); st(q, o);', 'va.v - one', e + 'o.expect<%d>(va, %s, %d);' % (n, f, s)),
    ]


def addsub(tier):
    r = []
    k = 0
    for op in OPS:
        for kind in (b, l):
            for n in same(tier):
                for x, y in SG:
                    k += 1
                    if tier == 'quick' and k % 3 and n not in (1, 13, 100):
                        continue
                    r.append(two(kind(n, x), kind(n, y), op))
            for n, m in mix(tier):
                for x, y in SG:
                    k += 1
                    if tier == 'quick' and k % 3 and (n, m) not in ((13, 32), (100, 64)):
                        continue
                    r.append(two(kind(n, x), kind(m, y), op))
        for n, m in mix(tier):
            r.append(two(l(n), b(m), op))
            r.append(two(l(n, True), b(m, True), op))
        for n in same(tier):
            r.append(two(l(n), b(n), op))
        r.append(two(T('logic', 10, 3), T('logic', 12, 5), op))
        r.append(two(T('logic', 0, 12), l(13), op))
        r.append(two(T('logic', 0, 7), T('logic', 0, 12), op))
        r.append(two(T('bit', 4, 103), T('bit', 0, 12), op))
    for kind in (b, l):
        for n in ((1, 5, 13, 32, 64, 65, 100) if tier == 'quick' else T_SAME):
            for s in (False, True):
                r += un(kind(n, s))
    return dedupe(r)


def mul(A, B):
    W, sg, f = max(A.n, B.n), A.sg and B.sg, four(A, B)
    fork = ''
    if sg and W > 64:
        # one execution per sign of an operand that is extended
        for X, at in ((A, 0), (B, A.word() * (2 if A.four else 1))):
            if 1 < X.n < W:
                fork += 'sym_fork(%d, 1, %dull); ' % (at + X.word() - 1, 1 << ((X.n - 1) % 64))
    c = mul_(A, B, W, sg, f)
    c.spec = fork + c.spec
    return c


def mul_(A, B, W, sg, f):
    return bcase('mul_%s_%s' % (A.nm, B.nm), A, B, 'a * b',
                 'U<%(W)d> r = mulw<%(W)d>(ext<%(W)d>(va.v, %(s)s), ext<%(W)d>(vb.v, %(s)s));'
                 'o.expect<%(W)d>((va.m != 0) | (vb.m != 0) ? allx<%(W)d>() : V<%(W)d>{r, 0}, %(f)s, %(sg)d);'
                 % dict(W=W, s=tb(sg), f=tb(f), sg=sg))


def mults(tier):
    r = []
    for kind in (b, l):
        for n in same(tier):
            for x, y in SG:
                r.append(mul(kind(n, x), kind(n, y)))
        for n, m in mix(tier):
            for x, y in SG:
                if x and y and max(n, m) > 192 and min(n, m) > 1:
                    continue  # sums of more than 6 partial products of sign words: beyond the solver
                r.append(mul(kind(n, x), kind(m, y)))
    for n, m in mix(tier) + [(n, n) for n in same(tier)]:
        r.append(mul(l(n), b(m)))
        if n == m or max(n, m) <= 192:
            r.append(mul(l(n, True), b(m, True)))
    r.append(mul(T('logic', 10, 3), T('logic', 12, 5)))
    r.append(mul(T('logic', 0, 12), l(13)))
    r.append(mul(T('logic', 0, 7), T('logic', 0, 12)))
    r.append(mul(T('bit', 4, 103), T('bit', 0, 12)))
    return dedupe(r)


DIVPRE = '''
// quotient and remainder, truncated toward zero
template <int N> AI void s_div(U<N> a, U<N> b, bool s, U<N> &q, U<N> &r) {
    static_assert(N <= 64);
    if (s) {
        long long x = (long long)(u64)ext<64>(a, true), y = (long long)(u64)ext<64>(b, true);
        if (y == -1) { q = (U<N>)(0 - (u64)x); r = 0; }
        else { q = (U<N>)(x / y); r = (U<N>)(x % y); }
    } else {
        q = (U<N>)((u64)a / (u64)b); r = (U<N>)((u64)a % (u64)b);
    }
}
// textbook long division, on words as a processor would do it (close to the code, so that the solver sees equal steps)
template <int N> AI bool w_ge(U<N> r, U<N> t) {
    bool gt = false, eq = true;
    for (int i = (N + 63) / 64 - 1; i >= 0; i--) {
        u64 x = sym_id((u64)(r >> (64 * i))), y = sym_id((u64)(t >> (64 * i)));
        gt |= (bool)sym_id(eq & (x > y));
        eq &= x == y;
    }
    return sym_id(gt) | eq;
}
template <int N> AI void l_div(U<N> a, U<N> b, U<N> &q, U<N> &r) {
    q = 0; r = a;
    for (int k = N - 1; k >= 0; k--) {
        // does the divisor still fit when moved up by k?
        if (k && (U<N>)(b >> (N - k)) != 0) continue;
        U<N> t = (U<N>)(b << k);
        // minus t, as plus its two's complement
        U<N> nt = 0;
        for (int i = 0; i < (N + 63) / 64; i++) nt |= (U<N>)((U<N + 64>)sym_id((u64)((U<N>)~t >> (64 * i))) << (64 * i));
        if (w_ge<N>(r, t)) { r += (U<N>)(nt + 1); q |= (U<N>)((U<N>)1 << k); }
    }
}
'''


def div(A, B, op):
    """native widths: the quotient and the remainder themselves"""
    W, sg, f = max(A.n, B.n), A.sg and B.sg, four(A, B)
    return bcase('%s_%s_%s' % (op, A.nm, B.nm), A, B, 'a %s b' % ('/' if op == 'div' else '%'),
                 'U<%(W)d> q = 0, r = 0; if (vb.v != 0) s_div<%(W)d>(ext<%(W)d>(va.v, %(s)s), ext<%(W)d>(vb.v, %(s)s), %(s)s, q, r);'
                 'o.expect<%(W)d>(%(x)s ? allx<%(W)d>() : V<%(W)d>{%(v)s, 0}, %(f)s, %(sg)d);'
                 % dict(W=W, s=tb(sg), f=tb(f), sg=sg, v='q' if op == 'div' else 'r',
                        x='(va.m != 0) | (vb.m != 0) | (vb.v == 0)' if f else 'false'), spec_pre=DIVPRE)


def bigdiv(A, B, ha, hbs, tag):
    """more than 64 bits: one execution per position of the highest bit of the divisor's magnitude,
    with the dividend's highest bit at ha (None: anywhere below bit 64, where the code divides natively)"""
    n, m = A.n, B.n
    W, sg, f = max(n, m), A.sg and B.sg, four(A, B)
    sp = 'sym_fork(0, %d, 0xffff); u64 k = sym_u64(0); static const int hb_[] = {%s}; sym_assume(k < %d); int hb = hb_[k];' % (
        len(hbs), ','.join(map(str, hbs)), len(hbs))
    sp += 'bool nega = (sym_u64(1) & 1) && %s, negb = (sym_u64(2) & 1) && %s; (void)nega; (void)negb;' % (tb(sg), tb(sg))
    wa, wb = (n + 63) // 64, (m + 63) // 64
    base = 3
    def mag(v, N, w0, h):
        s = 'U<%d> %s = 0;' % (N, v)
        for i in range((N + 63) // 64):
            s += '%s |= (U<%d>)((U<%d>)sym_u64(%d)%s);' % (v, N, N + 64, w0 + i, ' << %d' % (64 * i) if i else '')
        s += '%s = (U<%d>)((%s & (U<%d>)(((U<%d>)1 << %s) - 1)) | (U<%d>)((U<%d>)1 << %s));' % (v, N, v, N, N + 1, h, N, N + 1, h)
        return s
    sp += mag('ma', n, base, ha)
    sp += mag('mb', m, base + wa, 'hb')
    if sg and ha >= 64:
        # odd magnitudes: the top bits of their negations are then known
        sp += 'ma |= 1; mb |= 1;'
    # the values themselves: negated magnitudes (the most negative value is its own magnitude)
    sp += 'U<%d> xa = nega ? (U<%d>)%s : ma; U<%d> xb = negb ? (U<%d>)%s : mb;' % (
        (n, n) + (('(~ma | 1)',) if sg and ha >= 64 else ('-ma',)) + (m, m) + (('(~mb | 1)',) if sg and ha >= 64 else ('-mb',)))
    if sg:
        sp += 'if (!nega) sym_assume(!top<%d>(ma)); else sym_assume(!top<%d>(ma) || (U<%d>)(ma << 1) == 0);' % (n, n, n)
        sp += 'if (!negb) sym_assume(!top<%d>(mb)); else sym_assume(!top<%d>(mb) || (U<%d>)(mb << 1) == 0);' % (m, m, m)
    sp += 'put<%d>(in, xa);%s put<%d>(in, xb);%s RUN;' % (n, 'put<%d>(in, 0);' % n if A.four else '', m, 'put<%d>(in, 0);' % m if B.four else '')
    if ha < 64 and hbs[0] < 64:
        sp += 'U<%d> q = (u64)ma / (u64)mb, r = (u64)ma %% (u64)mb;' % W
    else:
        sp += 'U<%d> q, r; l_div<%d>((U<%d>)ma, (U<%d>)mb, q, r);' % (W, W, W, W)
    if sg:
        sp += 'if (nega != negb) q = -q; if (nega) r = -r;'
    sp += 'o.expect<%d>(V<%d>{q, 0}, %s, %d); o.expect<%d>(V<%d>{r, 0}, %s, %d);' % (W, W, tb(f), sg, W, W, tb(f), sg)
    return Case('divmod_%s_%s_h%s%s' % (A.nm, B.nm, ha, tag), A.ld('a') + B.ld('b') + ' st(a / b, o); st(a %% b, o);'.replace('%%', '%'), sp, spec_pre=DIVPRE)


def bigx(A, B):
    """more than 64 bits, x/z operands and zero divisors"""
    W, sg, f = max(A.n, B.n), A.sg and B.sg, four(A, B)
    c = 'sym_assume((va.m != 0) | (vb.m != 0) | (vb.v == 0));' if f else 'sym_assume(vb.v == 0);'
    return Case('divx_%s_%s' % (A.nm, B.nm), A.ld('a') + B.ld('b') + ' st(a / b, o); st(a % b, o);',
                A.get('va') + B.get('vb') + c + ' RUN; ' + 2 * ('o.expect<%d>(%s, %s, %d);' % (
                    W, 'allx<%d>()' % W if f else 'V<%d>{0, 0}' % W, tb(f), sg)))


def divs(tier):
    r = []
    N1 = [1, 5, 8, 13, 16, 32, 33, 64] if tier == 'quick' else [n for n in T_SAME if n <= 64]
    M = [(n, m) for n, m in mix(tier) if n <= 64 and m <= 64]
    for op in ('div', 'mod'):
        for kind in (b, l):
            for n, m in [(n, n) for n in N1] + M:
                for x, y in SG:
                    r.append(div(kind(n, x), kind(m, y), op))
        for n, m in [(n, n) for n in N1] + M:
            r.append(div(l(n), b(m), op))
            r.append(div(l(n, True), b(m, True), op))
        r.append(div(T('logic', 10, 3), T('logic', 12, 5), op))
        r.append(div(T('logic', 0, 12), l(13), op))
        r.append(div(T('bit', 0, 7), T('bit', 0, 12), op))
    for A, B in ((b(65), b(65)), (b(65, True), b(65, True)), (l(65), l(65)), (l(65, True), l(65, True)), (l(65, True), l(65)), (b(100), b(64)),
                 (b(64, True), b(100, True)), (l(100), b(100)), (l(100, True), b(70, True))):
        r.append(bigx(A, B))
    for A, B, ks in ((b(65), b(65), (61, 62, 63, 64)), (l(65), l(65), (62, 63, 64)), (b(100), b(80), (78, 79)), (b(65, True), b(65), (62, 63)),
                     (l(128), l(128), (126, 127)), (b(70), b(200), (67, 68))):
        for k in ks:
            r.append(bigdiv(A, B, min(A.n - 1, k + (3 if A.n <= 70 else 2)), [k], 'k%d' % k))
    for A, B in ((b(66, True), b(66, True)), (l(100, True), l(70, True)), (b(128, True), b(66, True))):
        for h, k in ((64, 64), (65, 64), (64, 63), (64, 62), (68, 67), (66, 66)):
            if h < A.n - 1 and k < B.n - 1:
                r.append(bigdiv(A, B, h, [k], 'k%d' % k))
    for A, B in ((b(65), b(65)), (l(100), b(70)), (b(128, True), b(66, True)), (l(65, True), l(65, True))):
        for h, k in ((63, 63), (63, 62), (63, 60), (36, 31), (40, 39), (20, 5), (7, 6)):
            r.append(bigdiv(A, B, h, [k], 'k%d' % k))
    return dedupe(r)


PROPS = {
    'C02': {
        'cases': addsub, 'chunk': 24,
        'bounds': lambda t: 'all 2- and 4-state operand values of the listed widths (%s; mixed %s) and signedness pairs; carry loops fully unrolled' % (
            same(t), mix(t)),
    },
    'C03': {
        'cases': mults, 'chunk': 24,
        'bounds': lambda t: 'all operand values of the listed widths (%s; mixed %s) and signedness pairs' % (same(t), mix(t)),
    },
    'C04': {
        'cases': divs, 'chunk': 16,
        'bounds': lambda t: 'all operand values up to 64 bits; above, the dividend has its highest set bit at the listed positions and the divisor anywhere',
    },
}
