"""C09-C11: single bits, slices and updates by declared index."""
from .base import *

PRE = '''
typedef int64_t i64;
// W bits of x from position p on; positions outside x give 0
template <int W, int N> AI U<W> cut(U<N> x, i64 p) {
    if (p >= N || p <= -W) return 0;
    U<N + W + 64> w = x;
    return p >= 0 ? (U<W>)(w >> (U<N + W + 64>)p) : (U<W>)(w << (U<N + W + 64>)-p);
}
// x with the W bits from position p on replaced
template <int W, int N> AI U<N> paste(U<N> x, U<W> y, i64 p) {
    U<N> m = cut<N, W>(ones<W>(), -p);
    return (U<N>)((x & ~m) | cut<N, W>(y, -p));
}
'''


def pos(X, i):
    """significance of the bit declared at i (a C++ expression or a number)"""
    if isinstance(i, int):
        return i - X.lsb if X.msb >= X.lsb else X.lsb - i
    return '((i64)%s - (%d))' % (i, X.lsb) if X.msb >= X.lsb else '((i64)%d - (i64)%s)' % (X.lsb, i)


def idxs(X):
    lo, hi = min(X.msb, X.lsb), max(X.msb, X.lsb)
    s = {lo, hi, (lo + hi) // 2}
    if X.n > 64:
        s |= {X.lsb + (64 if X.msb >= X.lsb else -64), X.lsb + (63 if X.msb >= X.lsb else -63)}
    return sorted(s)


def nm(i):
    return str(i).replace('-', 'm')


def bitof(X, p):
    return ('V<1>{cut<1, %d>(va.v, %s), %s}' % (X.n, p, 'cut<1, %d>(va.m, %s)' % (X.n, p) if X.four else '(U<1>)0'))


def index_value(B, v, X):
    """declares i64 i and bool known from the index value v of type B; saturates outside every range"""
    s = 'bool known = %s.m == 0; i64 i;' % v
    if B.n <= 64:
        if B.sg:
            s += 'i = (i64)(u64)ext<64>(%s.v, true);' % v
        else:
            s += 'i = (u64)%s.v > 0x7fffffff ? 0x7fffffff : (i64)(u64)%s.v;' % (v, v)
    elif B.sg:
        s += '{ U<%d> w = %s.v; i64 lo = (i64)(u64)w; i = ext<%d, 64>((U<64>)(u64)w, true) == w ? lo : top<%d>(w) ? -0x80000000ll : 0x7fffffff; }' % (
            B.n, v, B.n, B.n)
    else:
        s += 'i = (%s.v >> 31) != 0 ? 0x7fffffff : (i64)(u64)%s.v;' % (v, v)
    s += 'if (i > 0x7fffffff) i = 0x7fffffff; if (i < -0x80000000ll) i = -0x80000000ll;'
    return s


def rd(X, i):
    """expected value of reading index i"""
    p = pos(X, i)
    if X.four:
        return 'V<1>{cut<1, %d>(va.v, %s), (U<1>)(cut<1, %d>(va.m, %s) | (U<1>)~cut<1, %d>(ones<%d>(), %s))}' % (
            X.n, p, X.n, p, X.n, X.n, p)
    return 'V<1>{cut<1, %d>(va.v, %s), 0}' % (X.n, p)


def types9(tier):
    t = []
    for k in ('bit', 'logic'):
        for m, ls in ((7, 0), (0, 7), (15, 8), (4, 11), (3, -4), (0, 0), (5, 5), (12, 0), (63, 0), (0, 63), (64, 0), (99, 0), (0, 99), (103, 4),
                      (7, 106)) + (() if tier == 'quick' else ((31, 0), (0, 31), (1, 0), (0, 1), (127, 0), (128, 0), (0, 128), (-1, -70), (-70, -1), (200, 9), (39, 8), (8, 39))):
            for s in (False, True):
                if s and tier == 'quick' and (m, ls) not in ((12, 0), (7, 0), (4, 11), (0, 0), (63, 0), (99, 0), (7, 106)):
                    continue
                t.append(T(k, m, ls, s))
    return t


def single(tier):
    r = []
    for X in types9(tier):
        f = tb(X.four)
        n = X.n
        cls = X.cpp
        r.append(Case('idx_%s' % X.nm, X.ld('a') + 'int i = (int)*p++; st(a[i], o);',
                      X.get('va') + 'int i = (int)in.word(); RUN; o.expect<1>(%s, %s, 0);' % (rd(X, 'i'), f), spec_pre=PRE))
        wide = ' i64 p = %s; U<%d> bm = cut<%d, 1>(ones<1>(), -p);' % (pos(X, 'i'), n, n)
        st = 'o.expect<%d>(V<%d>{v ? (U<%d>)(va.v | bm) : (U<%d>)(va.v & ~bm), %s}, %s, %d);' % (
            n, n, n, n, '(U<%d>)(va.m & ~bm)' % n if X.four else '(U<%d>)0' % n, f, X.sg)
        r.append(Case('set_%s' % X.nm, X.ld('a') + 'int i = (int)*p++; bool v = *p++ & 1; a.set(i, v); st(a, o);',
                      X.get('va') + 'int i = (int)in.word(); bool v = in.word() & 1; RUN;' + wide + st, spec_pre=PRE))
        if not X.four:
            r.append(Case('setb_%s' % X.nm, X.ld('a') + 'int i = (int)*p++; bool v = *p++ & 1; a.set(i, L::bit<0>(v)); st(a, o);',
                          X.get('va') + 'int i = (int)in.word(); bool v = in.word() & 1; RUN;' + wide + st, spec_pre=PRE))
        else:
            r.append(Case('setl_%s' % X.nm, X.ld('a') + 'int i = (int)*p++; auto v = ld<L::logic<0>>(p); a.set(i, v); st(a, o);',
                          X.get('va') + 'int i = (int)in.word(); auto v = in.val<1, true>(); RUN;' + wide +
                          'o.expect<%d>(V<%d>{v.v ? (U<%d>)(va.v | bm) : (U<%d>)(va.v & ~bm), v.m ? (U<%d>)(va.m | bm) : (U<%d>)(va.m & ~bm)}, true, %d);' % (
                              n, n, n, n, n, n, X.sg), spec_pre=PRE))
            r.append(Case('xz_%s' % X.nm, X.ld('a') + 'int i = (int)*p++; st(a.x_set(i), o); st(a.z_set(i), o); auto c = a; c.set_x(i); st(c, o); c = a; c.set_z(i); st(c, o);',
                          X.get('va') + 'int i = (int)in.word(); RUN;' + wide +
                          'o.expect_bool((va.m & ~va.v & bm) != 0); o.expect_bool((va.m & va.v & bm) != 0);'
                          'o.expect<%d>(V<%d>{(U<%d>)(va.v & ~bm), (U<%d>)(va.m | bm)}, true, %d);'
                          'o.expect<%d>(V<%d>{(U<%d>)(va.v | bm), (U<%d>)(va.m | bm)}, true, %d);' % (n, n, n, n, X.sg, n, n, n, n, X.sg), spec_pre=PRE))
        # indices known at compile time
        impl, spec = X.ld('a') + 'bool v = *p++ & 1;', X.get('va') + 'bool v = in.word() & 1; RUN; U<%d> bm;' % n
        for i in idxs(X):
            impl += 'st(a.template get<%d>(), o);' % i
            spec += 'o.expect<1>(%s, %s, 0);' % (rd(X, i), f)
            for how in ('a.template set<%d>(v)' % i, 'a.template set<%d, true>()' % i, 'a.template set<%d, false>()' % i):
                impl += '{ auto b = a; %s; st(b, o); }' % how.replace('a.', 'b.')
                vv = 'v' if '(v)' in how else 'true' if 'true' in how else 'false'
                spec += 'bm = (U<%d>)((U<%d>)1 << %d);' % (n, n, pos(X, i)) + st.replace('{v ?', '{%s ?' % vv)
            if X.four:
                impl += 'st(a.template x_set<%d>(), o); st(a.template z_set<%d>(), o);{ auto b = a; b.template set_x<%d>(); st(b, o); b.template set_z<%d>(); st(b, o); }' % (i, i, i, i)
                spec += ('o.expect_bool((va.m & ~va.v & bm) != 0); o.expect_bool((va.m & va.v & bm) != 0);'
                         'o.expect<%d>(V<%d>{(U<%d>)(va.v & ~bm), (U<%d>)(va.m | bm)}, true, %d);'
                         'o.expect<%d>(V<%d>{(U<%d>)(va.v | bm), (U<%d>)(va.m | bm)}, true, %d);' % (n, n, n, n, X.sg, n, n, n, n, X.sg))
        r.append(Case('static_%s' % X.nm, impl, spec, spec_pre=PRE))
        # indices that are values themselves
        IX = [T('bit', 7, 0), T('bit', 7, 0, True), T('logic', 7, 0), T('logic', 31, 0, True), T('logic', 79, 0), T('bit', 69, 0, True), T('bit', 63, 0)]
        for k, B in enumerate(IX):
            if tier == 'quick' and (k + n + X.msb) % 3:
                continue
            if B.four and not X.four:
                continue
            sp = X.get('va') + B.get('vb') + ' RUN;' + index_value(B, 'vb', X)
            if X.four:
                sp += 'o.expect<1>(known ? %s : V<1>{0, 1}, true, 0);' % rd(X, 'i')
            else:
                sp += 'o.expect_bool((bool)(%s).v);' % rd(X, 'i')
            r.append(Case('get_%s_%s' % (X.nm, B.nm), X.ld('a') + B.ld('b') + 'st(a.get(b), o);', sp, spec_pre=PRE))
    return dedupe(r)


def types10(tier):
    t = []
    for k in ('bit', 'logic'):
        for m, ls, s in ((7, 0, 0), (7, 0, 1), (0, 7, 0), (15, 8, 0), (4, 11, 1), (3, -4, 0), (0, 0, 0), (12, 0, 1), (63, 0, 0), (63, 0, 1), (0, 63, 0), (64, 0, 0),
                         (99, 0, 0), (99, 0, 1), (0, 99, 0), (103, 4, 0), (7, 106, 0), (199, 0, 0)) + (
                             () if tier == 'quick' else ((31, 0, 0), (31, 0, 1), (0, 31, 0), (127, 0, 0), (0, 127, 1), (128, 0, 0), (-1, -70, 0), (-70, -1, 0), (299, 0, 0), (39, 8, 1))):
            t.append(T(k, m, ls, bool(s)))
    return t


def nwords(*ts):
    return sum(x.word() * (2 if x.four else 1) for x in ts)


def static_ranges(X, tier):
    """(hi, lo) pairs in declaration order"""
    lo, hi = min(X.msb, X.lsb), max(X.msb, X.lsb)
    w = X.n
    offs = {(w - 1, 0), (0, 0), (w - 1, w - 1), (w // 2, 0), (w - 1, w // 2), (2 * w // 3, w // 3)}
    if w > 65:
        offs |= {(63, 0), (64, 0), (64, 1), (64, 63), (w - 1, w - 64), (w - 1, w - 65), (66, 3), (w - 1, 1)}
    if w > 130:
        offs |= {(129, 64), (128, 64), (127, 64), (130, 1), (190, 60)}
    if tier != 'quick' and w < 100:
        offs |= {(j, i) for j in range(0, w, max(1, w // 8)) for i in range(0, j + 1, max(1, w // 8))}
    r = []
    for h, l_ in sorted(offs):
        if X.msb >= X.lsb:
            r.append((X.lsb + h, X.lsb + l_))
        else:
            r.append((X.lsb - h, X.lsb - l_))
    return r


def index_in(X, W, B, words):
    """spec: puts an index (B None: a 32-bit int) and declares its value; words input words precede it.
    Every index near the range gets an execution of its own, all the others share one."""
    lo = min(X.msb, X.lsb) - W
    near = X.n + 2 * W
    small = X.n * W <= 64
    s = '' if small else 'sym_fork(%d, %d, ~0ull);' % (words, near)
    if B is None:
        s += 'int i = (int)(u64)(sym_u64(%d) + (u64)(%dll)); sym_assume(i > -(1 << 30) && i < (1 << 30)); put<64>(in, (u64)(i64)i);' % (words, lo)
        if not small:
            # the high half of the word is not part of the index
            s = s.replace('~0ull', '0xffffffffull')
        return s
    n = B.n
    s += 'V<%d> vi; vi.v = (U<%d>)(u64)(sym_u64(%d) + (u64)(%dll));' % (n, n, words, lo)
    if n > 64:
        s += 'vi.v |= (U<%d>)((U<%d>)sym_u64(%d) << 64);' % (n, n + 64, words + 1)
    if n < 64:
        s = s.replace('~0ull', '%dull' % ((1 << n) - 1))
        if near >= 1 << n:
            s = s.replace('sym_fork(%d, %d' % (words, near), 'sym_fork(%d, %d' % (words, 1 << n))
    s += 'put<%d>(in, vi.v); vi.m = 0;' % n
    if not small:
        if n > 64:
            s = 'sym_fork(%d, 1, %dull);' % (words + 1, (1 << (n - 64)) - 1) + s
        if B.four:
            s = 'sym_fork(%d, 1, %dull);' % (words + (n + 63) // 64, (1 << min(n, 64)) - 1) + s
            if n > 64:
                s = 'sym_fork(%d, 1, %dull);' % (words + 3, (1 << (n - 64)) - 1) + s
    if B.four:
        k = words + (n + 63) // 64
        s += 'vi.m = 0;' + ''.join('vi.m |= (U<%d>)((U<%d>)sym_u64(%d) << %d);' % (n, n + 64, k + j, 64 * j) for j in range((n + 63) // 64))
        s += 'put<%d>(in, vi.m);' % n
    return s


def expect_cut(X, W, p):
    if X.four:
        return 'o.expect<%(W)d>(V<%(W)d>{cut<%(W)d, %(n)d>(va.v, %(p)s), (U<%(W)d>)(cut<%(W)d, %(n)d>(va.m, %(p)s) | (U<%(W)d>)~cut<%(W)d, %(n)d>(ones<%(n)d>(), %(p)s))}, true, 0);' % dict(
            W=W, n=X.n, p=p)
    return 'o.expect<%d>(V<%d>{cut<%d, %d>(va.v, %s), 0}, false, 0);' % (W, W, W, X.n, p)


def bases():
    return [T('bit', 7, 0), T('logic', 7, 0), T('logic', 31, 0, True), T('bit', 15, 0, True), T('bit', 63, 0), T('logic', 79, 0)]


def slices(tier):
    r = []
    for X in types10(tier):
        impl, spec = X.ld('a'), X.get('va') + ' RUN;'
        k = 0
        for h, lo in static_ranges(X, tier):
            W = abs(h - lo) + 1
            impl += 'st(a.template slice<%d, %d>(), o);' % (h, lo)
            spec += expect_cut(X, W, str(pos(X, lo)))
            k += (2 if X.four else 1) * ((W + 63) // 64) + 1
            if k > 120:
                r.append(Case('slice_%s_%s' % (X.nm, nm(h)), impl, spec, spec_pre=PRE))
                impl, spec, k = X.ld('a'), X.get('va') + ' RUN;', 0
        r.append(Case('slice_%s' % X.nm, impl, spec, spec_pre=PRE))
        up = X.msb >= X.lsb
        Ws = sorted({1, min(4, X.n), X.n // 2 + 1, X.n} | ({64, 65} if X.n > 65 else set()))
        if tier == 'quick' and X.n > 32:
            Ws = [w for j, w in enumerate(Ws) if (j + X.msb) % 2]
        for W in Ws:
            # both ends given at run time, in declaration order
            c = W - 1
            a, b_ = ('i + %d' % c, 'i') if up else ('i - %d' % c, 'i')
            r.append(Case('rt_%s_w%d' % (X.nm, W), X.ld('a') + 'int i = (int)*p++; st(a.template slice<%d>(%s, %s), o);' % (W, a, b_),
                          X.get('va') + index_in(X, W, None, nwords(X)) + 'RUN; i64 p = %s;' % pos(X, 'i') + expect_cut(X, W, 'p'), spec_pre=PRE))
            for j, B in enumerate(bases()):
                for inc in (True, False):
                    if tier == 'quick' and (j + 3 * inc + W + X.msb) % 6:
                        continue
                    # the index of the end that is the least significant
                    low = 'i' if inc == up else ('i - %d' % c if up else 'i + %d' % c)
                    e = expect_cut(X, W, 'p')
                    sp = X.get('va') + index_in(X, W, B, nwords(X)) + 'RUN;' + index_value(B, 'vi', X) + 'i64 p = %s;' % pos(X, '(%s)' % low)
                    sp += 'if (!known) { o.expect<%d>(%s, %s, 0); } else { %s }' % (W, 'allx<%d>()' % W if X.four else 'V<%d>{0, 0}' % W, tb(X.four), e)
                    r.append(Case('base_%s_w%d_%s_%s' % (X.nm, W, 'up' if inc else 'dn', B.nm),
                                  X.ld('a') + B.ld('b') + 'st(a.template slice<%d, %s>(b), o);' % (W, tb(inc)), sp, spec_pre=PRE))
    return dedupe(r)


def expect_paste(X, Y, W, p):
    """W bits at position p of X become those of Y, zero extended or truncated"""
    d = dict(n=X.n, m=Y.n, W=W, p=p, sg=int(X.sg), f=tb(X.four))
    s = 'o.expect<%(n)d>(V<%(n)d>{paste<%(W)d, %(n)d>(va.v, ext<%(W)d>(vb.v, false), %(p)s), ' % d
    s += 'paste<%(W)d, %(n)d>(va.m, ext<%(W)d>(vb.m, false), %(p)s)}' % d if X.four else '0}'
    return s + ', %(f)s, %(sg)d);' % d


def updates(tier):
    r = []
    for X in types10(tier):
        up = X.msb >= X.lsb
        for q, (h, lo) in enumerate(static_ranges(X, 'quick')):
            W = abs(h - lo) + 1
            # operands as wide as the slice, narrower, wider, and with ranges of their own, in the same and in the other direction
            ys = [T(X.kind, W - 1, 0) if up else T(X.kind, 0, W - 1), T(X.kind, W + 2, 3) if up else T(X.kind, 3, W + 2)]
            ys.append(T(X.kind, 0, W - 1) if up else T(X.kind, W - 1, 0))
            ys.append(T(X.kind, max(0, W // 2 - 1), 0, True))
            ys.append(T(X.kind, W + 4, 0, True))
            for j, Y in enumerate(ys):
                if tier == 'quick' and (j + q) % 5:
                    continue
                impl = X.ld('a') + Y.ld('b') + 'auto c = a; c.template update<%d, %d>(b); st(c, o); auto d = a; auto s = d.template slice_ref<%d, %d>(); s = b; st(d, o);' % (h, lo, h, lo)
                e = expect_paste(X, Y, W, str(pos(X, lo)))
                r.append(Case('upd_%s_%s_%s_%s' % (X.nm, nm(h), nm(lo), Y.nm), impl, X.get('va') + Y.get('vb') + 'RUN;' + e + e, spec_pre=PRE))
        Ws = sorted({1, min(4, X.n), X.n // 2 + 1} | ({65} if X.n > 65 else set()))
        if tier == 'quick' and X.four and X.n > 65:
            Ws = [1, 4, 17, 65] if (X.msb, X.lsb) == (99, 0) else [1, 4, 17]
        for W in Ws:
            c = W - 1
            a, b_ = ('i + %d' % c, 'i') if up else ('i - %d' % c, 'i')
            for Y in (T(X.kind, W - 1, 0), T(X.kind, 0, W), T(X.kind, W + 9, 10, True)):
                if tier == 'quick' and (W + Y.n + X.msb) % 3:
                    continue
                r.append(Case('rtu_%s_w%d_%s' % (X.nm, W, Y.nm), X.ld('a') + Y.ld('b') + 'int i = (int)*p++; auto c = a; c.update(%s, %s, b); st(c, o); auto d = a; auto s = d.slice_ref(%s, %s); s = b; st(d, o);' % (a, b_, a, b_),
                              X.get('va') + Y.get('vb') + index_in(X, W, None, nwords(X, Y)) + 'RUN; i64 p = %s;' % pos(X, 'i') + 2 * expect_paste(X, Y, W, 'p'), spec_pre=PRE))
            for j, B in enumerate(bases()):
                for inc in (True, False):
                    if tier == 'quick' and (j + 3 * inc + W + X.msb) % 6:
                        continue
                    Y = T(X.kind, W - 1, 0)
                    low = 'i' if inc == up else ('i - %d' % c if up else 'i + %d' % c)
                    sp = X.get('va') + Y.get('vb') + index_in(X, W, B, nwords(X, Y)) + 'RUN;' + index_value(B, 'vi', X) + 'i64 p = known ? %s : 0x7fffffff;' % pos(X, '(%s)' % low) + expect_paste(X, Y, W, 'p')
                    r.append(Case('ref_%s_w%d_%s_%s' % (X.nm, W, 'up' if inc else 'dn', B.nm),
                                  X.ld('a') + Y.ld('b') + B.ld('c') + 'auto s = a.template slice_ref<%d, %s>(c); s = b; st(a, o);' % (W, tb(inc)), sp, spec_pre=PRE))
    return dedupe(r)


PROPS = {
    'C09': {'cases': single, 'chunk': 12,
            'bounds': 'all values, all indices (any 32-bit int, or any value of the listed index types) of the listed ranges'},
    'C10': {'cases': slices, 'chunk': 12,
            'bounds': 'all values; compile time ranges at storage boundaries; run time ends and bases of any value (ends within +-2^30) for the listed slice widths'},
    'C11': {'cases': updates, 'chunk': 12,
            'bounds': 'all values of target and operand; compile time ranges at storage boundaries; run time ends and bases of any value (ends within +-2^30) for the listed slice widths'},
}
