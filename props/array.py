"""C17 packed arrays, C18 unpacked arrays, C21 packed structs and unions."""
from .base import *
from .access import PRE, index_value, expect_paste, nm


class A:
    """packed array of T elements declared [msb:lsb]"""
    def __init__(self, el, msb, lsb=0):
        self.el, self.msb, self.lsb = el, msb, lsb
        self.four, self.sg = el.four, el.sg
        self.N = abs(msb - lsb) + 1
        self.n = self.N * el.n

    @property
    def cpp(self):
        return 'L::packed_array<%s, %d, %d>' % (self.el.cpp, self.msb, self.lsb)

    @property
    def nm(self):
        return 'a%s_%s_%s' % (self.el.nm, nm(self.msb), nm(self.lsb))

    def get(self, v):
        return 'auto %s = in.val<%d, %s>();' % (v, self.n, tb(self.four))

    def ld(self, v):
        return 'auto %s = ld<%s>(p);' % (v, self.cpp)

    def at(self, i):
        """position of element i, in elements, as a C++ expression or a number"""
        if isinstance(i, int):
            return i - self.lsb if self.msb >= self.lsb else self.lsb - i
        return '((i64)%s - (%d))' % (i, self.lsb) if self.msb >= self.lsb else '((i64)%d - (i64)%s)' % (self.lsb, i)

    def has(self, i):
        return '(%s >= %d && %s <= %d)' % (i, min(self.msb, self.lsb), i, max(self.msb, self.lsb))

    def indices(self):
        return range(min(self.msb, self.lsb), max(self.msb, self.lsb) + 1)


def arrays(tier):
    r = []
    els = [l(1), l(5), l(8), l(16, True), l(33), b(1), b(5, True), b(8), b(16), b(33), l(64), b(64, True), l(70), b(70)]
    rng = [(3, 0), (0, 3), (9, 0), (6, 4), (2, 5), (1, -2), (0, 0)]
    if tier != 'quick':
        els += [l(3), l(7, True), l(13), l(32), b(13, True), b(31), b(32, True), l(100), b(128), T('logic', 0, 7), T('bit', 11, 4)]
        rng += [(7, 0), (0, 7), (15, 0), (-1, -3), (100, 98), (98, 100), (31, 0)]
    for q, e in enumerate(els):
        for k, (m, ls) in enumerate(rng):
            a = A(e, m, ls)
            if tier == 'quick' and ((q + k) % 3 and (e.n, m) not in ((8, 3), (16, 9)) or a.n > 330):
                continue
            if a.n > 700:
                continue
            r.append(a)
    r.append(A(T('logic', 0, 7), 3, 0))
    r.append(A(T('bit', 11, 4), 0, 3))
    return r


def fork(X, B):
    """spec: one execution for each index from 0 to the end of the range, one for all the others"""
    k, top = (2 if X.four else 1) * ((X.n + 63) // 64), max(X.msb, X.lsb)
    if top < 1:
        return ''
    n, s = B.n, ''
    for j in range(2 if n > 64 else 1, 0, -1):
        s += 'sym_fork(%d, 1, %dull);' % (k + (n + 63) // 64 + j - 1, (1 << min(64, n - 64 * (j - 1))) - 1)
    if n > 64:
        s += 'sym_fork(%d, 1, %dull);' % (k + 1, (1 << (n - 64)) - 1)
    m = (1 << min(n, 64)) - 1
    return s + 'sym_fork(%d, %d, %dull);' % (k, min(top + 1, m + 1), m)


def pick(X, i, W=1):
    """W elements from the position of element i (the lowest)"""
    return W * X.el.n, '(i64)%s * %d' % (X.at(i), X.el.n)


def expect_elem(X, W, p):
    d = dict(W=W, n=X.n, p=p)
    return 'o.expect<%(W)d>(V<%(W)d>{cut<%(W)d, %(n)d>(va.v, %(p)s), ' % d + ('cut<%(W)d, %(n)d>(va.m, %(p)s)}, true' % d if X.four else '0}, false') + ', 0);'


def packed(tier):
    r = []
    for q, X in enumerate(arrays(tier)):
        f = tb(X.four)
        # whole value: construction and declared sizes
        r.append(Case('val_%s' % X.nm, '%s d; st(d, o); %s e(*p); st(e, o);' % (X.cpp, X.cpp),
                      'u64 w = in.word(); RUN; o.expect<%d>(%s, %s, %d); o.expect<%d>(V<%d>{ext<%d>((U<64>)w, false), 0}, %s, %d);' % (
                          X.n, 'allx<%d>()' % X.n if X.four else 'V<%d>{0, 0}' % X.n, f, X.sg, X.n, X.n, X.n, f, X.sg), spec_pre=PRE))
        # elements and runs of elements, known at compile time, read and written
        impl, spec = X.ld('a'), X.get('va') + ' RUN;'
        ix = list(X.indices())
        up = X.msb >= X.lsb
        runs = {(i, i) for i in (ix[0], ix[-1], ix[len(ix) // 2])} | {(ix[-1], ix[0]), (ix[-1], ix[len(ix) // 2]), (ix[len(ix) // 2], ix[0])}
        if len(ix) > 2:
            runs.add((ix[-2], ix[1]))
        for h, lo in sorted(runs):
            if not up:
                h, lo = lo, h
            W, p = pick(X, lo, abs(h - lo) + 1)
            impl += 'st(a.template slice_array<%d, %d>(), o);' % (h, lo)
            spec += expect_elem(X, W, p)
        r.append(Case('slice_%s' % X.nm, impl, spec, spec_pre=PRE))
        for j, (h, lo) in enumerate(sorted(runs)):
            if tier == 'quick' and (j + q) % 2:
                continue
            if not up:
                h, lo = lo, h
            W, p = pick(X, lo, abs(h - lo) + 1)
            for t, Y in enumerate((T(X.el.kind, W - 1), T(X.el.kind, W + 6, 0, True), T(X.el.kind, max(0, W - 3), 0, True), T(X.el.kind, W + 3, 4))):
                if tier == 'quick' and (t + j) % 4 not in (0, 1):
                    continue
                r.append(Case('upd_%s_%s_%s_%s' % (X.nm, nm(h), nm(lo), Y.nm), X.ld('a') + Y.ld('b') + 'a.template update<%d, %d>(b); st(a, o);' % (h, lo),
                              X.get('va') + Y.get('vb') + 'RUN;' + expect_paste(X, Y, W, p), spec_pre=PRE))
        # elements by value
        n = X.el.n
        for k, B in enumerate((T('logic', 31, 0, True), T('logic', 7, 0), T('logic', 3, 0, True), T('logic', 63, 0), T('logic', 79, 0), T('logic', 0, 15))):
            if tier == 'quick' and (k + q) % 3:
                continue
            sp = X.get('va') + B.get('vb') + ' RUN;' + index_value(B, 'vb', X) + 'bool in_ = known && %s;' % X.has('i')
            sp += 'o.expect<%d>(in_ ? V<%d>{%s, %s} : %s, %s, 0);' % (
                n, n, sel(X, 'v'), sel(X, 'm') if X.four else '(U<%d>)0' % n, 'allx<%d>()' % n if X.four else 'V<%d>{0, 0}' % n, tb(X.four))
            sp = fork(X, B) + sp
            r.append(Case('idx_%s_%s' % (X.nm, B.nm), X.ld('a') + B.ld('b') + 'st(a[b], o);', sp, spec_pre=PRE))
            for t, Y in enumerate((T(X.el.kind, n - 1), T(X.el.kind, n + 6, 0, True), T(X.el.kind, max(0, n - 3), 0, True), T(X.el.kind, 0, n - 1))):
                if tier == 'quick' and (t + k + q) % 4:
                    continue
                sp = X.get('va') + B.get('vb') + Y.get('vc') + ' RUN;' + index_value(B, 'vb', X) + 'auto y = ext4<%d>(vc, false); auto r = va; u64 e = known && %s ? (u64)%s : ~0ull;' % (n, X.has('i'), X.at('i'))
                for g in range(X.N):
                    for c in ('vm' if X.four else 'v'):
                        sp += 'if (e == %d) r.%s = paste<%d, %d>(va.%s, y.%s, %d);' % (g, c, n, X.n, c, c, g * n)
                sp += 'o.expect<%d>(r, %s, %d);' % (X.n, tb(X.four), X.sg)
                sp = fork(X, B) + sp
                r.append(Case('set_%s_%s_%s' % (X.nm, B.nm, Y.nm), X.ld('a') + B.ld('b') + Y.ld('c') + 'a.update(b, c); st(a, o);', sp, spec_pre=PRE))
    # arrays of arrays: the element is the inner array
    for e, inner, outer in ((l(8), (3, 0), (1, 0)), (b(5), (0, 2), (2, 0)), (l(16), (4, 1), (0, 1)), (b(16, True), (2, 0), (3, 1)), (l(3), (1, 0), (3, 0))):
        I = A(e, *inner)
        X = A(I, *outer)
        n = I.n
        B = T('logic', 7, 0)
        sp = X.get('va') + B.get('vb') + ' RUN;' + index_value(B, 'vb', X) + 'bool in_ = known && %s;' % X.has('i')
        sp += 'o.expect<%d>(in_ ? V<%d>{%s, %s} : %s, %s, 0);' % (n, n, sel(X, 'v'), sel(X, 'm') if X.four else '(U<%d>)0' % n, 'allx<%d>()' % n if X.four else 'V<%d>{0, 0}' % n, tb(X.four))
        r.append(Case('nest_%s' % X.nm, X.ld('a') + B.ld('b') + 'st(a[b], o);', sp, spec_pre=PRE))
    return dedupe(r)


def sel(X, c):
    n = X.el.n
    s = '(U<%d>)0' % n
    for g in range(X.N):
        s = '(u64)%s == %d ? cut<%d, %d>(va.%s, %d) : (%s)' % (X.at('i'), g, n, X.n, c, g * n, s)
    return '(' + s + ')'


def unpacked(tier):
    r = []
    els = [l(1), l(8), l(13, True), b(8, True), b(33), l(64), l(70), b(100), T('logic', 0, 7), T('bit', 11, 4)]
    rng = [(3, 0), (0, 3), (7, 4), (2, 5), (1, -2), (0, 0), (-1, -3)]
    if tier != 'quick':
        els += [l(5), l(32, True), b(1), b(16), b(64, True), l(128)]
        rng += [(9, 0), (0, 9), (100, 97), (97, 100)]
    for q, e in enumerate(els):
        for k, (m, ls) in enumerate(rng):
            if tier == 'quick' and (q + k) % 2:
                continue
            N, lo = abs(m - ls) + 1, min(m, ls)
            cpp = 'L::unpacked_array<%s, %d, %d>' % (e.cpp, m, ls)
            name = '%s_%s_%s' % (e.nm, nm(m), nm(ls))
            vals = ''.join(e.get('v%d' % i) for i in range(N))
            # written one by one through update<>, in declaration order; read at any index
            impl = '%s a;' % cpp + ''.join('{ auto x = ld<%s>(p); a.template update<%d>(x); }' % (e.cpp, lo + i) for i in range(N))
            out = 'allx<%d>()' % e.n if e.four else 'V<%d>{0, 0}' % e.n
            # the raw index word: any int
            sp = vals + 'int i = (int)in.word(); RUN; u64 k = (u64)((int64_t)i - (%d)); V<%d> e = %s;' % (lo, e.n, out)
            sp += ''.join('if (k == %d) e = v%d;' % (i, i) for i in range(N)) + 'o.expect<%d>(e, %s, %d);' % (e.n, tb(e.four), e.sg)
            r.append(Case('read_%s' % name, impl + 'int i = (int)*p++; st(a[i], o);', sp))
            # an update changes one element and no other, and none outside the range
            W = e.like(msb=e.n + 3, lsb=0, sg=not e.sg)
            for how in ('in', 'below', 'above'):
                j = {'in': lo + N // 2, 'below': lo - 1, 'above': lo + N}[how]
                Y = [e, W][(q + k) % 2]
                im = impl + Y.ld('y') + 'a.template update<%d>(y); ' % j + ''.join('st(a[%d], o);' % (lo + i) for i in range(N))
                sp = vals + Y.get('vy') + ' RUN;'
                for i in range(N):
                    sp += 'o.expect<%d>(%s, %s, %d);' % (e.n, 'ext4<%d>(vy, %s)' % (e.n, tb(Y.sg)) if lo + i == j else 'v%d' % i, tb(e.four), e.sg)
                r.append(Case('upd_%s_%s' % (how, name), im, sp))
    return dedupe(r)


def layouts(tier):
    """(size, fields as (hi, lo)), overlapping in unions"""
    r = [('s10', 10, [(4, 0), (9, 5)]), ('s40', 40, [(0, 0), (7, 1), (23, 8), (39, 24)]), ('s64', 64, [(31, 0), (32, 32), (63, 33)]), ('s100', 100, [(3, 0), (63, 4), (64, 64), (99, 65)]),
         ('s130', 130, [(66, 0), (129, 67)]), ('s8', 8, [(7, 0)]), ('s200', 200, [(59, 0), (70, 60), (135, 71), (199, 136)]),
         ('u16', 16, [(15, 0), (7, 0)]), ('u33', 33, [(32, 0), (0, 0), (12, 0)]), ('u64', 64, [(63, 0), (31, 0), (15, 0)]), ('u100', 100, [(99, 0), (63, 0), (64, 0), (7, 0)]),
         ('u160', 160, [(159, 0), (127, 0), (65, 0)])]
    if tier != 'quick':
        r += [('s256', 256, [(63, 0), (127, 64), (191, 128), (255, 192)]), ('s65', 65, [(0, 0), (64, 1)]), ('s300', 300, [(1, 0), (150, 2), (299, 151)]), ('u300', 300, [(299, 0), (191, 0), (64, 0)])]
    return r


def structs(tier):
    r = []
    for name, n, fs in layouts(tier):
        for fourv in (True, False):
            X = T('logic' if fourv else 'bit', n - 1)
            base = 'L::%s<%d, %s>' % ('packed_struct' if name[0] == 's' else 'union_', n, tb(fourv))
            pre = 'struct S_%s%d : %s {' % (name, fourv, base)
            for k, (h, lo) in enumerate(fs):
                pre += ' template <typename T> static auto f%d(const T &v) { return v.template slice<%d, %d>(); } template <typename T, typename K> static void f%d(T &v, const K &k) { v.template update<%d, %d>(k); }' % (k, h, lo, k, h, lo)
            pre += '};'
            S = 'S_%s%d' % (name, fourv)
            # each field is written once, in order, with a value of its own; after each write every field and the whole are read
            Ys = [T(X.kind, h - lo + (2 if k % 2 else 0), 0, bool(k % 2)) for k, (h, lo) in enumerate(fs)]
            impl = 'typename %s::type a; st(a, o); a = ld<L::%s<%d>>(p);' % (S, X.kind, n - 1) + ''.join(Y.ld('y%d' % k) for k, Y in enumerate(Ys))
            spec = X.get('va') + ''.join(Y.get('vy%d' % k) for k, Y in enumerate(Ys)) + ' RUN; o.expect<%d>(%s, %s, 0);' % (n, 'allx<%d>()' % n if fourv else 'V<%d>{0, 0}' % n, tb(fourv))
            for k, (h, lo) in enumerate(fs):
                W = h - lo + 1
                impl += '%s::f%d(a, y%d); st(a, o);' % (S, k, k)
                spec += 'va.v = paste<%d, %d>(va.v, ext<%d>(vy%d.v, false), %d);' % (W, n, W, k, lo)
                if fourv:
                    spec += 'va.m = paste<%d, %d>(va.m, ext<%d>(vy%d.m, false), %d);' % (W, n, W, k, lo)
                spec += 'o.expect<%d>(va, %s, 0);' % (n, tb(fourv))
                for j, (h2, l2) in enumerate(fs):
                    impl += 'st(%s::f%d(a), o);' % (S, j)
                    w2 = h2 - l2 + 1
                    spec += 'o.expect<%d>(V<%d>{cut<%d, %d>(va.v, %d), cut<%d, %d>(va.m, %d)}, %s, 0);' % (w2, w2, w2, n, l2, w2, n, l2, tb(fourv))
            r.append(Case('fields_%s_%s' % (name, X.kind), impl, spec, pre=pre, spec_pre=PRE))
    # an unpacked struct keeps its members apart
    pre = 'struct US : L::unpacked_struct { L::logic<12, 0> a; L::bit<4, 0, true> b; L::logic<99, 0> c; };'
    r.append(Case('unpacked_struct', 'US s; s.a = ld<L::logic<15, 0>>(p); s.b = ld<L::bit<7, 0>>(p); st(s.a, o); st(s.b, o); st(s.c, o); US t = s; s.c = ld<L::logic<99, 0>>(p); st(s.a, o); st(s.b, o); st(s.c, o); st(t.c, o);',
                  'auto a = in.val<16, true>(); auto b = in.val<8, false>(); auto c = in.val<100, true>(); RUN; auto A = ext4<13>(a, false); auto B = ext4<5>(b, false);'
                  'o.expect<13>(A, true, 0); o.expect<5>(B, false, 1); o.expect<100>(allx<100>(), true, 0); o.expect<13>(A, true, 0); o.expect<5>(B, false, 1); o.expect<100>(c, true, 0); o.expect<100>(allx<100>(), true, 0);', pre=pre))
    return dedupe(r)


PROPS = {
    'C17': {'cases': packed, 'chunk': 12, 'bounds': 'all array, index and element values of the listed element types and declared ranges (up to 330 bits at the quick tier, 700 at the thorough tier)'},
    'C18': {'cases': unpacked, 'chunk': 12, 'bounds': 'all element values and every int index of the listed element types and declared ranges'},
    'C21': {'cases': structs, 'chunk': 6, 'bounds': 'all values of the listed layouts; every field written once, in order'},
}
