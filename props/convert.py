"""C12 concatenation and unpacking, C13 conversions."""
from .base import *


def cat(ts, names):
    """spec: declares V<n> e, the concatenation of the named values, the first one highest"""
    n = sum(t.n for t in ts)
    s = 'V<%d> e{0, 0};' % n
    at = n
    for t, v in zip(ts, names):
        at -= t.n
        for f in 'vm':
            s += 'e.%s |= (U<%d>)((U<%d>)%s.%s << %d);' % (f, n, n + 64, v, f, at)
    return s, n


def concat_case(ts, free=False):
    vs = ['abcdef'[i] for i in range(len(ts))]
    name = ('fcat_' if free else 'cat_') + '_'.join(t.nm for t in ts)
    impl = ''.join(t.ld(v) for t, v in zip(ts, vs))
    impl += 'st(L::concat(%s), o);' % ', '.join(vs) if free else 'st(%s.concat(%s), o);' % (vs[0], ', '.join(vs[1:]))
    s, n = cat(ts, ['v' + v for v in vs])
    spec = ''.join(t.get('v' + v) for t, v in zip(ts, vs)) + ' RUN;' + s + 'o.expect<%d>(e, %s, 0);' % (n, tb(four(*ts)))
    return Case(name, impl, spec)


def unpack_case(X, ts):
    """the last target takes the lowest bits; targets that reach beyond the value get zeros there"""
    vs = ['abcdef'[i] for i in range(len(ts))]
    impl = X.ld('x') + ''.join(t.ld(v) for t, v in zip(ts, vs)) + 'x.unpack(%s);' % ', '.join(vs) + ''.join('st(%s, o);' % v for v in vs)
    spec = X.get('vx') + ''.join(t.get('v' + v) for t, v in zip(ts, vs)) + ' RUN;'
    at = sum(t.n for t in ts)
    for t, v in zip(ts, vs):
        at -= t.n
        W = max(t.n + at, X.n)
        spec += 'o.expect<%d>(V<%d>{(U<%d>)((U<%d>)vx.v >> %d), (U<%d>)((U<%d>)vx.m >> %d)}, %s, %d);' % (
            t.n, t.n, t.n, W + 64, at, t.n, W + 64, at, tb(t.four), t.sg)
    return Case('unpack_%s_%s' % (X.nm, '_'.join(t.nm for t in ts)), impl, spec)


def concats(tier):
    r = []
    ns = [1, 3, 8, 13, 31, 32, 63, 64, 65, 100] if tier == 'quick' else [1, 2, 3, 7, 8, 9, 13, 16, 31, 32, 33, 48, 63, 64, 65, 66, 100, 127, 128, 129, 200]
    k = 0
    for n in ns:
        for m in ns:
            k += 1
            if tier == 'quick' and k % 3 and (n, m) not in ((64, 1), (1, 64), (32, 32), (63, 1), (1, 63), (31, 32)):
                continue
            s, t = bool(k & 4), bool(k & 8)
            r.append(concat_case([b(n, s), b(m, t)]))
            r.append(concat_case([l(n, t), l(m, s)]))
            r.append(concat_case([l(n, s), b(m, t)]))
            if tier != 'quick':
                r.append(concat_case([b(n, not s), b(m, not t)]))
                r.append(concat_case([l(n, not t), l(m, not s)]))
                r.append(concat_case([l(n, not s), b(m, not t)]))
    R = [T('bit', 0, 7), T('bit', 4, 11, True), T('bit', 15, 8), T('bit', 7, 106), T('bit', 103, 4, True)]
    for i, x in enumerate(R):
        for j, y in enumerate(R):
            r.append(concat_case([x, y]))
            r.append(concat_case([x.like(kind='logic'), y.like(kind='logic')]))
    for ts in ([b(1), b(1), b(1)], [b(8), b(3, True), b(13)], [b(32, True), b(31, True), b(1)], [b(32), b(32), b(1)], [b(60), b(40), b(64)], [b(1), b(64), b(65, True), b(1, True)],
               [b(13), b(33, True), b(5), b(100)], [b(5), T('bit', 0, 7), T('bit', 3, -4, True)]):
        r.append(concat_case(ts))
        r.append(concat_case([t.like(kind='logic') for t in ts]))
        r.append(concat_case([t.like(kind='logic' if i % 2 == 0 else 'bit') for i, t in enumerate(ts)]))
        r.append(concat_case(ts, True))
        r.append(concat_case([t.like(kind='logic' if i % 3 != 1 else 'bit') for i, t in enumerate(ts)], True))
    # unpacking
    shapes = [(8, [3, 5]), (8, [8]), (8, [1, 1, 6]), (13, [5, 3]), (13, [9, 9]), (32, [16, 16]), (33, [1, 32]), (64, [1, 63]), (64, [32, 31, 1]), (65, [1, 64]), (65, [64, 1]),
              (100, [36, 64]), (100, [33, 64, 3]), (100, [100]), (100, [60, 60]), (130, [65, 65]), (130, [2, 64, 64]), (130, [1, 127, 1, 1]), (200, [70, 70, 60]), (200, [13, 100]),
              (128, [64, 64]), (128, [1, 1, 1, 1])]
    if tier != 'quick':
        shapes += [(n, [a, c, n - a - c]) for n in (16, 17, 31, 63, 64, 66, 96, 129, 192, 257) for a, c in ((1, 1), (5, 7), (n // 2, n // 4), (n // 4, n // 2))]
    for q, (n, parts) in enumerate(shapes):
        for kx, kt in (('bit', 'bit'), ('logic', 'logic'), ('bit', 'logic')):
            sg = [bool((q + i) & 1) for i in range(len(parts))]
            ts = []
            for i, w in enumerate(parts):
                v = (q + i) % 3
                ts.append(T(kt, w - 1, 0, sg[i]) if v == 0 else T(kt, 0, w - 1, sg[i]) if v == 1 else T(kt, w + 4, 5, sg[i]))
            X = [T(kx, n - 1, 0, bool(q & 2)), T(kx, 0, n - 1, bool(q & 2)), T(kx, n + 8, 9, bool(q & 2))][q % 3]
            r.append(unpack_case(X, ts))
    r.append(unpack_case(b(24), [l(8), b(8, True), l(8, True)]))
    r.append(unpack_case(b(124, True), [l(80), b(8, True), l(36, True)]))
    return dedupe(r)


INTS = [('bool', 1, False), ('int8_t', 8, True), ('uint8_t', 8, False), ('int16_t', 16, True), ('uint16_t', 16, False), ('int32_t', 32, True), ('uint32_t', 32, False),
        ('int64_t', 64, True), ('uint64_t', 64, False)]


def types13(tier):
    t = []
    for k in ('bit', 'logic'):
        for n in ([1, 5, 8, 13, 16, 31, 32, 33, 63, 64, 65, 100, 128] if tier == 'quick' else T_SAME):
            for s in (False, True):
                t.append(T(k, n - 1, 0, s))
        t += [T(k, 0, 7), T(k, 4, 11, True), T(k, 3, -4, True), T(k, 15, 8), T(k, 7, 106), T(k, 103, 4, True), T(k, 0, 63, True)]
    return t


def converts(tier):
    r = []
    ws = [1, 4, 8, 13, 32, 33, 64, 65, 100, 130] if tier == 'quick' else [1, 2, 4, 7, 8, 9, 13, 16, 17, 31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 130, 192, 193, 300]
    for q, X in enumerate(types13(tier)):
        n, f, sg = X.n, tb(X.four), tb(X.sg)
        impl, spec = X.ld('a'), X.get('va') + ' RUN;'
        for w in ws:
            if w < n and X.four:
                continue
            if w == n and (X.lsb or X.msb < X.lsb) and False:
                continue
            impl += 'st(a.template extend<%d>(), o);' % w
            spec += 'o.expect<%d>(ext4<%d>(va, %s), %s, %d);' % (w, w, sg, f, X.sg)
            if w >= n:
                impl += 'st(a.template extend_as<%d, %s>(), o);' % (w, tb(not X.sg))
                spec += 'o.expect<%d>(ext4<%d>(va, %s), %s, %d);' % (w, w, tb(not X.sg), f, not X.sg)
        r.append(Case('ext_%s' % X.nm, impl, spec))
        impl, spec = X.ld('a'), X.get('va') + ' RUN;'
        impl += 'st(a.to_signed(), o); st(a.to_unsigned(), o);'
        spec += 'o.expect<%d>(va, %s, 1); o.expect<%d>(va, %s, 0);' % (n, f, n, f)
        impl += 'st(a.to_uint64(), o);'
        low = '(u64)ext<64>(va.v, %s)' % sg if n <= 64 else '(u64)va.v'
        spec += 'o.expect_int(64, false, va.m != 0 ? 0 : %s);' % low
        if n <= 64:
            c = next(x for x in (8, 16, 32, 64) if n <= x)
            impl += 'st(a.to_num(), o);'
            spec += 'o.expect_int(%d, %s, va.m != 0 ? 0 : %s);' % (c, sg, low)
        r.append(Case('num_%s' % X.nm, impl, spec))
        # default value, copy
        impl = X.ld('a') + '%s d; st(d, o); %s c(a); st(c, o); d = a; st(d, o);' % (X.cpp, X.cpp)
        spec = X.get('va') + ' RUN; o.expect<%d>(%s, %s, %d); o.expect<%d>(va, %s, %d); o.expect<%d>(va, %s, %d);' % (
            n, 'allx<%d>()' % n if X.four else 'V<%d>{0, 0}' % n, f, X.sg, n, f, X.sg, n, f, X.sg)
        r.append(Case('copy_%s' % X.nm, impl, spec))
        # C++ integers
        impl, spec = X.ld('a') + 'u64 w = *p++;', X.get('va') + 'u64 w = in.word(); RUN;'
        for c, cw, cs in INTS:
            exp = 'o.expect<%d>(V<%d>{ext<%d>((U<%d>)%s, %s), 0}, %s, %d);' % (n, n, n, cw, 'w' if c != 'bool' else '(w & 1)', tb(cs), f, X.sg)
            cv = '(%s)w' % c if c != 'bool' else 'bool(w & 1)'
            impl += '{ auto d = a; d = %s; st(d, o); }' % cv
            spec += exp
            if c != 'bool' or n == 1 or X.four or n > 64:
                impl += '{ %s d(%s); st(d, o); }' % (X.cpp, cv)
                spec += exp
        r.append(Case('int_%s' % X.nm, impl, spec))
    # assignment between values; the right side is extended by its own sign, and truncated
    ms = [1, 8, 13, 33, 64, 65, 100] if tier == 'quick' else [1, 2, 7, 8, 9, 13, 16, 31, 32, 33, 63, 64, 65, 66, 100, 128, 129, 200]
    for X in types13(tier):
        impl, spec, k = X.ld('a'), X.get('va') + ' RUN;', 0
        for j, m in enumerate(ms):
            for s in (False, True):
                for Y in [T(X.kind, m - 1, 0, s)] + ([T(X.kind, 2, m + 1, s)] if j % 2 else [T(X.kind, m + 6, 7, s)]):
                    if tier == 'quick' and Y.lsb and (j + s) % 2:
                        continue
                    impl += '{ auto c = ld<%s>(p); c = a; st(c, o); }' % Y.cpp
                    spec = spec.replace(' RUN;', ' auto y%d = %s; RUN;' % (k, Y.get('y').split('=', 1)[1].strip().rstrip(';')))
                    spec += 'o.expect<%d>(ext4<%d>(va, %s), %s, %d);' % (Y.n, Y.n, tb(X.sg), tb(X.four), Y.sg)
                    k += 1
                    if X.sg and not (X.four and m == X.n and (X.lsb or X.msb < X.lsb or Y.lsb)):
                        # implicit conversion
                        impl += '{ %s c = a; st(c, o); }' % Y.cpp
                        spec += 'o.expect<%d>(ext4<%d>(va, %s), %s, %d);' % (Y.n, Y.n, tb(X.sg), tb(X.four), Y.sg)
                    if k >= 8:
                        r.append(Case('asg_%s_%s' % (X.nm, Y.nm), impl, spec))
                        impl, spec, k = X.ld('a'), X.get('va') + ' RUN;', 0
        if k:
            r.append(Case('asg_%s' % X.nm, impl, spec))
        # between ranges of the same size, and from 2-state
        if X.four:
            n = X.n
            B = X.like(kind='bit', sg=not X.sg)
            r.append(Case('frombit_%s' % X.nm, B.ld('a') + '%s c(a); st(c, o);' % X.cpp, B.get('va') + ' RUN; o.expect<%d>(va, true, %d);' % (n, X.sg)))
            B = X.like(kind='bit')
            r.append(Case('frombit2_%s' % X.nm, B.ld('a') + '%s c(a); st(c, o);' % X.cpp, B.get('va') + ' RUN; o.expect<%d>(va, true, %d);' % (n, X.sg)))
            for Y in (T('logic', n - 1, 0, X.sg), T('logic', 0, n - 1, not X.sg), T('logic', n + 8, 9, X.sg)):
                r.append(Case('range_%s_%s' % (X.nm, Y.nm), X.ld('a') + '%s c(a); st(c, o);' % Y.cpp, X.get('va') + ' RUN; o.expect<%d>(va, true, %d);' % (n, Y.sg)))
    # literals
    for lit, n, s in (('_logic', 32, 1), ('_logic64', 64, 1), ('_bit', 32, 1), ('_bit64', 64, 1)):
        r.append(Case('lit' + lit, 'st(L::literals::operator""%s(*p), o);' % lit, 'u64 w = in.word(); RUN; o.expect<%d>(V<%d>{(U<%d>)w, 0}, %s, 1);' % (n, n, n, tb('logic' in lit))))
    return dedupe(r)


PROPS = {
    'C12': {'cases': concats, 'chunk': 16, 'bounds': 'all values of the listed operands (1 to 4 of them, results up to 230 bits)'},
    'C13': {'cases': converts, 'chunk': 16, 'bounds': 'all values of the listed source and target types, every C++ integer type'},
}
