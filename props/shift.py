"""C05: shifts."""
from .base import *

OPS = {'shr': 'a >> b', 'shl': 'a << b', 'ashr': 'a.ashr(b)', 'ashl': 'a.ashl(b)'}
SPEC = {'shr': 'shr<%d>(va.v, n)', 'shl': 'shl<%d>(va.v, n)', 'ashl': 'shl<%d>(va.v, n)'}


def one(op, A, B, compound=False, signbit=False):
    n = A.n
    if op == 'ashr':
        e = ('sar<%d>(va.v, n)' if A.sg else 'shr<%d>(va.v, n)') % n
    else:
        e = SPEC[op] % n
    # an amount of more than 64 bits saturates: every width is far below 2^64
    amt = 'u64 n = (u64)vb.v;' if B.n <= 64 else 'u64 n = (vb.v >> 64) != 0 ? ~0ull : (u64)vb.v;'
    f = four(A, B)
    x = OPS[op]
    sg = 2
    if compound:
        x = 'a %s= b' % {'shr': '>>', 'shl': '<<'}[op]
        sg = int(A.sg)
    # the amount is input word number w; splitting on it keeps each case cheap
    w = A.word() * (2 if A.four else 1)
    fork = 'sym_fork(%d, %d, %dull); ' % (w, n, min((1 << 64) - 1, (1 << B.n) - 1)) if n > 24 else ''
    if op == 'ashr' and A.sg and n > 64:
        # the bit that receives the sign bit itself has a check of its own (see known-findings.txt)
        dc = 'U<%d> hole = n != 0 ? shr<%d>((U<%d>)((U<%d>)1 << %d), n < %d ? n : %dull) : (U<%d>)0; ' % (
            n, n, n, n, n - 1, n, n - 1, n)
        if signbit:
            dc += 'hole = ~hole; '
        return Case('ashr%s_%s_%s' % ('_signbit' if signbit else '', A.nm, B.nm), A.ld('a') + B.ld('b') + ' st(%s, o);' % x,
                    fork + A.get('va') + B.get('vb') + ' RUN; ' + amt + dc +
                    ' o.expect_but<%d>((va.m != 0) | (vb.m != 0) ? allx<%d>() : V<%d>{%s, 0}, %s, %s, %d);' % (
                        n, n, n, e, '(va.m != 0) | (vb.m != 0) ? %s : hole' % ('~(U<%d>)0' % n if signbit else '(U<%d>)0' % n), tb(f), sg))
    return Case('%s%s_%s_%s' % (op, 'eq' if compound else '', A.nm, B.nm), A.ld('a') + B.ld('b') +
                (' %s; st(a, o);' % x if compound else ' st(%s, o);' % x),
                fork + A.get('va') + B.get('vb') + ' RUN; ' + amt +
                ' o.expect<%d>((va.m != 0) | (vb.m != 0) ? allx<%d>() : V<%d>{%s, 0}, %s, %d);' % (
                    n, n, n, e, tb(f), sg))


def cases(tier):
    r = []
    q = tier == 'quick'
    pairs = [(1, 1), (1, 8), (5, 5), (8, 3), (8, 8), (13, 13), (16, 8), (32, 5), (32, 32), (33, 64), (64, 6), (64, 64), (65, 7), (65, 65), (100, 8),
             (100, 100), (8, 100), (64, 65), (100, 32)]
    if not q:
        pairs += [(2, 2), (3, 9), (7, 7), (24, 24), (31, 31), (40, 6), (63, 63), (66, 64), (96, 7), (127, 8), (128, 8), (128, 128), (129, 9), (160, 8),
                  (192, 192), (200, 8), (256, 9), (1, 65), (32, 128), (13, 200), (300, 16)]
    k = 0
    for op in OPS:
        for n, m in pairs:
            for s, t in SG:
                for kind in (b, l):
                    k += 1
                    if q and k % 4 not in (0, 3) and (n, m) not in ((13, 13), (64, 64), (8, 8)):
                        continue
                    if q and n >= 65 and k % 8 not in (0, 3):
                        continue
                    r.append(one(op, kind(n, s), kind(m, t)))
            if op != 'ashr':
                r.append(one(op, l(n, n % 2 == 1), b(m)))
        for A in (T('bit', 10, 3), T('logic', 0, 12), T('bit', 0, 70, True)):
            r.append(one(op, A, T(A.kind, 3, 0)))
            r.append(one(op, A, T(A.kind, 0, 7)))
    for A, B in ((b(65, True), b(7)), (b(100, True), b(8)), (l(100, True), l(8))):
        r.append(one('ashr', A, B, False, True))
    for op in ('shr', 'shl'):
        for kind in (b, l):
            for n, m, s, t in ((8, 8, 0, 0), (13, 13, 1, 1), (13, 5, 1, 0), (64, 7, 0, 0), (64, 64, 1, 1), (100, 8, 0, 0), (100, 100, 1, 1), (32, 65, 0, 0)):
                r.append(one(op, kind(n, bool(s)), kind(m, bool(t)), True))
    return dedupe(r)


PROPS = {
    'C05': {
        'cases': cases, 'chunk': 24,
        'bounds': 'all values and all shift amounts of the listed widths; shifts of more than 24 bits are executed once per amount below the width and once for all the others',
    },
}
