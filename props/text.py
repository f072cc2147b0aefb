"""C14 literals, C15 formatting, C16 round trips."""
import os
from .base import *

# ---------------------------------------------------------------- literals
# the characters a digit is drawn from, and what each denotes: (value, x/z mask) per digit
W = {'b': 1, 'o': 3, 'h': 4}


def alphabet(base, xz, sep):
    if base == 'd':
        s = '0123456789'
    else:
        s = {'b': '01', 'o': '01234567', 'h': '0123456789abcdefABCDEF'}[base] + ('xXzZ' if xz else '')
    if sep:
        s += '_'
    n = 1
    while n < len(s):
        n *= 2
    return s + '0' * (n - len(s))


def digit(base, c):
    w = W.get(base, 4)
    if c in 'xX':
        return 0, (1 << w) - 1
    if c in 'zZ':
        return (1 << w) - 1, (1 << w) - 1
    if c == '_':
        return 0, 0
    return int(c, 16), 0


PRE14 = '''
#ifndef TXT
#define TXT
// text under construction: bytes in the input buffer of the harness
struct Txt {
    In &in; int n = 0;
    AI void ch(u64 c) { int k = n / 8; if (n % 8 == 0) in.buf[in.n++] = 0; in.buf[in.n - 1] |= (c & 255) << (8 * (n % 8)); n++; (void)k; }
    AI void str(const char *s) { while (*s) ch((u64)*s++); }
};
// a digit after (N > 64) or in front of (N <= 64, weight p) decimal digits
template <int N>
AI U<N> dec(const u64 *d, int n) {
    constexpr int K = (N + 63) / 64;
    if constexpr (N <= 64) {
        u64 r = 0, p = 1;
        _Pragma("clang loop unroll(disable)") for (int i = n - 1; i >= 0; i--) { r += d[i] * p; p *= 10; }
        return (U<N>)r;
    } else {
        u64 l[K] = {};
        _Pragma("clang loop unroll(disable)") for (int i = 0; i < n; i++) {
            U<128> c = d[i];
            for (int k = 0; k < K; k++) { c += (U<128>)l[k] * 10; l[k] = (u64)c; c >>= 64; }
        }
        U<N + 64> r = 0;
        for (int k = 0; k < K; k++) r |= (U<N + 64>)l[k] << (64 * k);
        return (U<N>)r;
    }
}
#endif
'''


def tables(base, xz, sep):
    a = alphabet(base, xz, sep)
    q = '%s%d%d' % (base, xz, sep)
    t = '#ifndef A_%s_\n#define A_%s_\n' % (q, q) + 'static const unsigned char A_%s%d%d[] = {%s};' % (base, xz, sep, ', '.join(str(ord(c)) for c in a))
    t += 'static const unsigned char D_%s%d%d[] = {%s};' % (base, xz, sep, ', '.join(str(digit(base, c)[0]) for c in a))
    t += 'static const unsigned char M_%s%d%d[] = {%s};' % (base, xz, sep, ', '.join(str(digit(base, c)[1]) for c in a))
    return t + '\n#endif\n', len(a)


def literal(X, base, size, nd, sep, big=None, fixed=()):
    """X built from "<size>'<base>" and nd digits, any of them; separators where they like, or at fixed positions"""
    N, xz = X.n, X.four and base != 'd'
    tab, na = tables(base.lower(), xz, sep)
    q = '%s%d%d' % (base.lower(), xz, sep)
    sp = 'u64 in0[%d]; for (int i = 0; i < %d; i++) in0[i] = sym_u64(i) & %d;' % (nd, nd, na - 1)
    sp += 'Txt t{in}; t.str("%s");' % (size + "'" + base)
    sp += 'V<%d> r{0, 0};' % N
    w = W.get(base.lower())
    M = N + 8
    plain = not w and not sep
    if plain:
        sp += 'u64 dg[%d];' % nd
    if fixed:
        sp += 'static const unsigned char F[] = {%s};' % ', '.join(str(int(i in fixed)) for i in range(nd))
    sp += '_Pragma("clang loop unroll(disable)") for (int i = 0; i < %d; i++) {' % nd
    if fixed:
        sp += "if (F[i]) t.ch('_');"
    sp += 'u64 k = in0[i], c = A_%s[k], d = D_%s[k], m = M_%s[k]; t.ch(c); V<%d> q{};' % (q, q, q, N)
    if plain:
        sp += 'dg[i] = d; (void)m; }  r.v = dec<%d>(dg, %d);' % (N, nd)
    elif w:
        sp += 'q.v = (U<%d>)(((U<%d>)r.v << %d) | (U<%d>)d); q.m = (U<%d>)(((U<%d>)r.m << %d) | (U<%d>)m);' % (N, M, w, M, N, M, w, M)
    else:
        sp += 'q.v = (U<%d>)((U<%d>)r.v * 10 + (U<%d>)d); q.m = 0; (void)m;' % (N, M, M)
    if not plain:
        sp += "r = c == '_' ? r : q; }" if sep else 'r = q; }'
    n = len(size) + 2 + nd + len(set(fixed) & set(range(nd)))
    sp += 'RUN; o.expect<%d>(r, %s, %d);' % (N, tb(X.four), X.sg)
    return Case('lit_%s_%s%s_%d%s' % (X.nm, size, base, nd, 's' if sep else 'f' + '_'.join(map(str, fixed)) if fixed else ''),
                '%s a(std::string_view(reinterpret_cast<const char *>(p), %d)); st(a, o);' % (X.cpp, n), sp, spec_pre=PRE14 + tab)


def raw(X, n):
    """text without a base: characters, the last one lowest"""
    N = X.n
    sp = 'Txt t{in}; V<%d> r{0, 0};' % N
    for i in range(n):
        sp += "{ u64 c = sym_u64(%d) & 255; if (c == 39) c = 65; t.ch(c); r.v = (U<%d>)(((U<%d>)r.v << 8) | (U<%d>)c); }" % (i, N, N + 8, N + 8)
    sp += 'RUN; o.expect<%d>(r, %s, %d);' % (N, tb(X.four), X.sg)
    return Case('raw_%s_%d' % (X.nm, n), '%s a(std::string_view(reinterpret_cast<const char *>(p), %d)); st(a, o);' % (X.cpp, n), sp, spec_pre=PRE14)


def types14(tier):
    ns = [1, 4, 5, 8, 13, 32, 33, 63, 64, 65, 66, 100, 128, 130, 192, 200] if tier == 'quick' else T_SAME
    for k in ('bit', 'logic'):
        for i, n in enumerate(ns):
            yield T(k, n - 1, 0, bool((i + (k == 'bit')) % 2))
        yield T(k, 0, 8)
        yield T(k, 12, 4, True)
        yield T(k, 3, 90)


def literals(tier):
    r = []
    for q, X in enumerate(types14(tier)):
        N = X.n
        for j, base in enumerate('bohBOH'):
            if tier == 'quick' and base.isupper() and (q + j) % 3:
                continue
            w = W[base.lower()]
            full = -(-N // w)
            counts = {1, full, full + 3, max(1, full - 1)} if tier == 'quick' else {1, 2, 3, full - 1, full, full + 1, full + 3, full + 20}
            if N <= 64 and 64 // w + 2 > full and (q + j) % 2:
                counts.add(64 // w + 2)
            for k, nd in enumerate(sorted(c for c in counts if 0 < c < 300)):
                r.append(literal(X, base, ['', str(max(N, nd * w)), '2000'][(q + j + k) % 3], nd, False))
            # separators anywhere, and in the middle of long literals
            r.append(literal(X, base, [str(N + 4 * w), ''][(q + j) % 2], min(full + 2, 6 if tier == 'quick' else 9), True))
            if full > 6:
                r.append(literal(X, base, '', full + 1, False, fixed=(1, full // 2, full)))
                r.append(literal(X, base, '', full, False, fixed=tuple(range(0, full, 4))))
        if not X.four or True:
            for j, base in enumerate('dD'):
                full = len(str((1 << N) - 1))
                for nd in sorted({1, full} if tier == 'quick' else {1, 2, full - 1, full, full + 1}):
                    if nd > 0 and (q + j) % 2 == 0 and nd < 45:
                        r.append(literal(X, base, ['', '2000'][j], nd, False))
                if (q + j) % 2:
                    r.append(literal(X, base, '', min(full, 4), True))
        nb = -(-N // 8)
        for n in sorted({1, nb, nb + 1, 9} if tier == 'quick' else {1, 2, nb - 1, nb, nb + 1, nb + 8}):
            if n > 0 and (tier != 'quick' or (q + n) % 2):
                r.append(raw(X, n))
    return dedupe(r)


# ---------------------------------------------------------------- formatting
PRE15 = PRE14 + """
struct Str {
    unsigned char b[1100]; int n = 0;
    AI void ch(u64 c) { b[n++] = (unsigned char)c; }
};
AI void expect_text(Out &o, const Str &s) {
    o.chk((5ull << 48) | (u64)s.n);
    u64 w = 0;
    for (int i = 0; i < s.n; i++) {
        w |= (u64)s.b[i] << (8 * (i % 8));
        if (i % 8 == 7 || i + 1 == s.n) { o.chk(w); w = 0; }
    }
}
static const char DIGIT[] = "0123456789abcdef";
// LRM 21.2.1.4 for a group of n bits
AI u64 group(u64 v, u64 m, int n) {
    u64 all = (1ull << n) - 1;
    if (m == 0) return DIGIT[v & all];
    if (m == all) return v == 0 ? 'x' : v == all ? 'z' : 'X';
    return (m & ~v & all) ? 'X' : 'Z';
}
template <int N, int W>
AI void power2(Str &s, V<N> x, int width) {
    constexpr int D = (N + W - 1) / W;
    for (int i = D; i < width; i++) s.ch('0');
    for (int i = D - 1; i >= 0; i--) {
        int n = i * W + W <= N ? W : N - i * W;
        u64 all = (1ull << n) - 1;
        s.ch(group((u64)((U<N + 64>)x.v >> (i * W)) & all, (u64)((U<N + 64>)x.m >> (i * W)) & all, n));
    }
}
template <int N>
AI void chars(Str &s, V<N> x, int width) {
    constexpr int D = (N + 7) / 8;
    for (int i = D; i < width; i++) s.ch(' ');
    for (int i = D - 1; i >= 0; i--) s.ch((u64)((U<N + 64>)x.v >> (i * 8)) & 255);
}
"""


def fmt_case(X, base, width=None):
    N, w = X.n, {'b': 1, 'o': 3, 'h': 4, 'x': 4}.get(base.lower())
    f = ('%d' % width if width else '') + base
    sp = X.get('va')
    if w:
        sp += ' RUN; Str s; power2<%d, %d>(s, va, %d); expect_text(o, s);' % (N, w, width or 0)
    else:
        sp += (' sym_assume(va.m == 0);' if X.four else '') + ' RUN; Str s; chars<%d>(s, va, %d); expect_text(o, s);' % (N, width or 0)
    return Case('fmt_%s_%s' % (X.nm, f), X.ld('a') + 'st_text(a.str("%s"), o);' % f, sp, spec_pre=PRE15)


def ranges10(lo, hi):
    """the numbers lo..hi as rows (digits, first digits, least next digit, its choices); the digits after it are free"""
    rows = []

    def free(a, b):
        # a..b, where b - a + 1 numbers share all but their last digits: split at the first digit that differs
        A, B = str(a), str(b)
        k = len(A)
        j = 0
        while j < k and A[j] == B[j]:
            j += 1
        if j == k:
            rows.append((k, A, 0, 1))
            return
        w = 10 ** (k - j - 1)
        x, y = -(-a // w), (b + 1) // w     # whole blocks x..y-1 of w numbers
        if x < y:
            if a < x * w:
                free(a, x * w - 1)
            rows.append((k, A[:j], x % 10 if y - x < 10 else 0, y - x))
            if y * w <= b:
                free(y * w, b)
        else:
            free(a, x * w - 1)
            free(x * w, b)
    k = len(str(lo))
    while lo <= hi:
        top = min(hi, 10 ** k - 1)
        free(lo, top)
        lo, k = top + 1, k + 1
    n = sum(c * 10 ** (k - len(p) - 1) if len(p) < k else 1 for k, p, _, c in rows)
    return rows


def dec_case(X, neg, width=None, back=False):
    """decimal text of every value of one sign; the value is built from its digits"""
    N = X.n
    mx = (1 << N) - 1 if not X.sg else (1 << (N - 1)) if neg else (1 << (N - 1)) - 1
    least = 1 if neg else 0
    rows = ranges10(least, min(mx, (1 << 64) - 1)) + (ranges10(1 << 64, mx) if mx >> 64 else [])
    assert sum(c * 10 ** (k - len(q) - 1) if len(q) < k else 1 for k, q, _, c in rows) == mx - least + 1
    f = ('%d' % width if width is not None else '') + 'd'
    D = len(str((1 << N) - 1))
    pad = 0 if width == 0 else max(D, width or 0) + (1 if neg else 0)
    arr = lambda n, g: 'static const int %s[] = {%s};' % (n, ', '.join(str(g(r)) for r in rows))
    sp = arr('ND', lambda r: r[0]) + arr('PL', lambda r: len(r[1])) + arr('LO', lambda r: r[2]) + arr('CN', lambda r: r[3])
    sp += 'static const char PX[][40] = {%s};' % ', '.join('"%s"' % r[1] for r in rows)
    sp += 'sym_fork(100, %d, ~0ull); u64 cs = sym_u64(100); sym_assume(cs < %d);' % (len(rows), len(rows))
    sp += 'const int n = ND[cs], pl = PL[cs]; u64 dg[40];'
    K = max(N, 8)
    sp += 'U<%d> v = 0;' % K
    sp += '_Pragma("clang loop unroll(disable)") for (int i = 0; i < n; i++) {'
    sp += ' if (i < pl) dg[i] = (u64)PX[cs][i] - 48; else { u64 s = sym_u64(i) & 15, c = i == pl ? CN[cs] : 10, l = i == pl ? LO[cs] : 0; dg[i] = l + (s < c ? s : 0); }'
    if back and N <= 64:
        sp += ' } v = dec<%d>(dg, n);' % N
    else:
        sp += ' v = (U<%d>)(v * 10 + (U<%d>)dg[i]); }' % (K, K)
    if not neg:
        sp += 'put<%d>(in, (U<%d>)v);' % (N, N)
    elif N <= 64:
        sp += 'put<%d>(in, (U<%d>)-(U<%d>)v);' % (N, N, N)
    else:
        # minus, one word after the other
        sp += 'u64 c = 1;'
        for i in range(X.word()):
            sp += '{ u64 x = (u64)(v >> %d), y = ~x + c; c = y < c; in.buf[in.n++] = y%s; }' % (
                64 * i, ' & %dull' % ((1 << (N % 64)) - 1) if i + 1 == X.word() and N % 64 else '')
    if X.four:
        sp += 'put<%d>(in, 0);' % N
    if back:
        sp += 'RUN; o.expect<%d>(V<%d>{(U<%d>)v, 0}, %s, %d);' % (N, N, N, tb(X.four), X.sg)
        return Case('back_%s_%s' % (X.nm, f), X.ld('a') + back_impl(X, f, "'d"), sp, spec_pre=PRE15)
    sp += 'RUN; Str s;'
    sp += "for (int i = n + %d; i < %d; i++) s.ch(' ');" % (int(neg), pad)
    if neg:
        sp += "s.ch('-');"
    sp += '_Pragma("clang loop unroll(disable)") for (int i = 0; i < n; i++) s.ch(48 + dg[i]); expect_text(o, s);'
    return Case('dec_%s_%s_%s' % (X.nm, 'neg' if neg else 'pos', f), X.ld('a') + 'st_text(a.str("%s"), o);' % f, sp, spec_pre=PRE15)


def dec_xz(X, width=None):
    N = X.n
    f = ('%d' % width if width is not None else '') + 'd'
    D = len(str((1 << N) - 1))
    pad = 0 if width == 0 else max(D, width or 0)
    sp = X.get('va') + 'sym_assume(va.m != 0); RUN; Str s; for (int i = 1; i < %d; i++) s.ch(32);' % pad
    sp += "bool all = va.m == ones<%d>(); u64 c;" % N
    sp += "if (all && va.v == 0) c = 'x'; else if (all && va.v == ones<%d>()) c = 'z'; else c = (va.m & (U<%d>)~va.v) != 0 ? 'X' : 'Z';" % (N, N)
    sp += 's.ch(c); expect_text(o, s);'
    return Case('dec_%s_xz_%s' % (X.nm, f), X.ld('a') + 'st_text(a.str("%s"), o);' % f, sp, spec_pre=PRE15)


def formats(tier):
    r = []
    for q, X in enumerate(types14(tier)):
        for j, base in enumerate('bohxsBOHXS'):
            if base.isupper() and (q + j) % 4:
                continue
            r.append(fmt_case(X, base))
            if (q + j) % 3 == 0:
                w = {'b': 1, 'o': 3, 'h': 4, 'x': 4, 's': 8}[base.lower()]
                D = -(-X.n // w)
                r.append(fmt_case(X, base, [D + 5, max(1, D - 1), 40][(q + j) // 3 % 3]))
        if X.n <= 128:
            for w in ([None, [0, 7, 45][q % 3]] if tier == 'quick' else [None, 0, 1, 7, 45]):
                r.append(dec_case(X, False, w))
                if X.sg and X.n <= 66:      # the sign of wider ones is out of the engine's reach
                    r.append(dec_case(X, True, w))
                if X.four:
                    r.append(dec_xz(X, w))
    return dedupe(r)


def back_impl(X, fmt, prefix):
    """prints a, and reads the text back"""
    s = 'const std::string s = a.str("%s"); char t[1200]; u64 n = 0;' % fmt
    s += ''.join('t[n++] = %d;' % ord(c) for c in prefix)
    return s + 'for (u64 i = 0; i < s.size(); i++) t[n++] = s[i]; %s r(std::string_view(t, n)); st(r, o);' % X.cpp


def back_case(X, base, width=None):
    """text in base b, o, h or s denotes the value, unless a digit has known and unknown bits, or both x and z"""
    N, w = X.n, {'b': 1, 'o': 3, 'h': 4, 's': 8}[base.lower()]
    f = ('%d' % width if width else '') + base
    sp = X.get('va')
    if base in 'sS':
        sp += ' sym_assume(va.m == 0); bool ok = true;'
        for i in range(-(-N // 8)):
            sp += ' ok &= (((u64)((U<%d>)va.v >> %d)) & 255) != 39;' % (N + 64, 8 * i)
        sp += ' sym_assume(ok);'
    elif X.four and w > 1:
        # every digit known, x or z
        sp = 'V<%d> va{0, 0};' % N
        for j, i in enumerate(range(0, N, w)):
            a = (1 << min(w, N - i)) - 1
            sp += '{ u64 k = sym_u64(%d), d = k & 16 ? k & 32 ? %d : 0 : k & %d, m = k & 16 ? %d : 0; va.v |= (U<%d>)((U<%d>)d << %d); va.m |= (U<%d>)((U<%d>)m << %d); }' % (
                j, a, a, a, N, N + 64, i, N, N + 64, i)
        sp += 'put<%d>(in, va.v); put<%d>(in, va.m);' % (N, N)
    sp += ' RUN; o.expect<%d>(va, %s, %d);' % (N, tb(X.four), X.sg)
    return Case('back_%s_%s' % (X.nm, f), X.ld('a') + back_impl(X, f, '' if base in 'sS' else "'" + base), sp, spec_pre=PRE15)


def round_trips(tier):
    r = []
    for q, X in enumerate(types14(tier)):
        for j, base in enumerate('bohsBOHS'):
            if base.isupper() and (q + j) % 4:
                continue
            r.append(back_case(X, base, [None, None, X.n + 3][(q + j) % 3]))
        if X.n < 63:
            r.append(dec_case(X, False, [None, 0, 30][q % 3], back=True))
    return dedupe(r)


def any_text(X, n):
    """X built from any n bytes at all: a value, in canonical form"""
    N = X.n
    sp = 'Txt t{in};'
    for i in range(n):
        sp += 't.ch(sym_u64(%d) & 255);' % i
    sp += 'RUN; o.expect_any<%d>(%s, %d);' % (N, tb(X.four), X.sg)
    return Case('any_%s_%d' % (X.nm, n), '%s a(std::string_view(reinterpret_cast<const char *>(p), %d)); st(a, o);' % (X.cpp, n), sp, spec_pre=PRE14)


def any_texts(tier):
    r = []
    for q, X in enumerate(types14(tier)):
        for n in ((0, 1, 2, 4, 6) if tier == 'quick' else (0, 1, 2, 3, 4, 5, 6, 7, 8, 9)):
            r.append(any_text(X, n))
    return dedupe(r)


PROPS = {
    'C14': {'cases': literals, 'chunk': 12, 'util': True,
            'bounds': 'all digit strings of the listed lengths (every digit, upper and lower case, x and z, separators), for the listed types'},
    'C15': {'cases': formats, 'chunk': 12, 'util': True, 'conc': True,
            'bounds': 'all values of the listed types, in every base, with and without a requested width'},
    'C16': {'cases': round_trips, 'chunk': 12, 'util': True, 'conc': True,
            'bounds': 'all values of the listed types that a base can denote'},
    'C20': {'cases': any_texts, 'chunk': 12, 'util': True, 'conc': True,
            'bounds': 'all texts of up to 6 (thorough: 9) arbitrary bytes, for the listed types'},
}
