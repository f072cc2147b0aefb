// Reference semantics on bit-precise integers; compiled with clang only (_BitInt).
#pragma once
#include <stdint.h>
typedef uint64_t u64;
extern "C" {
u64 sym_u64(u64 id);
void sym_assume(bool c);
void sym_assert(bool c, u64 id);
void sym_observe(u64 id, u64 v);
u64 sym_id(u64 x);  // hides a value from the optimizer
void sym_split(u64 id, u64 n);
void sym_fork(u64 id, u64 n, u64 mask);
}
#define AI __attribute__((always_inline)) inline
#pragma clang diagnostic ignored "-Wunknown-attributes"

template <int N>
using U = unsigned _BitInt(N);
template <int N>
struct V {  // a 4-state value: m marks x/z bits; there v=0 is x and v=1 is z
    U<N> v, m;
};
template <int N>
AI U<N> ones() {
    return (U<N>)~(U<N>)0;
}
// zero/sign extension (or truncation) to M bits
template <int M, int N>
AI U<M> ext(U<N> x, bool s) {
    if constexpr (M <= N) {
        return (U<M>)x;
    } else {
        U<M> r = (U<M>)x;
        if (s && (U<1>)(x >> (N - 1))) r |= (U<M>)(ones<M>() << N);
        return r;
    }
}
// LRM 11.8.4: the sign bit is replicated, whatever its state
template <int M, int N>
AI V<M> ext4(V<N> x, bool s) {
    return {ext<M, N>(x.v, s), ext<M, N>(x.m, s)};
}
template <int N>
AI bool top(U<N> x) {
    return (bool)(U<1>)(x >> (N - 1));
}
template <int N>
AI bool bitat(U<N> x, u64 i) {
    return i < N ? (bool)(U<1>)(x >> (U<N>)i) : false;
}
template <>
AI bool bitat<1>(U<1> x, u64 i) {
    return i == 0 ? (bool)x : false;
}
// shifts by an unbounded amount
template <int N>
AI U<N> shl(U<N> x, u64 n) {
    if constexpr (N == 1) return n ? (U<1>)0 : x;
    else {
        if (n >= N) return 0;
        // through a wider type: the amount always fits
        U<N + 64> w = x;
        return (U<N>)(w << (U<N + 64>)n);
    }
}
template <int N>
AI U<N> shr(U<N> x, u64 n) {
    if constexpr (N == 1) return n ? (U<1>)0 : x;
    else {
        if (n >= N) return 0;
        U<N + 64> w = x;
        return (U<N>)(w >> (U<N + 64>)n);
    }
}
template <int N>
AI U<N> sar(U<N> x, u64 n) {
    bool s = top<N>(x);
    U<N> r = shr<N>(x, n);
    if (s) r |= (U<N>)~shr<N>(ones<N>(), n);
    return r;
}
template <int N>
AI V<N> allx() {
    return {0, ones<N>()};
}

struct In {
    u64 buf[200];
    int n = 0;
    template <int N>
    AI U<N> bits() {
        U<N> r = 0;
        for (int i = 0; i < (N + 63) / 64; i++) {
            u64 x = sym_u64(n);
            int w = N - 64 * i;
            if (w < 64) x &= (1ull << w) - 1;
            buf[n++] = x;
            if constexpr (N <= 64)
                r = (U<N>)x;
            else
                r |= (U<N>)((U<N>)x << (64 * i));
        }
        return r;
    }
    AI u64 word() {
        u64 x = sym_u64(n);
        buf[n++] = x;
        return x;
    }
    template <int N, bool four>
    AI V<N> val() {
        V<N> r;
        r.v = bits<N>();
        r.m = 0;
        if constexpr (four) r.m = bits<N>();
        return r;
    }
};
template <int N>
AI void put(In &in, U<N> x) {
    for (int i = 0; i < (N + 63) / 64; i++) in.buf[in.n++] = (u64)(x >> (64 * i));
}
// product as the sum of 64-bit partial products
template <int N>
AI U<N> mulw(U<N> a, U<N> b) {
    if constexpr (N <= 64) {
        return (U<N>)((u64)a * (u64)b);
    } else {
        U<N> r = 0;
        for (int i = 0; i < (N + 63) / 64; i++)
            for (int j = 0; i + j < (N + 63) / 64; j++) {
                U<128> p = (U<128>)(u64)(a >> (64 * i)) * (U<128>)(u64)(b >> (64 * j));
                r += (U<N>)((U<N + 64>)(u64)p << (64 * (i + j)));
                if (i + j + 1 < (N + 63) / 64) r += (U<N>)((U<N + 64>)(u64)(p >> 64) << (64 * (i + j + 1)));
            }
        return r;
    }
}
struct Out {
    u64 buf[200];
    int pos = 0;
    Out() {
        for (auto &x : buf) x = 0xA5A5A5A5A5A5A5A5ull;
    }
    AI void chk(u64 e) {
        sym_observe(pos, buf[pos]);
        sym_assert(buf[pos] == e, pos);
        pos++;
    }
    AI void skip() {
        sym_observe(pos, buf[pos]);
        pos++;
    }
    // the raw holder words: unused bits are zero, or copies of the sign in a native signed holder
    template <int N>
    AI void words(U<N> x, bool sg) {
        if constexpr (N <= 64) {
            u64 w = (u64)x;
            if constexpr (N > 1 && N < 64)
                if (sg && ((w >> (N - 1)) & 1)) w |= ~0ull << N;
            chk(w);
        } else {
            for (int i = 0; i < (N + 63) / 64; i++) chk((u64)(x >> (64 * i)));
        }
    }
    // sg: 0 unsigned, 1 signed, 2 not specified (then the low bits alone are compared)
    template <int N>
    AI void expect(V<N> e, bool four, int sg) {
        u64 h = buf[pos];
        sym_observe(pos, h);
        u64 want = ((four ? 4ull : 3ull) << 48) | (u64)N;
        if (sg == 2) {
            sym_assert((h & ~(1ull << 32)) == want, pos);
            sg = (h >> 32) & 1;
        } else
            sym_assert(h == (want | (sg ? 1ull << 32 : 0)), pos);
        pos++;
        words<N>(e.v, sg);
        if (four) words<N>(e.m, false);
    }
    // N > 64; bits set in dc are not compared
    template <int N>
    AI void expect_but(V<N> e, U<N> dc, bool four, int sg) {
        u64 h = buf[pos], want = ((four ? 4ull : 3ull) << 48) | (u64)N;
        sym_observe(pos, h);
        sym_assert((h & ~(1ull << 32)) == (want | (sg == 1 ? 1ull << 32 : 0)) || (sg == 2 && (h & ~(1ull << 32)) == want), pos);
        pos++;
        for (int k = 0; k < (four ? 2 : 1); k++)
            for (int i = 0; i < (N + 63) / 64; i++) {
                U<N> x = k ? e.m : e.v;
                u64 w = (u64)(x >> (64 * i)), d = (u64)(dc >> (64 * i));
                sym_observe(pos, buf[pos]);
                sym_assert((buf[pos] | d) == (w | d), pos);
                pos++;
            }
    }
    // a 2-state result, and the 4-state result of the same operation
    AI void same_bool() {
        u64 a = buf[0], b = buf[2];
        for (int i = 0; i < 5; i++) sym_observe(i, buf[i]);
        bool vec = a >> 48 != 1;  // a bit, or bool
        sym_assert(!vec || (a & ~(1ull << 32)) == ((3ull << 48) | 1), 0);
        sym_assert(buf[1] == buf[3], 1);
        if (b >> 48 == 1) return;
        sym_assert((b & ~(1ull << 32)) == ((4ull << 48) | 1), 2);
        sym_assert(buf[4] == 0, 3);
    }
    template <int N>
    AI void same_vector(bool free_sign) {
        constexpr int W = (N + 63) / 64;
        for (int i = 0; i < 3 * W + 2; i++) sym_observe(i, buf[i]);
        sym_assert((buf[0] & ~(1ull << 32)) == ((3ull << 48) | (u64)N), 0);
        sym_assert((buf[W + 1] & ~(1ull << 32)) == ((4ull << 48) | (u64)N), 1);
        sym_assert(free_sign || ((buf[0] ^ buf[W + 1]) & (1ull << 32)) == 0, 2);
        for (int i = 0; i < W; i++) {
            u64 used = i == W - 1 && N % 64 ? (1ull << (N % 64)) - 1 : ~0ull;
            sym_assert((buf[1 + i] & used) == (buf[W + 2 + i] & used), 3 + i);
            sym_assert(buf[2 * W + 2 + i] == 0, 100 + i);
        }
    }
    AI void same_words(int n) {
        for (int i = 0; i < n; i++) {
            sym_observe(i, buf[i]);
            sym_observe(n + i, buf[n + i]);
            sym_assert(buf[i] == buf[n + i], i);
        }
    }
    // any value, in canonical form
    template <int N>
    AI void expect_any(bool four, int sg) {
        u64 h = buf[pos];
        sym_observe(pos, h);
        sym_assert(h == (((four ? 4ull : 3ull) << 48) | (u64)N | (sg ? 1ull << 32 : 0)), pos);
        pos++;
        for (int k = 0; k < (four ? 2 : 1); k++)
            for (int i = 0; i < (N + 63) / 64; i++) {
                u64 w = buf[pos], unused = i == (N - 1) / 64 && N % 64 ? ~0ull << (N % 64) : 0;
                bool neg = N > 1 && N < 64 && k == 0 && sg && ((w >> (N - 1)) & 1);
                sym_observe(pos, w);
                sym_assert((w & unused) == (neg ? unused : 0), pos);
                pos++;
            }
    }
    AI void expect_bool(bool b) {
        chk(1ull << 48);
        chk(b ? 1 : 0);
    }
    // a C++ integer of W bits
    AI void expect_int(int W, bool sg, u64 v) {
        chk((2ull << 48) | (u64)W | (sg ? 1ull << 32 : 0));
        chk(v);
    }
};
