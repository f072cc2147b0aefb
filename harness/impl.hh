// Marshalling between flat 64-bit words and the library's public value types.
#pragma once
#include <cstdint>
#include <string>
#include <string_view>

#include "logic/array.hh"
#include "logic/struct.hh"
#include "logic/union.hh"

namespace vh {
using u64 = uint64_t;
template <class B>
inline void put_bits(B &b, const u64 *&p) {
    if constexpr (B::size == 1) {
        b.value = (*p++ & 1) != 0;
    } else if constexpr (B::size <= 64) {
        u64 x = *p++;
        if constexpr (B::is_signed) {
            constexpr unsigned k = 64 - B::size;
            b.value = static_cast<decltype(b.value)>(static_cast<int64_t>(x << k) >> k);
        } else {
            b.value = static_cast<decltype(b.value)>(x);
        }
    } else {
        for (u64 i = 0; i < (B::size + 63) / 64; i++) b.value.values[i] = *p++;
    }
}
// reads one value of type X: value words, then (4-state) mask words
template <class X>
inline X ld(const u64 *&p) {
    X r;
    if constexpr (X::is_4state) {
        put_bits(r.value, p);
        put_bits(r.xz_mask, p);
    } else {
        put_bits(r, p);
    }
    return r;
}
template <class X>
inline void ld_into(X &r, const u64 *&p) {
    if constexpr (X::is_4state) {
        put_bits(r.value, p);
        put_bits(r.xz_mask, p);
    } else {
        put_bits(r, p);
    }
}
template <class B>
inline void get_bits(const B &b, u64 *&o) {
    if constexpr (B::size <= 64) {
        *o++ = static_cast<u64>(b.value);
    } else {
        for (u64 i = 0; i < (B::size + 63) / 64; i++) *o++ = b.value.values[i];
    }
}
// writes a header word (kind, size) and the raw words
template <class X>
inline void st(const X &r, u64 *&o) {
    if constexpr (std::is_same_v<X, bool>) {
        *o++ = 1ull << 48;
        *o++ = r ? 1 : 0;
    } else if constexpr (std::is_integral_v<X>) {
        *o++ = (2ull << 48) | (sizeof(X) * 8) | (std::is_signed_v<X> ? 1ull << 32 : 0);
        *o++ = static_cast<u64>(r);
    } else if constexpr (X::is_4state) {
        *o++ = (4ull << 48) | (X::is_signed ? 1ull << 32 : 0) | X::size;
        get_bits(r.value, o);
        get_bits(r.xz_mask, o);
    } else {
        *o++ = (3ull << 48) | (X::is_signed ? 1ull << 32 : 0) | X::size;
        get_bits(r, o);
    }
}
// a header word (kind, length) and the characters, eight to a word
inline void st_text(const std::string &s, u64 *&o) {
    const u64 n = s.size();
    *o++ = (5ull << 48) | n;
    u64 w = 0;
    for (u64 i = 0; i < n && i < 1024; i++) {
        w |= static_cast<u64>(static_cast<unsigned char>(s[i])) << (8 * (i % 8));
        if (i % 8 == 7 || i + 1 == n) {
            *o++ = w;
            w = 0;
        }
    }
}
}  // namespace vh
