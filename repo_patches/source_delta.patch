From b9a9508c00c2d3db3ae13c95b5f6bfa66dcbafa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:06 +0000
Subject: [PATCH 01/27] fix: keep the results of 2-state operations and
 construction within the declared width

---
 include/logic/big_num.hh |  7 ++--
 include/logic/bit.hh     | 75 +++++++++++++++++++++++++++++-----------
 include/logic/logic.hh   |  4 +--
 3 files changed, 60 insertions(+), 26 deletions(-)

diff --git a/include/logic/big_num.hh b/include/logic/big_num.hh
index f9bc667..f656f3f 100644
--- a/include/logic/big_num.hh
+++ b/include/logic/big_num.hh
@@ -147,7 +147,7 @@ public:
         return std::accumulate(values.begin(), values.end(), std::popcount);
     }
 
-    void mask_off() {
+    constexpr void mask_off() {
         // mask off bit that's excessive bit
         auto constexpr amount = s * 64 - size;
         auto constexpr mask = std::numeric_limits<uint64_t>::max() >> amount;
@@ -581,6 +581,7 @@ public:
             result.values[i] = (v << 64) >> 64;
             carry = v >> 64;
         }
+        result.mask_off();
         return result;
     }
 
@@ -901,8 +902,8 @@ public:
 
     template <typename T>
     requires std::is_arithmetic_v<T>
-    explicit constexpr big_num(T v) : values({v}) {
-        if constexpr (signed_) {
+    explicit constexpr big_num(T v) : values({static_cast<big_num_holder_type>(v)}) {
+        if constexpr (std::is_signed_v<T>) {
             if (v < 0) {
                 for (auto i = 1u; i < s; i++) {
                     values[i] = std::numeric_limits<big_num_holder_type>::max();
diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 769ab9b..a0af5bf 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -323,19 +323,27 @@ public:
         }
     }
 
-    void mask_off() {
+    constexpr void mask_off() {
         if constexpr (native_num) {
-            if constexpr (size > 1) {
-                auto constexpr amount = sizeof(T) * 8 - size;
-                auto constexpr mask_max = bit_mask();
-                auto mask = mask_max >> amount;
-                value &= mask;
-            }
+            value = to_holder(static_cast<uint64_t>(value));
         } else {
             value.mask_off();
         }
     }
 
+    // truncate to the declared size. the unused bits of the holder are copies of the sign bit
+    // if signed, 0 otherwise
+    static constexpr T to_holder(uint64_t v) requires(native_num) {
+        constexpr auto amount = big_num_threshold - size;
+        if constexpr (size == 1) {
+            return v & 1u;
+        } else if constexpr (signed_) {
+            return static_cast<T>(static_cast<int64_t>(v << amount) >> amount);
+        } else {
+            return static_cast<T>((v << amount) >> amount);
+        }
+    }
+
     void clear() {
         if constexpr (native_num) {
             value = 0;
@@ -353,6 +361,7 @@ public:
             result.value = !value;
         } else {
             result.value = ~value;
+            result.mask_off();
         }
         return result;
     }
@@ -368,6 +377,7 @@ public:
     auto operator&(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
         result.value = value & op.value;
+        result.mask_off();
         return result;
     }
 
@@ -401,6 +411,7 @@ public:
     auto operator^(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
         result.value = value ^ op.value;
+        result.mask_off();
         return result;
     }
 
@@ -434,6 +445,7 @@ public:
     auto operator|(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
         result.value = value | op.value;
+        result.mask_off();
         return result;
     }
 
@@ -545,6 +557,7 @@ public:
         // see https://stackoverflow.com/a/44996066
         if constexpr (native_num && bit<op_msb, op_lsb>::native_num) {
             res.value = value << static_cast<T>(amount.value);
+            res.mask_off();
         } else if constexpr ((!native_num)) {
             res.value = value << amount.value;
         } else {
@@ -701,9 +714,11 @@ public:
 
     constexpr bit<msb, lsb, signed_> operator-() const {
         if constexpr (native_num) {
-            return bit<msb, lsb, signed_>(-value);
+            return bit<msb, lsb, signed_>(to_holder(-static_cast<uint64_t>(value)));
         } else {
-            return bit<msb, lsb, signed_>(value.negate());
+            bit<msb, lsb, signed_> result;
+            result.value = value.negate();
+            return result;
         }
     }
 
@@ -723,7 +738,12 @@ public:
     template <int op_lsb, bool op_signed>
     auto operator+(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
-        result.value = value + op.value;
+        if constexpr (native_num) {
+            result.value = result.to_holder(static_cast<uint64_t>(value) +
+                                            static_cast<uint64_t>(op.value));
+        } else {
+            result.value = value + op.value;
+        }
         return result;
     }
 
@@ -747,7 +767,12 @@ public:
     template <int op_lsb, bool op_signed>
     auto operator-(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
-        result.value = value - op.value;
+        if constexpr (native_num) {
+            result.value = result.to_holder(static_cast<uint64_t>(value) -
+                                            static_cast<uint64_t>(op.value));
+        } else {
+            result.value = value - op.value;
+        }
         return result;
     }
 
@@ -771,7 +796,12 @@ public:
     template <int op_lsb, bool op_signed>
     auto operator*(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
-        result.value = value * op.value;
+        if constexpr (native_num) {
+            result.value = result.to_holder(static_cast<uint64_t>(value) *
+                                            static_cast<uint64_t>(op.value));
+        } else {
+            result.value = value * op.value;
+        }
         return result;
     }
 
@@ -899,18 +929,16 @@ public:
 
     void negate() {
         if constexpr (native_num) {
-            value = (~value) + 1;
-            mask_off();
+            value = to_holder(-static_cast<uint64_t>(value));
         } else {
-            return value.negate();
+            value = value.negate();
         }
     }
 
     [[nodiscard]] bit<size - 1, 0> negate() const {
         bit<size - 1, 0> res;
         if constexpr (native_num) {
-            res.value = (~value) + 1;
-            res.mask_off();
+            res.value = res.to_holder(-static_cast<uint64_t>(value));
         } else {
             res.value = value.negate();
         }
@@ -999,20 +1027,21 @@ public:
      */
     explicit constexpr bit(std::string_view v) {
         if constexpr (native_num) {
-            value = static_cast<T>(util::parse_raw_str(v));
+            value = to_holder(util::parse_raw_str(v));
         } else {
             util::parse_raw_str(v, size, value.values.data());
         }
     }
 
-    explicit constexpr bit(T v) requires(util::native_num(size)) : value(v) {}
+    explicit constexpr bit(T v) requires(util::native_num(size))
+        : value(to_holder(static_cast<uint64_t>(v))) {}
     template <typename K>
     requires(std::is_arithmetic_v<K> && !util::native_num(size)) constexpr bit(K v)  // NOLINT
         : value(v) {}
 
     template <uint64_t new_size, bool new_signed>
     explicit bit(const big_num<new_size, new_signed> &big_num) requires(size <= big_num_threshold)
-        : value(big_num.values[0]) {}
+        : value(to_holder(big_num.values[0])) {}
 
     template <uint64_t op_hi, uint64_t op_lo, bool op_signed>
     constexpr bit(logic<op_hi, op_lo, op_signed> &&logic) {  // NOLINT
@@ -1036,7 +1065,11 @@ public:
 
     template <typename T>
     bit &operator=(T v) requires(std::is_arithmetic<T>::value) {
-        value = v;
+        if constexpr (native_num) {
+            value = to_holder(static_cast<uint64_t>(v));
+        } else {
+            value = big_num<size, signed_>(v);
+        }
         return *this;
     }
 
diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index 0c5933e..8691ffb 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -1013,8 +1013,8 @@ public:
     explicit logic(const char *str) : logic(std::string_view(str)) {}
     explicit constexpr logic(std::string_view v) {
         if constexpr (util::native_num(size)) {
-            value.value = util::parse_raw_str(v);
-            xz_mask.value = util::parse_xz_raw_str(v);
+            value.value = value.to_holder(util::parse_raw_str(v));
+            xz_mask.value = xz_mask.to_holder(util::parse_xz_raw_str(v));
         } else {
             util::parse_raw_str(v, size, value.value.values.data());
             util::parse_xz_raw_str(v, size, xz_mask.value.values.data());
-- 
2.43.0


From ad9adeeb1174378c390641115e0f30f3adee15c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:50 +0000
Subject: [PATCH 02/27] fix: extend and convert 2-state operands by the sign of
 the expression, truncate on assignment

---
 include/logic/big_num.hh |  23 +++---
 include/logic/bit.hh     | 157 +++++++++++++++++++++++----------------
 2 files changed, 106 insertions(+), 74 deletions(-)

diff --git a/include/logic/big_num.hh b/include/logic/big_num.hh
index f656f3f..d54c7a2 100644
--- a/include/logic/big_num.hh
+++ b/include/logic/big_num.hh
@@ -18,7 +18,7 @@ public:
     /*
      * single bit
      */
-    bool inline operator[](uint64_t idx) const {
+    constexpr bool inline operator[](uint64_t idx) const {
         if (idx < size) [[likely]] {
             auto a = idx / big_num_threshold;
             auto b = idx % big_num_threshold;
@@ -62,7 +62,7 @@ public:
     }
 
     // single bit
-    void set(uint64_t idx, bool value) {
+    constexpr void set(uint64_t idx, bool value) {
         if (idx < size) [[likely]] {
             auto a = idx / big_num_threshold;
             auto b = idx % big_num_threshold;
@@ -74,7 +74,7 @@ public:
         }
     }
 
-    [[nodiscard]] bool negative() const requires(signed_) { return this->operator[](size - 1); }
+    [[nodiscard]] constexpr bool negative() const requires(signed_) { return this->operator[](size - 1); }
 
     template <uint64_t a, uint64_t b>
     requires(util::max(a, b) < size) big_num<util::abs_diff(a, b) + 1, false>
@@ -108,21 +108,20 @@ public:
     }
 
     template <uint64_t op_size>
-    big_num<op_size, signed_> extend() const {
+    constexpr big_num<op_size, signed_> extend() const {
+        big_num<op_size, signed_> result;
+        for (auto i = 0ul; i < util::min(s, result.s); i++) result.values[i] = values[i];
         if constexpr (op_size > size) {
-            big_num<op_size, signed_> result;
-            for (auto i = 0ul; i < s; i++) result.values[i] = values[i];
             // based on the sign, need to fill out leading ones
             if constexpr (signed_) {
                 for (uint64_t i = size; i < op_size; i++) {
-                    result.set(i, true);
+                    result.set(i, negative());
                 }
             }
-            return result;
         } else {
-            // just a copy
-            return *this;
+            result.mask_off();
         }
+        return result;
     }
 
     // doesn't matter about the sign, but endianness must match
@@ -756,7 +755,7 @@ public:
         return result;
     }
 
-    [[nodiscard]] big_num<size, true> to_signed() const {
+    [[nodiscard]] constexpr big_num<size, true> to_signed() const {
         big_num<size, true> res;
         res.values = values;
         return res;
@@ -919,7 +918,7 @@ public:
     // implicit conversion between signed and unsigned
     template <uint64_t op_size, bool op_signed>
     requires(op_size == size && op_signed != signed_)
-        [[maybe_unused]] big_num(const big_num<op_size, op_signed> &op)  // NOLINT
+        [[maybe_unused]] constexpr big_num(const big_num<op_size, op_signed> &op)  // NOLINT
         : values(op.values) {}
 
 private:
diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index a0af5bf..3c46fb6 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -137,7 +137,11 @@ public:
      * relates to whether it's negative or not
      */
     [[nodiscard]] bool negative() const {
-        if constexpr (native_num) {
+        if constexpr (!signed_) {
+            return false;
+        } else if constexpr (size == 1) {
+            return value;
+        } else if constexpr (native_num) {
             return value < 0;
         } else {
             return value.negative();
@@ -220,20 +224,30 @@ public:
     template <uint64_t target_size>
     requires(target_size > size && util::native_num(target_size))
         [[nodiscard]] constexpr bit<target_size - 1, 0, signed_> extend() const {
-        return bit<target_size - 1, 0, signed_>(value);
+        bit<target_size - 1, 0, signed_> result;
+        result.value = result.to_holder(low_word());
+        return result;
     }
 
     template <uint64_t target_size>
     requires(target_size == size)
         [[nodiscard]] constexpr bit<target_size - 1, 0, signed_> extend() const {
-        return *this;
+        bit<target_size - 1, 0, signed_> result;
+        result.value = value;
+        return result;
     }
 
-    // new size is smaller. this is just a slice
+    // new size is smaller. keep the low bits
     template <uint64_t target_size>
     requires(target_size < size)
         [[nodiscard]] constexpr bit<target_size - 1, 0, signed_> extend() const {
-        return slice<target_size - 1, 0>();
+        bit<target_size - 1, 0, signed_> result;
+        if constexpr (util::native_num(target_size)) {
+            result.value = result.to_holder(low_word());
+        } else {
+            result.value = value.template extend<target_size>();
+        }
+        return result;
     }
 
     // native number, but extend to a big number
@@ -243,7 +257,7 @@ public:
         bit<target_size - 1, 0, signed_> result;
         // use C++ default semantics to cast. if it's a negative number
         // the upper bit will be set properly
-        result.value.values[0] = static_cast<big_num_holder_type>(value);
+        result.value.values[0] = low_word();
         if constexpr (signed_) {
             if (negative()) {
                 for (auto i = 1u; i < result.value.s; i++) {
@@ -266,6 +280,21 @@ public:
         return res;
     }
 
+    // LRM 11.8.2
+    // an operand is converted to the type of the expression before it gets extended, so if the
+    // expression is unsigned, a signed operand is extended with zeros
+    template <uint64_t target_size, bool target_signed>
+    requires(target_size >= size)
+        [[nodiscard]] constexpr bit<target_size - 1, 0, target_signed> extend_as() const {
+        if constexpr (signed_ == target_signed) {
+            return this->template extend<target_size>();
+        } else if constexpr (target_signed) {
+            return to_signed().template extend<target_size>();
+        } else {
+            return to_unsigned().template extend<target_size>();
+        }
+    }
+
     /*
      * concatenation
      */
@@ -384,19 +413,17 @@ public:
     template <uint64_t target_size, int op_msb, int op_lsb, bool op_signed>
     requires(target_size >= util::max(size, bit<op_msb, op_lsb>::size)) auto and_(
         const bit<op_msb, op_lsb, op_signed> &op) const {
-        auto l = this->template extend<target_size>();
-        auto r = op.template extend<target_size>();
+        auto constexpr s = util::signed_result(signed_, op_signed);
+        auto l = this->template extend_as<target_size, s>();
+        auto r = op.template extend_as<target_size, s>();
         auto result = l & r;
         result.mask_off();
         return result;
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    bit<size - 1, 0, util::signed_result(signed_, op_signed)> &operator&=(
-        const bit<op_msb, op_lsb, op_signed> &op) {
-        auto res = (*this) & op;
-        value = res.value;
-        mask_off();
+    bit &operator&=(const bit<op_msb, op_lsb, op_signed> &op) {
+        *this = (*this) & op;
         return *this;
     }
 
@@ -418,19 +445,17 @@ public:
     template <uint64_t target_size, int op_msb, int op_lsb, bool op_signed>
     requires(target_size >= util::max(size, bit<op_msb, op_lsb>::size)) auto xor_(
         const bit<op_msb, op_lsb, op_signed> &op) const {
-        auto l = this->template extend<target_size>();
-        auto r = op.template extend<target_size>();
+        auto constexpr s = util::signed_result(signed_, op_signed);
+        auto l = this->template extend_as<target_size, s>();
+        auto r = op.template extend_as<target_size, s>();
         auto result = l ^ r;
         result.mask_off();
         return result;
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    bit<size - 1, 0, util::signed_result(signed_, op_signed)> &operator^=(
-        const bit<op_msb, op_lsb, op_signed> &op) {
-        auto res = (*this) ^ op;
-        value = res.value;
-        mask_off();
+    bit &operator^=(const bit<op_msb, op_lsb, op_signed> &op) {
+        *this = (*this) ^ op;
         return *this;
     }
 
@@ -452,19 +477,17 @@ public:
     template <uint64_t target_size, int op_msb, int op_lsb, bool op_signed>
     requires(target_size >= util::max(size, bit<op_msb, op_lsb>::size)) auto or_(
         const bit<op_msb, op_lsb, op_signed> &op) const {
-        auto l = this->template extend<target_size>();
-        auto r = op.template extend<target_size>();
+        auto constexpr s = util::signed_result(signed_, op_signed);
+        auto l = this->template extend_as<target_size, s>();
+        auto r = op.template extend_as<target_size, s>();
         auto result = l | r;
         result.mask_off();
         return result;
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    bit<size - 1, 0, util::signed_result(signed_, op_signed)> &operator|=(
-        const bit<op_msb, op_lsb, op_signed> &op) {
-        auto res = (*this) | op;
-        value = res.value;
-        mask_off();
+    bit &operator|=(const bit<op_msb, op_lsb, op_signed> &op) {
+        *this = (*this) | op;
         return *this;
     }
 
@@ -541,10 +564,8 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    bit<size - 1, 0, util::signed_result(signed_, op_signed)> &operator>>=(
-        const bit<op_msb, op_lsb, op_signed> &amount) {
-        auto res = (*this) >> amount;
-        value = res.value;
+    bit &operator>>=(const bit<op_msb, op_lsb, op_signed> &amount) {
+        *this = (*this) >> amount;
         return *this;
     }
 
@@ -573,10 +594,8 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    bit<size - 1, 0, util::signed_result(signed_, op_signed)> &operator<<=(
-        const bit<op_msb, op_lsb, op_signed> &amount) {
-        auto res = (*this) << amount;
-        value = res.value;
+    bit &operator<<=(const bit<op_msb, op_lsb, op_signed> &amount) {
+        *this = (*this) << amount;
         return *this;
     }
 
@@ -751,8 +770,9 @@ public:
     requires(target_size >= util::max(size, bit<op_msb, op_lsb>::size)) auto add(
         const bit<op_msb, op_lsb, op_signed> &op) const {
         // resize things to target size
-        auto l = this->template extend<target_size>();
-        auto r = op.template extend<target_size>();
+        auto constexpr s = util::signed_result(signed_, op_signed);
+        auto l = this->template extend_as<target_size, s>();
+        auto r = op.template extend_as<target_size, s>();
         auto result = l + r;
         return result;
     }
@@ -780,8 +800,9 @@ public:
     requires(target_size >= util::max(size, bit<op_msb, op_lsb>::size)) auto minus(
         const bit<op_msb, op_lsb, op_signed> &op) const {
         // resize things to target size
-        auto l = this->template extend<target_size>();
-        auto r = op.template extend<target_size>();
+        auto constexpr s = util::signed_result(signed_, op_signed);
+        auto l = this->template extend_as<target_size, s>();
+        auto r = op.template extend_as<target_size, s>();
         auto result = l - r;
         return result;
     }
@@ -809,8 +830,9 @@ public:
     requires(target_size >= util::max(size, bit<op_msb, op_lsb>::size)) auto multiply(
         const bit<op_msb, op_lsb, op_signed> &op) const {
         // resize things to target size
-        auto l = this->template extend<target_size>();
-        auto r = op.template extend<target_size>();
+        auto constexpr s = util::signed_result(signed_, op_signed);
+        auto l = this->template extend_as<target_size, s>();
+        auto r = op.template extend_as<target_size, s>();
         auto result = l * r;
         return result;
     }
@@ -833,8 +855,9 @@ public:
     requires(target_size >= util::max(size, bit<op_msb, op_lsb>::size)) auto mod(
         const bit<op_msb, op_lsb, op_signed> &op) const {
         // resize things to target size
-        auto l = this->template extend<target_size>();
-        auto r = op.template extend<target_size>();
+        auto constexpr s = util::signed_result(signed_, op_signed);
+        auto l = this->template extend_as<target_size, s>();
+        auto r = op.template extend_as<target_size, s>();
         auto result = l % r;
         return result;
     }
@@ -857,34 +880,27 @@ public:
     requires(target_size >= util::max(size, bit<op_msb, op_lsb>::size)) auto divide(
         const bit<op_msb, op_lsb, op_signed> &op) const {
         // resize things to target size
-        auto l = this->template extend<target_size>();
-        auto r = op.template extend<target_size>();
+        auto constexpr s = util::signed_result(signed_, op_signed);
+        auto l = this->template extend_as<target_size, s>();
+        auto r = op.template extend_as<target_size, s>();
         auto result = l / r;
         return result;
     }
 
-    [[nodiscard]] bit<size - 1, 0, true> to_signed() const {
+    [[nodiscard]] constexpr bit<size - 1, 0, true> to_signed() const {
         bit<size - 1, 0, true> res;
         if constexpr (native_num) {
-            if constexpr (size == 1) {
-                res.value = value;
-            } else {
-                res.value = static_cast<decltype(bit<size - 1, 0, true>::value)>(value);
-            }
+            res.value = res.to_holder(static_cast<uint64_t>(value));
         } else {
             res.value = value.to_signed();
         }
         return res;
     }
 
-    [[nodiscard]] bit<size - 1, 0, false> to_unsigned() const {
+    [[nodiscard]] constexpr bit<size - 1, 0, false> to_unsigned() const {
         bit<size - 1, 0, false> res;
         if constexpr (native_num) {
-            if constexpr (size == 1) {
-                res.value = value;
-            } else {
-                res.value = static_cast<decltype(bit<size - 1, 0, false>::value)>(value);
-            }
+            res.value = res.to_holder(static_cast<uint64_t>(value));
         } else {
             // big number is always unsigned
             res.value = value;
@@ -1048,7 +1064,7 @@ public:
         *this = logic.value;
     }
 
-    bit() {
+    constexpr bit() {
         if constexpr (native_num) {
             // init to 0
             value = 0;
@@ -1058,8 +1074,14 @@ public:
 
     // implicit conversion via assignment
     template <int new_msb, int new_lsb, bool new_signed>
-    bit &operator=(const bit<new_msb, new_lsb, new_signed> &b) {
-        value = b.value;
+    constexpr bit &operator=(const bit<new_msb, new_lsb, new_signed> &b) {
+        // extension is determined by the sign of the right hand side
+        auto const v = b.template extend<size>();
+        if constexpr (native_num) {
+            value = to_holder(static_cast<uint64_t>(v.value));
+        } else {
+            value.values = v.value.values;
+        }
         return *this;
     }
 
@@ -1074,8 +1096,8 @@ public:
     }
 
     template <int new_msb, int new_lsb>
-    constexpr bit(const bit<new_msb, new_lsb, true> &b) {  // NOLINT
-        value = b.value;
+    constexpr bit(const bit<new_msb, new_lsb, true> &b) : bit() {  // NOLINT
+        *this = b;
     }
 
     static constexpr bit<0> one_() {
@@ -1084,6 +1106,17 @@ public:
         return r;
     }
 
+    // the lowest 64 bits, extended if the size is smaller
+    [[nodiscard]] constexpr uint64_t low_word() const {
+        if constexpr (size == 1 && signed_) {
+            return value ? std::numeric_limits<uint64_t>::max() : 0;
+        } else if constexpr (native_num) {
+            return static_cast<uint64_t>(value);
+        } else {
+            return value.values[0];
+        }
+    }
+
 private:
     /*
      * unpacking, which is basically slicing as syntax sugars
-- 
2.43.0


From 94901df8d63f56bea6f49164d3e45ea777bf82ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:15 +0000
Subject: [PATCH 03/27] fix: compare 2-state values at a common width and sign

---
 include/logic/big_num.hh | 16 ++++-----
 include/logic/bit.hh     | 72 ++++++++++++----------------------------
 2 files changed, 30 insertions(+), 58 deletions(-)

diff --git a/include/logic/big_num.hh b/include/logic/big_num.hh
index d54c7a2..0429a2a 100644
--- a/include/logic/big_num.hh
+++ b/include/logic/big_num.hh
@@ -449,8 +449,8 @@ public:
                 }
                 return true;
             } else {
-                auto op_t = op->template extend<size>();
-                for (auto i = 0u; i < size; i++) {
+                auto op_t = op.template extend<size>();
+                for (auto i = 0u; i < s; i++) {
                     if (values[i] != op_t.values[i]) return false;
                 }
                 return true;
@@ -465,7 +465,7 @@ public:
                 return true;
             } else {
                 // the rest has to be zero
-                return std::reduce(values.begin() + op_s, values.end(), 0,
+                return std::reduce(values.begin() + op_s, values.end(), big_num_holder_type{0},
                                    [](auto a, auto b) { return a | b; }) == 0;
             }
         } else {
@@ -473,7 +473,7 @@ public:
                 if (values[i] != op.values[i]) return false;
             }
             // the rest has to be zero
-            return std::reduce(op.values.begin() + s, op.values.end(), 0,
+            return std::reduce(op.values.begin() + s, op.values.end(), big_num_holder_type{0},
                                [](auto a, auto b) { return a | b; }) == 0;
         }
         return true;
@@ -496,10 +496,10 @@ public:
             }
             // if it's both positive or both negative, we fall back to the normal comparison
             // per LRM, signed comparison is only used when both operands are signed
-            // notice that if both of them are negative, we need to revert the result
-            // since the smaller number appears to be bigger due to 2's complement
-            else if (negative() && negative()) {
-                return negate() < op.negate();
+            // 2's complement numbers of the same sign and size are in the unsigned order
+            else if constexpr (size != op_size) {
+                auto constexpr target_size = util::max(size, op_size);
+                return this->template extend<target_size>() > op.template extend<target_size>();
             }
         }
         // from top to bottom comparison
diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 3c46fb6..5d6a1be 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -629,20 +629,14 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     bool operator==(const bit<op_msb, op_lsb, op_signed> &v) const {
-        if constexpr (native_num && bit<op_msb, op_lsb>::native_num) {
-            return value == static_cast<T>(v.value);
-        } else {
-            return value == v.value;
-        }
+        auto const [l, r] = compare_operands(v);
+        return l.value == r.value;
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
     bool operator!=(const bit<op_msb, op_lsb, op_signed> &v) const {
-        if constexpr (native_num && bit<op_msb, op_lsb>::native_num) {
-            return value != static_cast<T>(v.value);
-        } else {
-            return value != v.value;
-        }
+        auto const [l, r] = compare_operands(v);
+        return l.value != r.value;
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
@@ -657,16 +651,8 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     bool operator>(const bit<op_msb, op_lsb, op_signed> &v) const {
-        if constexpr (native_num && bit<op_msb, op_lsb>::native_num) {
-            // LRM specifies that on ly if both operands are signed we do signed comparison
-            if constexpr (signed_ && op_signed) {
-                return value > v.value;
-            } else {
-                return static_cast<uint64_t>(value) > static_cast<uint64_t>(v.value);
-            }
-        } else if constexpr (!native_num) {
-            return value > v.value;
-        }
+        auto const [l, r] = compare_operands(v);
+        return l.value > r.value;
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
@@ -676,16 +662,8 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     bool operator<(const bit<op_msb, op_lsb, op_signed> &v) const {
-        if constexpr (native_num && bit<op_msb, op_lsb>::native_num) {
-            // LRM specifies that on ly if both operands are signed we do signed comparison
-            if constexpr (signed_ && op_signed) {
-                return value < v.value;
-            } else {
-                return static_cast<uint64_t>(value) < static_cast<uint64_t>(v.value);
-            }
-        } else if constexpr (!native_num) {
-            return value < v.value;
-        }
+        auto const [l, r] = compare_operands(v);
+        return l.value < r.value;
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
@@ -695,16 +673,8 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     bool operator>=(const bit<op_msb, op_lsb, op_signed> &v) const {
-        if constexpr (native_num && bit<op_msb, op_lsb>::native_num) {
-            // LRM specifies that on ly if both operands are signed we do signed comparison
-            if constexpr (signed_ && op_signed) {
-                return value >= v.value;
-            } else {
-                return static_cast<uint64_t>(value) >= static_cast<uint64_t>(v.value);
-            }
-        } else if constexpr (!native_num) {
-            return value >= v.value;
-        }
+        auto const [l, r] = compare_operands(v);
+        return l.value >= r.value;
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
@@ -714,16 +684,8 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     bool operator<=(const bit<op_msb, op_lsb, op_signed> &v) const {
-        if constexpr (native_num && bit<op_msb, op_lsb>::native_num) {
-            // LRM specifies that on ly if both operands are signed we do signed comparison
-            if constexpr (signed_ && op_signed) {
-                return value <= v.value;
-            } else {
-                return static_cast<uint64_t>(value) <= static_cast<uint64_t>(v.value);
-            }
-        } else if constexpr (!native_num) {
-            return value <= v.value;
-        }
+        auto const [l, r] = compare_operands(v);
+        return l.value <= r.value;
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
@@ -1150,6 +1112,16 @@ private:
         this->template unpack_<base + arg0_size>(args...);
     }
 
+    // LRM specifies that only if both operands are signed we do signed comparison
+    // at least 2 bits since the holder of a single bit does not have a sign
+    template <int op_msb, int op_lsb, bool op_signed>
+    [[nodiscard]] auto compare_operands(const bit<op_msb, op_lsb, op_signed> &op) const {
+        auto constexpr target_size = util::max(2, util::max(size, bit<op_msb, op_lsb>::size));
+        auto constexpr s = util::signed_result(signed_, op_signed);
+        return std::make_pair(this->template extend_as<target_size, s>(),
+                              op.template extend_as<target_size, s>());
+    }
+
     [[nodiscard]] T value_mask(uint64_t requested_size) const {
         auto mask = std::numeric_limits<uint64_t>::max();
         mask = mask >> (64ull - requested_size);
-- 
2.43.0


From 7c0ba4db3c36bbbfcf359be41ceaa80b4091785e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:59 +0000
Subject: [PATCH 04/27] fix: 4-state bitwise tables, width and sign coercion,
 x/z sign extension

---
 include/logic/logic.hh | 183 ++++++++++++++++++++++-------------------
 1 file changed, 100 insertions(+), 83 deletions(-)

diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index 8691ffb..2da9fba 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -229,10 +229,28 @@ public:
         [[nodiscard]] constexpr logic<target_size - 1, 0, signed_> extend() const {
         logic<target_size - 1, 0, signed_> result;
         result.value = value.template extend<target_size>();
-        result.xz_mask = xz_mask.template extend<target_size>();
+        // LRM 11.8.4: an x or z sign bit is extended as such
+        if constexpr (signed_) {
+            result.xz_mask = xz_mask.to_signed().template extend<target_size>();
+        } else {
+            result.xz_mask = xz_mask.template extend<target_size>();
+        }
         return result;
     }
 
+    // same as the 2-state version, see LRM 11.8.2
+    template <uint64_t target_size, bool target_signed>
+    requires(target_size >= size)
+        [[nodiscard]] constexpr logic<target_size - 1, 0, target_signed> extend_as() const {
+        if constexpr (signed_ == target_signed) {
+            return this->template extend<target_size>();
+        } else if constexpr (target_signed) {
+            return to_signed().template extend<target_size>();
+        } else {
+            return to_unsigned().template extend<target_size>();
+        }
+    }
+
     /*
      * concatenation
      */
@@ -318,8 +336,8 @@ public:
         // need to take care of the rest
         // only happens between 1 and x/z. Notice that 1 is encoded as (1, 0) and x is (, 1)
         //
-        auto mask = (((xz_mask ^ op.xz_mask) & ~xz_mask) & value) |     // 1   & x/z
-                    (((op.xz_mask ^ xz_mask) & ~op.xz_mask) & ~value);  // x/z & 1
+        auto mask = (((xz_mask ^ op.xz_mask) & ~xz_mask) & value) |       // 1   & x/z
+                    (((op.xz_mask ^ xz_mask) & ~op.xz_mask) & op.value);  // x/z & 1
         result.value &= ~mask;
         result.xz_mask |= mask;
 
@@ -327,26 +345,23 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    requires((util::abs_diff(op_msb, op_lsb) + 1) != size) auto operator&(
-        const bit<op_msb, op_lsb, op_signed> &op) const {
-        return this->template operator&(logic(op));
+    auto operator&(const bit<op_msb, op_lsb, op_signed> &op) const {
+        return this->template operator&(logic<op_msb, op_lsb, op_signed>(op));
     }
 
     template <uint64_t target_size, int op_msb, int op_lsb, bool op_signed>
     requires(target_size >= util::max(size, logic<op_msb, op_lsb>::size)) auto and_(
         const logic<op_msb, op_lsb, op_signed> &op) const {
-        auto l = this->template extend<target_size>();
-        auto r = op.template extend<target_size>();
+        auto constexpr s = util::signed_result(signed_, op_signed);
+        auto l = this->template extend_as<target_size, s>();
+        auto r = op.template extend_as<target_size, s>();
         auto result = l & r;
         return result;
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    logic<size - 1, 0, util::signed_result(signed_, op_signed)> &operator&=(
-        const logic<op_msb, op_lsb, op_signed> &op) {
-        auto const res = (*this) & op;
-        this->value = res.value;
-        this->xz_mask = res.xz_mask;
+    logic &operator&=(const logic<op_msb, op_lsb, op_signed> &op) {
+        *this = (*this) & op;
         return *this;
     }
 
@@ -384,34 +399,31 @@ public:
         // x x x x x
         // z x x x x
         // compute the mask for case // 1 & x/z and x/z & 1
-        auto mask = (((xz_mask ^ op.xz_mask) & ~xz_mask) & value) |     // 1   | x/z
-                    (((op.xz_mask ^ xz_mask) & ~op.xz_mask) & ~value);  // x/z | 1
+        auto mask = (((xz_mask ^ op.xz_mask) & ~xz_mask) & value) |       // 1   | x/z
+                    (((op.xz_mask ^ xz_mask) & ~op.xz_mask) & op.value);  // x/z | 1
         result.value |= mask;
         result.xz_mask &= ~mask;
         return result;
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    requires((util::abs_diff(op_msb, op_lsb) + 1) != size) auto operator|(
-        const bit<op_msb, op_lsb, op_signed> &op) const {
-        return this->template operator|(logic(op));
+    auto operator|(const bit<op_msb, op_lsb, op_signed> &op) const {
+        return this->template operator|(logic<op_msb, op_lsb, op_signed>(op));
     }
 
     template <uint64_t target_size, int op_msb, int op_lsb, bool op_signed>
     requires(target_size >= util::max(size, logic<op_msb, op_lsb>::size)) auto or_(
         const logic<op_msb, op_lsb, op_signed> &op) const {
-        auto l = this->template extend<target_size>();
-        auto r = op.template extend<target_size>();
+        auto constexpr s = util::signed_result(signed_, op_signed);
+        auto l = this->template extend_as<target_size, s>();
+        auto r = op.template extend_as<target_size, s>();
         auto result = l | r;
         return result;
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    logic<size - 1, 0, util::signed_result(signed_, op_signed)> &operator|=(
-        const logic<op_msb, op_lsb, op_signed> &op) {
-        auto const res = (*this) | op;
-        this->value = res.value;
-        this->xz_mask = res.xz_mask;
+    logic &operator|=(const logic<op_msb, op_lsb, op_signed> &op) {
+        *this = (*this) | op;
         return *this;
     }
 
@@ -446,26 +458,23 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    requires((util::abs_diff(op_msb, op_lsb) + 1) != size) auto operator^(
-        const bit<op_msb, op_lsb, op_signed> &op) const {
-        return this->template operator^(logic(op));
+    auto operator^(const bit<op_msb, op_lsb, op_signed> &op) const {
+        return this->template operator^(logic<op_msb, op_lsb, op_signed>(op));
     }
 
     template <uint64_t target_size, int op_msb, int op_lsb, bool op_signed>
     requires(target_size >= util::max(size, logic<op_msb, op_lsb>::size)) auto xor_(
         const logic<op_msb, op_lsb, op_signed> &op) const {
-        auto l = this->template extend<target_size>();
-        auto r = op.template extend<target_size>();
-        auto result = l | r;
+        auto constexpr s = util::signed_result(signed_, op_signed);
+        auto l = this->template extend_as<target_size, s>();
+        auto r = op.template extend_as<target_size, s>();
+        auto result = l ^ r;
         return result;
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    logic<size - 1, 0, util::signed_result(signed_, op_signed)> &operator^=(
-        const logic<op_msb, op_lsb, op_signed> &op) {
-        auto const res = (*this) ^ op;
-        this->value = res.value;
-        this->xz_mask = res.xz_mask;
+    logic &operator^=(const logic<op_msb, op_lsb, op_signed> &op) {
+        *this = (*this) ^ op;
         return *this;
     }
 
@@ -566,17 +575,13 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    requires((util::abs_diff(op_msb, op_lsb) + 1) != size) auto operator>>(
-        const bit<op_msb, op_lsb, op_signed> &op) const {
-        return this->template operator>>(logic(op));
+    auto operator>>(const bit<op_msb, op_lsb, op_signed> &op) const {
+        return this->template operator>>(logic<op_msb, op_lsb, op_signed>(op));
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    logic<size - 1, 0, util::signed_result(signed_, op_signed)> &operator>>=(
-        const logic<op_msb, op_lsb, op_signed> &amount) {
-        auto res = (*this) >> amount;
-        value = res.value;
-        xz_mask = res.xz_mask;
+    logic &operator>>=(const logic<op_msb, op_lsb, op_signed> &amount) {
+        *this = (*this) >> amount;
         return *this;
     }
 
@@ -594,17 +599,13 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    requires((util::abs_diff(op_msb, op_lsb) + 1) != size) auto operator<<(
-        const bit<op_msb, op_lsb, op_signed> &op) const {
-        return this->template operator<<(logic(op));
+    auto operator<<(const bit<op_msb, op_lsb, op_signed> &op) const {
+        return this->template operator<<(logic<op_msb, op_lsb, op_signed>(op));
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    logic<size - 1, 0, util::signed_result(signed_, op_signed)> &operator<<=(
-        const logic<op_msb, op_lsb, op_signed> &amount) {
-        auto res = (*this) << amount;
-        value = res.value;
-        xz_mask = res.xz_mask;
+    logic &operator<<=(const logic<op_msb, op_lsb, op_signed> &amount) {
+        *this = (*this) << amount;
         return *this;
     }
 
@@ -636,7 +637,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     auto ashl(const bit<op_msb, op_lsb, op_signed> &amount) const {
-        return this->template ashl(logic(amount));
+        return this->template ashl(logic<op_msb, op_lsb, op_signed>(amount));
     }
 
     /*
@@ -650,7 +651,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     logic<0> operator==(const bit<op_msb, op_lsb, op_signed> &target) const {
-        return this->template operator==(logic(target));
+        return this->template operator==(logic<op_msb, op_lsb, op_signed>(target));
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
@@ -661,17 +662,21 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     logic<0> operator!=(const bit<op_msb, op_lsb, op_signed> &target) const {
-        return this->template operator!=(logic(target));
+        return this->template operator!=(logic<op_msb, op_lsb, op_signed>(target));
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
     [[nodiscard]] bool match(const logic<op_msb, op_lsb, op_signed> &op) const {
-        return value == op.value && xz_mask == op.xz_mask;
+        auto constexpr target_size = util::max(size, logic<op_msb, op_lsb>::size);
+        auto constexpr s = util::signed_result(signed_, op_signed);
+        auto const l = this->template extend_as<target_size, s>();
+        auto const r = op.template extend_as<target_size, s>();
+        return l.value == r.value && l.xz_mask == r.xz_mask;
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
     [[nodiscard]] bool match(const bit<op_msb, op_lsb, op_signed> &op) const {
-        return this->template match(logic(op));
+        return this->template match(logic<op_msb, op_lsb, op_signed>(op));
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
@@ -692,7 +697,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     logic<0> operator>(const bit<op_msb, op_lsb, op_signed> &target) const {
-        return this->template operator>(logic(target));
+        return this->template operator>(logic<op_msb, op_lsb, op_signed>(target));
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
@@ -703,7 +708,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     logic<0> operator<(const bit<op_msb, op_lsb, op_signed> &target) const {
-        return this->template operator<(logic(target));
+        return this->template operator<(logic<op_msb, op_lsb, op_signed>(target));
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
@@ -714,7 +719,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     logic<0> operator>=(const bit<op_msb, op_lsb, op_signed> &target) const {
-        return this->template operator>=(logic(target));
+        return this->template operator>=(logic<op_msb, op_lsb, op_signed>(target));
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
@@ -725,7 +730,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     logic<0> operator<=(const bit<op_msb, op_lsb, op_signed> &target) const {
-        return this->template operator<=(logic(target));
+        return this->template operator<=(logic<op_msb, op_lsb, op_signed>(target));
     }
 
     constexpr auto operator-() const {
@@ -763,15 +768,16 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     auto operator+(const bit<op_msb, op_lsb, op_signed> &target) const {
-        return this->template operator+(logic(target));
+        return this->template operator+(logic<op_msb, op_lsb, op_signed>(target));
     }
 
     template <uint64_t target_size, int op_msb, int op_lsb, bool op_signed>
     requires(target_size >= util::max(size, logic<op_msb, op_lsb>::size)) auto add(
         const logic<op_msb, op_lsb, op_signed> &op) const {
         // resize things to target size
-        auto l = this->template extend<target_size>();
-        auto r = op.template extend<target_size>();
+        auto constexpr s = util::signed_result(signed_, op_signed);
+        auto l = this->template extend_as<target_size, s>();
+        auto r = op.template extend_as<target_size, s>();
         auto result = l + r;
         return result;
     }
@@ -794,15 +800,16 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     auto operator-(const bit<op_msb, op_lsb, op_signed> &target) const {
-        return this->template operator-(logic(target));
+        return this->template operator-(logic<op_msb, op_lsb, op_signed>(target));
     }
 
     template <uint64_t target_size, int op_msb, int op_lsb, bool op_signed>
     requires(target_size >= util::max(size, logic<op_msb, op_lsb>::size)) auto minus(
         const logic<op_msb, op_lsb, op_signed> &op) const {
         // resize things to target size
-        auto l = this->template extend<target_size>();
-        auto r = op.template extend<target_size>();
+        auto constexpr s = util::signed_result(signed_, op_signed);
+        auto l = this->template extend_as<target_size, s>();
+        auto r = op.template extend_as<target_size, s>();
         auto result = l - r;
         return result;
     }
@@ -825,15 +832,16 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     auto operator*(const bit<op_msb, op_lsb, op_signed> &target) const {
-        return this->template operator*(logic(target));
+        return this->template operator*(logic<op_msb, op_lsb, op_signed>(target));
     }
 
     template <uint64_t target_size, int op_msb, int op_lsb, bool op_signed>
     requires(target_size >= util::max(size, logic<op_msb, op_lsb>::size)) auto multiply(
         const logic<op_msb, op_lsb, op_signed> &op) const {
         // resize things to target size
-        auto l = this->template extend<target_size>();
-        auto r = op.template extend<target_size>();
+        auto constexpr s = util::signed_result(signed_, op_signed);
+        auto l = this->template extend_as<target_size, s>();
+        auto r = op.template extend_as<target_size, s>();
         auto result = l * r;
         return result;
     }
@@ -857,15 +865,16 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     auto operator/(const bit<op_msb, op_lsb, op_signed> &target) const {
-        return this->template operator/(logic(target));
+        return this->template operator/(logic<op_msb, op_lsb, op_signed>(target));
     }
 
     template <uint64_t target_size, int op_msb, int op_lsb, bool op_signed>
     requires(target_size >= util::max(size, logic<op_msb, op_lsb>::size)) auto divide(
         const logic<op_msb, op_lsb, op_signed> &op) const {
         // resize things to target size
-        auto l = this->template extend<target_size>();
-        auto r = op.template extend<target_size>();
+        auto constexpr s = util::signed_result(signed_, op_signed);
+        auto l = this->template extend_as<target_size, s>();
+        auto r = op.template extend_as<target_size, s>();
         auto result = l / r;
         return result;
     }
@@ -889,15 +898,16 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     auto operator%(const bit<op_msb, op_lsb, op_signed> &target) const {
-        return this->template operator%(logic(target));
+        return this->template operator%(logic<op_msb, op_lsb, op_signed>(target));
     }
 
     template <uint64_t target_size, int op_msb, int op_lsb, bool op_signed>
     requires(target_size >= util::max(size, logic<op_msb, op_lsb>::size)) auto mod(
         const logic<op_msb, op_lsb, op_signed> &op) const {
         // resize things to target size
-        auto l = this->template extend<target_size>();
-        auto r = op.template extend<target_size>();
+        auto constexpr s = util::signed_result(signed_, op_signed);
+        auto l = this->template extend_as<target_size, s>();
+        auto r = op.template extend_as<target_size, s>();
         auto result = l % r;
         return result;
     }
@@ -1023,7 +1033,8 @@ public:
 
     // conversion from bit to logic
     template <bool new_signed>
-    constexpr logic(const bit<msb, lsb, new_signed> &b) : value(b) {  // NOLINT
+    constexpr logic(const bit<msb, lsb, new_signed> &b) {  // NOLINT
+        value = b;
         xz_mask.clear();
     }
 
@@ -1031,14 +1042,21 @@ public:
     template <int new_msb, int new_lsb, bool new_signed>
     requires(util::abs_diff(new_msb, new_lsb) ==
              util::abs_diff(msb,
-                            lsb)) explicit logic(const logic<new_msb, new_lsb, new_signed> &target)
-        : value(target.value), xz_mask(target.xz_mask) {}
+                            lsb)) explicit logic(const logic<new_msb, new_lsb, new_signed> &target) {
+        value = target.value;
+        xz_mask = target.xz_mask;
+    }
 
     // implicit conversion via assignment
     template <int new_msb, int new_lsb, bool new_signed>
-    logic &operator=(const logic<new_msb, new_lsb, new_signed> &b) {
+    constexpr logic &operator=(const logic<new_msb, new_lsb, new_signed> &b) {
         value = b.value;
-        xz_mask = b.xz_mask;
+        // the mask gets extended in the same way as the value
+        if constexpr (new_signed) {
+            xz_mask = b.xz_mask.to_signed();
+        } else {
+            xz_mask = b.xz_mask;
+        }
         return *this;
     }
 
@@ -1051,8 +1069,7 @@ public:
 
     template <int new_msb, int new_lsb>
     constexpr logic(const logic<new_msb, new_lsb, true> &b) {  // NOLINT
-        value = b.value;
-        xz_mask = b.xz_mask;
+        *this = b;
     }
 
     // useful constants
-- 
2.43.0


From 60c516fa48abfc6632fe97c68d7f5a0f9cfef382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:30 +0000
Subject: [PATCH 05/27] fix: z & z is x

---
 include/logic/logic.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index 2da9fba..5cd3452 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -338,8 +338,9 @@ public:
         //
         auto mask = (((xz_mask ^ op.xz_mask) & ~xz_mask) & value) |       // 1   & x/z
                     (((op.xz_mask ^ xz_mask) & ~op.xz_mask) & op.value);  // x/z & 1
-        result.value &= ~mask;
         result.xz_mask |= mask;
+        // z & x/z is x as well
+        result.value &= ~result.xz_mask;
 
         return result;
     }
-- 
2.43.0


From 7f28b3a9e61e6f3047e272725ab8da201b1841e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:39 +0000
Subject: [PATCH 06/27] fix: accept same size operands with any range in binary
 operators

---
 include/logic/bit.hh   | 40 ++++++++++++++++++++++++----------------
 include/logic/logic.hh | 40 ++++++++++++++++++++++++----------------
 2 files changed, 48 insertions(+), 32 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 5d6a1be..e0b35fb 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -402,8 +402,9 @@ public:
         return this->template and_<target_size, op_msb, op_lsb, op_signed>(op);
     }
 
-    template <int op_lsb, bool op_signed>
-    auto operator&(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
+    template <int op_msb, int op_lsb, bool op_signed>
+    requires((util::abs_diff(op_msb, op_lsb) + 1) == size) auto operator&(
+        const bit<op_msb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
         result.value = value & op.value;
         result.mask_off();
@@ -434,8 +435,9 @@ public:
         return this->template xor_<target_size, op_msb, op_lsb, op_signed>(op);
     }
 
-    template <int op_lsb, bool op_signed>
-    auto operator^(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
+    template <int op_msb, int op_lsb, bool op_signed>
+    requires((util::abs_diff(op_msb, op_lsb) + 1) == size) auto operator^(
+        const bit<op_msb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
         result.value = value ^ op.value;
         result.mask_off();
@@ -466,8 +468,9 @@ public:
         return this->template or_<target_size, op_msb, op_lsb, op_signed>(op);
     }
 
-    template <int op_lsb, bool op_signed>
-    auto operator|(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
+    template <int op_msb, int op_lsb, bool op_signed>
+    requires((util::abs_diff(op_msb, op_lsb) + 1) == size) auto operator|(
+        const bit<op_msb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
         result.value = value | op.value;
         result.mask_off();
@@ -716,8 +719,9 @@ public:
         return this->template add<target_size, op_msb, op_lsb, op_signed>(op);
     }
 
-    template <int op_lsb, bool op_signed>
-    auto operator+(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
+    template <int op_msb, int op_lsb, bool op_signed>
+    requires((util::abs_diff(op_msb, op_lsb) + 1) == size) auto operator+(
+        const bit<op_msb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
         if constexpr (native_num) {
             result.value = result.to_holder(static_cast<uint64_t>(value) +
@@ -746,8 +750,9 @@ public:
         return this->template minus<target_size, op_msb, op_lsb, op_signed>(op);
     }
 
-    template <int op_lsb, bool op_signed>
-    auto operator-(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
+    template <int op_msb, int op_lsb, bool op_signed>
+    requires((util::abs_diff(op_msb, op_lsb) + 1) == size) auto operator-(
+        const bit<op_msb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
         if constexpr (native_num) {
             result.value = result.to_holder(static_cast<uint64_t>(value) -
@@ -776,8 +781,9 @@ public:
         return this->template multiply<target_size, op_msb, op_lsb, op_signed>(op);
     }
 
-    template <int op_lsb, bool op_signed>
-    auto operator*(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
+    template <int op_msb, int op_lsb, bool op_signed>
+    requires((util::abs_diff(op_msb, op_lsb) + 1) == size) auto operator*(
+        const bit<op_msb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
         if constexpr (native_num) {
             result.value = result.to_holder(static_cast<uint64_t>(value) *
@@ -806,8 +812,9 @@ public:
         return this->template mod<target_size, op_msb, op_lsb, op_signed>(op);
     }
 
-    template <int op_lsb, bool op_signed>
-    auto operator%(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
+    template <int op_msb, int op_lsb, bool op_signed>
+    requires((util::abs_diff(op_msb, op_lsb) + 1) == size) auto operator%(
+        const bit<op_msb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
         result.value = value % op.value;
         return result;
@@ -831,8 +838,9 @@ public:
         return this->template divide<target_size, op_msb, op_lsb, op_signed>(op);
     }
 
-    template <int op_lsb, bool op_signed>
-    auto operator/(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
+    template <int op_msb, int op_lsb, bool op_signed>
+    requires((util::abs_diff(op_msb, op_lsb) + 1) == size) auto operator/(
+        const bit<op_msb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
         result.value = value / op.value;
         return result;
diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index 5cd3452..c056ef7 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -316,8 +316,9 @@ public:
         return this->template and_<target_size, op_msb, op_lsb, op_signed>(op);
     }
 
-    template <int op_lsb, bool op_signed>
-    auto operator&(const logic<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
+    template <int op_msb, int op_lsb, bool op_signed>
+    requires((util::abs_diff(op_msb, op_lsb) + 1) == size) auto operator&(
+        const logic<op_msb, op_lsb, op_signed> &op) const {
         // this is the truth table
         //   0 1 x z
         // 0 0 0 0 0
@@ -373,8 +374,9 @@ public:
         return this->template or_<target_size, op_msb, op_lsb, op_signed>(op);
     }
 
-    template <int op_lsb, bool op_signed>
-    auto operator|(const logic<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
+    template <int op_msb, int op_lsb, bool op_signed>
+    requires((util::abs_diff(op_msb, op_lsb) + 1) == size) auto operator|(
+        const logic<op_msb, op_lsb, op_signed> &op) const {
         // this is the truth table
         //   0 1 x z
         // 0 0 1 x x
@@ -435,8 +437,9 @@ public:
         return this->template xor_<target_size, op_msb, op_lsb, op_signed>(op);
     }
 
-    template <int op_lsb, bool op_signed>
-    auto operator^(const logic<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
+    template <int op_msb, int op_lsb, bool op_signed>
+    requires((util::abs_diff(op_msb, op_lsb) + 1) == size) auto operator^(
+        const logic<op_msb, op_lsb, op_signed> &op) const {
         // this is the truth table
         //   0 1 x z
         // 0 1 0 x x
@@ -758,8 +761,9 @@ public:
         return this->template add<target_size, op_msb, op_lsb, op_signed>(op);
     }
 
-    template <int op_lsb, bool op_signed>
-    auto operator+(const logic<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
+    template <int op_msb, int op_lsb, bool op_signed>
+    requires((util::abs_diff(op_msb, op_lsb) + 1) == size) auto operator+(
+        const logic<op_msb, op_lsb, op_signed> &op) const {
         if (xz_mask.any_set() || op.xz_mask.any_set()) [[unlikely]] {
             return logic<size - 1, 0, util::signed_result(signed_, op_signed)>();
         } else {
@@ -790,8 +794,9 @@ public:
         return this->template minus<target_size, op_msb, op_lsb, op_signed>(op);
     }
 
-    template <int op_lsb, bool op_signed>
-    auto operator-(const logic<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
+    template <int op_msb, int op_lsb, bool op_signed>
+    requires((util::abs_diff(op_msb, op_lsb) + 1) == size) auto operator-(
+        const logic<op_msb, op_lsb, op_signed> &op) const {
         if (xz_mask.any_set() || op.xz_mask.any_set()) [[unlikely]] {
             return logic<size - 1, 0, util::signed_result(signed_, op_signed)>();
         } else {
@@ -822,8 +827,9 @@ public:
         return this->template multiply<target_size, op_msb, op_lsb, op_signed>(op);
     }
 
-    template <int op_lsb, bool op_signed>
-    auto operator*(const logic<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
+    template <int op_msb, int op_lsb, bool op_signed>
+    requires((util::abs_diff(op_msb, op_lsb) + 1) == size) auto operator*(
+        const logic<op_msb, op_lsb, op_signed> &op) const {
         if (xz_mask.any_set() || op.xz_mask.any_set()) [[unlikely]] {
             return logic<size - 1, 0, util::signed_result(signed_, op_signed)>();
         } else {
@@ -854,8 +860,9 @@ public:
         return this->template divide<target_size, op_msb, op_lsb, op_signed>(op);
     }
 
-    template <int op_lsb, bool op_signed>
-    auto operator/(const logic<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
+    template <int op_msb, int op_lsb, bool op_signed>
+    requires((util::abs_diff(op_msb, op_lsb) + 1) == size) auto operator/(
+        const logic<op_msb, op_lsb, op_signed> &op) const {
         // if the op is 0, return x
         if (xz_mask.any_set() || op.xz_mask.any_set() || !op.value.any_set()) [[unlikely]] {
             return logic<size - 1, 0, util::signed_result(signed_, op_signed)>();
@@ -887,8 +894,9 @@ public:
         return this->template mod<target_size, op_msb, op_lsb, op_signed>(op);
     }
 
-    template <int op_lsb, bool op_signed>
-    auto operator%(const logic<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
+    template <int op_msb, int op_lsb, bool op_signed>
+    requires((util::abs_diff(op_msb, op_lsb) + 1) == size) auto operator%(
+        const logic<op_msb, op_lsb, op_signed> &op) const {
         // if the op is 0, return x
         if (xz_mask.any_set() || op.xz_mask.any_set() || !op.value.any_set()) [[unlikely]] {
             return logic<size - 1, 0, util::signed_result(signed_, op_signed)>();
-- 
2.43.0


From d3bfe4c271faadd0045c6ef8f305c8dba39edd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:51 +0000
Subject: [PATCH 07/27] fix: 64-bit accumulators when reducing the words of a
 big number

---
 include/logic/big_num.hh | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/logic/big_num.hh b/include/logic/big_num.hh
index 0429a2a..478fc09 100644
--- a/include/logic/big_num.hh
+++ b/include/logic/big_num.hh
@@ -771,7 +771,8 @@ public:
         // we use the fact that SIMD instructions are faster than compare and branch
         // so summation is faster than any_of in theory
         // also all unused bit are set to 0 by default
-        auto r = std::reduce(values.begin(), values.end(), 0, [](auto a, auto b) { return a | b; });
+        auto r = std::reduce(values.begin(), values.end(), big_num_holder_type{0},
+                             [](auto a, auto b) { return a | b; });
         return r != 0;
     }
 
@@ -787,7 +788,8 @@ public:
     [[maybe_unused]] void unmask() { std::fill(values.begin(), values.end(), 0); }
 
     [[nodiscard]] bool all_set() const {
-        auto v = std::reduce(values.begin(), values.begin() + s - 1, 0,
+        auto v = std::reduce(values.begin(), values.begin() + s - 1,
+                             std::numeric_limits<big_num_holder_type>::max(),
                              [](auto a, auto b) { return a & b; });
         auto constexpr max =
             std::numeric_limits<big_num_holder_type>::max() >> (s * big_num_threshold - size);
@@ -806,13 +808,14 @@ public:
         if constexpr (s == 1) {
             return values[0] == 1u;
         } else {
-            return values[0] == 1u && (std::reduce(values.begin() + 1, values.end(), 0,
-                                                   [](auto a, auto b) { return a | b; }) == 0u);
+            return values[0] == 1u &&
+                   (std::reduce(values.begin() + 1, values.end(), big_num_holder_type{0},
+                                [](auto a, auto b) { return a | b; }) == 0u);
         }
     }
 
     [[nodiscard]] bool fit_in_64() const {
-        return std::reduce(values.begin() + 1, values.end(), 0,
+        return std::reduce(values.begin() + 1, values.end(), big_num_holder_type{0},
                            [](auto a, auto b) { return a | b; }) == 0;
     }
 
-- 
2.43.0


From 1b0b159f880da2eda70fab6079b0d636e633ba17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:07 +0000
Subject: [PATCH 08/27] fix: shift by any amount, treating the amount as
 unsigned

---
 include/logic/big_num.hh |  2 +-
 include/logic/bit.hh     | 78 +++++++++++++++++++---------------------
 2 files changed, 37 insertions(+), 43 deletions(-)

diff --git a/include/logic/big_num.hh b/include/logic/big_num.hh
index 478fc09..55542c7 100644
--- a/include/logic/big_num.hh
+++ b/include/logic/big_num.hh
@@ -814,7 +814,7 @@ public:
         }
     }
 
-    [[nodiscard]] bool fit_in_64() const {
+    [[nodiscard]] constexpr bool fit_in_64() const {
         return std::reduce(values.begin() + 1, values.end(), big_num_holder_type{0},
                            [](auto a, auto b) { return a | b; }) == 0;
     }
diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index e0b35fb..e76d729 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -523,20 +523,15 @@ public:
     template <int op_msb, int op_lsb, bool op_signed>
     auto operator>>(const bit<op_msb, op_lsb, op_signed> &amount) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> res;
-        // couple cases
-        // 1. both of them are native number
-        if constexpr (native_num && bit<op_msb, op_lsb>::native_num) {
-            // make sure to mask off any bit dur to signed extension
-            res.value = (value >> static_cast<T>(amount.value)) & value_mask(size - amount.value);
-        } else if constexpr ((!native_num)) {
-            res.value = value >> amount.value;
+        auto const shift = amount.shift_amount();
+        // everything is shifted out
+        if (shift >= size) [[unlikely]]
+            return res;
+        if constexpr (native_num) {
+            // shift the unsigned value, which doesn't have any bit due to signed extension
+            res.value = res.to_holder(to_unsigned().low_word() >> shift);
         } else {
-            // itself is a native number but amount is not
-            // convert to itself as a big number
-            big_num<size, signed_> big_num;
-            big_num.values[0] = static_cast<uint64_t>(value);
-            auto res_num = big_num >> amount;
-            res.value = static_cast<T>(res_num.values[0]);
+            res.value = value >> shift;
         }
 
         return res;
@@ -575,22 +570,14 @@ public:
     template <int op_msb, int op_lsb, bool op_signed>
     auto operator<<(const bit<op_msb, op_lsb, op_signed> &amount) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> res;
-        // couple cases
-        // 1. both of them are native number
-        // clang doesn't allow accessing native_num as amount.native_num
-        // see https://stackoverflow.com/a/44996066
-        if constexpr (native_num && bit<op_msb, op_lsb>::native_num) {
-            res.value = value << static_cast<T>(amount.value);
-            res.mask_off();
-        } else if constexpr ((!native_num)) {
-            res.value = value << amount.value;
+        auto const shift = amount.shift_amount();
+        // everything is shifted out
+        if (shift >= size) [[unlikely]]
+            return res;
+        if constexpr (native_num) {
+            res.value = res.to_holder(low_word() << shift);
         } else {
-            // itself is a native number but amount is not
-            // convert to itself as a big number
-            big_num<size> big_num;
-            big_num.values[0] = static_cast<uint64_t>(value);
-            auto res_num = big_num << amount;
-            res.value = static_cast<T>(res_num.values[0]);
+            res.value = value << shift;
         }
 
         return res;
@@ -605,20 +592,18 @@ public:
     template <int op_msb, int op_lsb, bool op_signed>
     auto ashr(const bit<op_msb, op_lsb, op_signed> &amount) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> res;
-        // couple cases
-        // 1. both of them are native number
-        if constexpr (native_num && bit<op_msb, op_lsb>::native_num) {
-            // no need to mask since C++ does arithmetic shifts by default
-            res.value = value >> static_cast<T>(amount.value);
-        } else if constexpr ((!native_num)) {
-            res.value = value.ashr(amount.value);
+        // shifting size - 1 already fills the result with the sign bit. only if it is signed
+        auto shift = amount.shift_amount();
+        if (shift >= size) [[unlikely]] {
+            if constexpr (!signed_) return res;
+            shift = size - 1;
+        }
+        if constexpr (native_num && signed_) {
+            res.value = res.to_holder(static_cast<uint64_t>(static_cast<int64_t>(low_word()) >> shift));
+        } else if constexpr (native_num) {
+            res.value = res.to_holder(low_word() >> shift);
         } else {
-            // itself is a native number but amount is not
-            // convert to itself as a big number
-            big_num<size> big_num;
-            big_num.values[0] = static_cast<uint64_t>(value);
-            auto res_num = big_num.ashr(amount);
-            res.value = static_cast<T>(res_num.values[0]);
+            res.value = value.ashr(shift);
         }
 
         return res;
@@ -1076,6 +1061,15 @@ public:
         return r;
     }
 
+    // LRM 11.4.10: the shift amount is always unsigned
+    [[nodiscard]] constexpr uint64_t shift_amount() const {
+        if constexpr (native_num) {
+            return to_unsigned().low_word();
+        } else {
+            return value.fit_in_64() ? value.values[0] : std::numeric_limits<uint64_t>::max();
+        }
+    }
+
     // the lowest 64 bits, extended if the size is smaller
     [[nodiscard]] constexpr uint64_t low_word() const {
         if constexpr (size == 1 && signed_) {
@@ -1130,7 +1124,7 @@ private:
                               op.template extend_as<target_size, s>());
     }
 
-    [[nodiscard]] T value_mask(uint64_t requested_size) const {
+    [[nodiscard]] static constexpr T value_mask(uint64_t requested_size) {
         auto mask = std::numeric_limits<uint64_t>::max();
         mask = mask >> (64ull - requested_size);
         return static_cast<T>(mask);
-- 
2.43.0


From 83655a20a1f748c52b0dbe1b0aaf86ab9cb66ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:31 +0000
Subject: [PATCH 09/27] fix: reductions and bit counts over every width, sign
 and range

---
 include/logic/big_num.hh | 17 +++--------------
 include/logic/bit.hh     | 26 ++++++++------------------
 include/logic/logic.hh   | 27 ++++++---------------------
 3 files changed, 17 insertions(+), 53 deletions(-)

diff --git a/include/logic/big_num.hh b/include/logic/big_num.hh
index 55542c7..5b6f766 100644
--- a/include/logic/big_num.hh
+++ b/include/logic/big_num.hh
@@ -143,7 +143,8 @@ public:
     }
 
     [[maybe_unused]] [[nodiscard]] uint64_t popcount() const {
-        return std::accumulate(values.begin(), values.end(), std::popcount);
+        return std::accumulate(values.begin(), values.end(), uint64_t{0},
+                               [](auto a, auto b) { return a + std::popcount(b); });
     }
 
     constexpr void mask_off() {
@@ -298,19 +299,7 @@ public:
     // reduction
     [[maybe_unused]] [[nodiscard]] bool r_and() const {
         // only if all the bit are set
-        auto b = std::all_of(values.begin(), values.begin() + s - 1, [](auto const v) {
-            return v == std::numeric_limits<uint64_t>::max();
-        });
-        if constexpr (values.size() * 8 == size) {
-            return b;
-        } else {
-            if (b) return false;
-
-            for (uint64_t i = (values.size() - 1); i < s; i++) {
-                if (!get(i)) return false;
-            }
-        }
-        return true;
+        return all_set();
     }
 
     [[maybe_unused]] [[nodiscard]] bool r_xor() const {
diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index e76d729..68bf895 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -346,7 +346,7 @@ public:
 
     [[nodiscard]] uint64_t popcount() const {
         if constexpr (native_num) {
-            return std::popcount(value);
+            return std::popcount(to_unsigned().low_word());
         } else {
             return value.popcount();
         }
@@ -496,11 +496,10 @@ public:
 
     // reduction
     [[nodiscard]] bool r_and() const requires(native_num) {
-        auto constexpr max = std::numeric_limits<T>::max() >> (sizeof(T) * 8 - size);
-        return value == max;
+        return all_set();
     }
 
-    [[nodiscard]] bool r_and() const requires(!native_num) { return value.r_xor(); }
+    [[nodiscard]] bool r_and() const requires(!native_num) { return value.all_set(); }
 
     [[maybe_unused]] [[nodiscard]] bool r_nand() const { return !r_and(); }
 
@@ -509,11 +508,7 @@ public:
     [[maybe_unused]] [[nodiscard]] bool r_nor() const { return !r_or(); }
 
     [[nodiscard]] bool r_xor() const requires(native_num) {
-        bool b = get<0>();
-        for (auto i = 1; i < size; i++) {
-            b = b ^ get(i);
-        }
-        return b;
+        return popcount() % 2;
     }
 
     [[nodiscard]] bool r_xor() const requires(!native_num) { return value.r_xor(); }
@@ -873,13 +868,9 @@ public:
 
     [[nodiscard]] bool any_set() const requires(!native_num) { return value.any_set(); }
 
-    void mask() {
+    constexpr void mask() {
         if constexpr (native_num) {
-            if constexpr (size == 1) {
-                value = true;
-            } else {
-                value = std::numeric_limits<T>::max() >> (sizeof(T) * 8 - size);
-            }
+            value = to_holder(std::numeric_limits<uint64_t>::max());
         } else {
             value.mask();
         }
@@ -890,7 +881,7 @@ public:
             if (value == 0)
                 return size;
             else {
-                auto r = __builtin_clzll(static_cast<uint64_t>(value));
+                auto r = __builtin_clzll(to_unsigned().low_word());
                 return 64 - r - 1;
             }
         } else {
@@ -918,8 +909,7 @@ public:
 
     [[nodiscard]] bool all_set() const {
         if constexpr (native_num) {
-            auto constexpr max = value_mask(size);
-            return value == max;
+            return value == to_holder(std::numeric_limits<uint64_t>::max());
         } else {
             return value.all_set();
         }
diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index c056ef7..59292c5 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -497,30 +497,16 @@ public:
     // reduction
     [[nodiscard]] logic<0> r_and() const {
         // zero trump everything
-        // brute force way to compute
-        for (auto i = 0u; i < size; i++) {
-            auto b = value[i];
-            auto m = xz_mask[i];
-            if (!b && !m)
-                return zero_();
-            else if (m)
-                return x_();
-        }
-        return one_();
+        if (!(value | xz_mask).all_set()) return zero_();
+        return xz_mask.any_set() ? x_() : one_();
     }
 
     [[nodiscard]] logic<0> r_nand() const { return !r_and(); }
 
     [[nodiscard]] logic<0> r_or() const {
-        for (auto i = 0u; i < size; i++) {
-            auto b = value[i];
-            auto m = xz_mask[i];
-            if (b && !m)
-                return one_();
-            else if (m)
-                return x_();
-        }
-        return zero_();
+        // one trump everything
+        if ((value & ~xz_mask).any_set()) return one_();
+        return xz_mask.any_set() ? x_() : zero_();
     }
 
     [[nodiscard]] logic<0> r_nor() const { return !r_or(); }
@@ -535,8 +521,7 @@ public:
         // if x/z is set, it's always x
         if (xz_mask.any_set()) return x_();
         auto bits_count = value.popcount();
-        auto zeros = size - bits_count;
-        return (zeros % 2) ? one_() : zero_();
+        return (bits_count % 2) ? one_() : zero_();
     }
 
     [[nodiscard]] logic<0> r_xnor() const { return !r_xor(); }
-- 
2.43.0


From edf0397b9b3074720b33ae70ca0b4dbc8858d545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:21 +0000
Subject: [PATCH 10/27] fix: arithmetic shift of a big number by 0 keeps its
 sign bit

---
 include/logic/big_num.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/logic/big_num.hh b/include/logic/big_num.hh
index 5b6f766..4455204 100644
--- a/include/logic/big_num.hh
+++ b/include/logic/big_num.hh
@@ -364,6 +364,7 @@ public:
 
     [[nodiscard]] big_num<size, signed_> ashr(uint64_t amount) const {
         if constexpr (signed_) {
+            if (amount == 0) return *this;
             // we will implement logic shifts regardless of the sign
             big_num<size, signed_> res;
             // notice that we need size - 1 since the top bit is always signed bit
-- 
2.43.0


From 49fbc4ee7e852c6c9820be74d20a77704495bb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:35 +0000
Subject: [PATCH 11/27] fix: keep big number multiplication within its storage
 and width

---
 include/logic/big_num.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/logic/big_num.hh b/include/logic/big_num.hh
index 4455204..e46b624 100644
--- a/include/logic/big_num.hh
+++ b/include/logic/big_num.hh
@@ -622,6 +622,7 @@ public:
             __uint128_t c = a * b;
             result.values[0] = (c << 64) >> 64;
             result.values[1] = c >> 64;
+            result.mask_off();
             return result;
         }
         // we're not using Karatsuba's algorithm since it can get infinitely recursion or underflow
@@ -640,12 +641,12 @@ public:
                 uint64_t hi = c >> 64u;
                 uint64_t lo = (c << 64u) >> 64;
 
-                if ((i + j) < size) {
+                if ((i + j) < s) {
                     temp.values[i + j] = lo;
                     result = result + temp;
                     temp.values[i + j] = 0;
                 }
-                if ((i + j + 1) < size) {
+                if ((i + j + 1) < s) {
                     temp.values[i + j + 1] = hi;
                     result = result + temp;
                     temp.values[i + j + 1] = 0;
-- 
2.43.0


From d426ce5ac8bba39dddbc9bf904da13d37cde6bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:44 +0000
Subject: [PATCH 12/27] fix: signed and mixed division and modulo of big
 numbers

---
 include/logic/big_num.hh | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/logic/big_num.hh b/include/logic/big_num.hh
index e46b624..261ea4d 100644
--- a/include/logic/big_num.hh
+++ b/include/logic/big_num.hh
@@ -825,16 +825,21 @@ public:
         }
         if constexpr (result_signed) {
             // this implies that both of them are signed numbers
-            auto op_pos = op.negative() ? op.negate() : op;
-            auto this_pos = negative() ? negate() : *this;
-            std::tie(q, r) = this_pos.div_mode_(op);
+            big_num<size, false> const op_pos = op.negative() ? op.negate() : op;
+            big_num<size, false> const this_pos = negative() ? negate() : *this;
+            std::tie(q, r) = this_pos.div_mod_unsigned(op_pos);
             // if both of them are negative or positive, the sign will cancel out
             if (op.negative() ^ negative()) {
                 q = q.negate();
+            }
+            // LRM 11.4.3: the remainder takes the sign of the first operand
+            if (negative()) {
                 r = r.negate();
             }
         } else {
-            std::tie(q, r) = div_mod_unsigned(op);
+            big_num<size, false> const op_unsigned = op;
+            big_num<size, false> const this_unsigned = *this;
+            std::tie(q, r) = this_unsigned.div_mod_unsigned(op_unsigned);
         }
         return {q, r};
     }
-- 
2.43.0


From a1975e59ff8bbd4de5ba572659000c07aecbed4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:53 +0000
Subject: [PATCH 13/27] fix: 2-state division and modulo by zero, by -1 and of
 mixed signs

---
 include/logic/bit.hh | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 68bf895..59c6514 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -796,7 +796,21 @@ public:
     requires((util::abs_diff(op_msb, op_lsb) + 1) == size) auto operator%(
         const bit<op_msb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
-        result.value = value % op.value;
+        if constexpr (native_num) {
+            // same as big numbers, 0 if divided by zero
+            if (!op.any_set()) return result;
+            if constexpr (util::signed_result(signed_, op_signed)) {
+                auto const l = static_cast<int64_t>(low_word());
+                auto const r = static_cast<int64_t>(op.low_word());
+                // the most negative number cannot be divided by -1
+                result.value = result.to_holder(r == -1 ? 0 : static_cast<uint64_t>(l % r));
+            } else {
+                result.value = result.to_holder(to_unsigned().low_word() %
+                                                op.to_unsigned().low_word());
+            }
+        } else {
+            result.value = value % op.value;
+        }
         return result;
     }
 
@@ -822,7 +836,21 @@ public:
     requires((util::abs_diff(op_msb, op_lsb) + 1) == size) auto operator/(
         const bit<op_msb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
-        result.value = value / op.value;
+        if constexpr (native_num) {
+            // same as big numbers, 0 if divided by zero
+            if (!op.any_set()) return result;
+            if constexpr (util::signed_result(signed_, op_signed)) {
+                auto const l = static_cast<int64_t>(low_word());
+                auto const r = static_cast<int64_t>(op.low_word());
+                // the most negative number cannot be divided by -1
+                result.value = result.to_holder(r == -1 ? 0 - low_word() : static_cast<uint64_t>(l / r));
+            } else {
+                result.value = result.to_holder(to_unsigned().low_word() /
+                                                op.to_unsigned().low_word());
+            }
+        } else {
+            result.value = value / op.value;
+        }
         return result;
     }
 
-- 
2.43.0


From 17a9cdc0e529f1d36274e9b9b07903623d682983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:06 +0000
Subject: [PATCH 14/27] fix: single bit access by declared index, in and out of
 range

---
 include/logic/bit.hh   | 112 +++++++++++++++--------------------------
 include/logic/logic.hh |  43 +++++-----------
 2 files changed, 54 insertions(+), 101 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 59c6514..83d5b46 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -25,6 +25,12 @@ public:
 
     T value;
 
+    // where the bit declared at idx is in the holder
+    static constexpr int64_t position(int64_t idx) { return big_endian ? idx - lsb : lsb - idx; }
+    static constexpr bool has_index(int64_t idx) {
+        return idx >= util::min(msb, lsb) && idx <= util::max(msb, lsb);
+    }
+
     // basic formatting
     [[nodiscard]] std::string str(std::string_view fmt = "b") const {
         if constexpr (native_num) {
@@ -47,36 +53,22 @@ public:
     bit<0> inline operator[](int idx) const requires(!array) { return get_(idx); }
 
     template <int idx>
-    requires(idx < size && native_num) [[nodiscard]] bit<0> inline get() const requires(!array) {
+    requires(has_index(idx)) [[nodiscard]] bit<0> inline get() const requires(!array) {
         return this->operator[](idx);
     }
 
     template <int op_msb, int op_lsb, bool op_signed, bool op_array>
     bool inline get(const bit<op_msb, op_lsb, op_signed, op_array> &op) const requires(!array) {
-        int index;
-        if constexpr (bit<op_msb, op_lsb>::native_num) {
-            index = op.value - util::min(msb, lsb);
-        } else {
-            if (op.fit_in_64()) {
-                index = op.value.value[0] - util::min(msb, lsb);
-            } else {
-                return false;
-            }
-        }
-        return get_(index);
+        return get_(op.to_index()).value;
     }
 
     void inline set(int idx, bool v) {
-        if constexpr (!big_endian) {
-            idx = lsb - idx;
-        }
-        auto i = static_cast<uint64_t>(idx - util::min(lsb, msb));
+        // out of bound write is ignored
+        if (!has_index(idx)) [[unlikely]]
+            return;
+        auto const i = static_cast<uint64_t>(position(idx));
         if constexpr (native_num) {
-            if (v) {
-                value |= 1ull << i;
-            } else {
-                value &= ~(1ull << i);
-            }
+            set_native(i, v);
         } else {
             value.set(i, v);
         }
@@ -84,34 +76,15 @@ public:
 
     template <int idx>
     void set(bool v) requires(!array) {
-        constexpr auto idx_ = big_endian ? idx : (lsb - idx);
-        constexpr auto i = static_cast<uint64_t>(idx_ - util::min(lsb, msb));
+        constexpr auto i = static_cast<uint64_t>(position(idx));
         if constexpr (native_num) {
-            if (v) {
-                value |= 1ull << i;
-            } else {
-                value &= ~(1ull << i);
-            }
+            set_native(i, v);
         } else {
             value.template set<i>(v);
         }
     }
 
-    void inline set(int idx, bit<0> v) {
-        if constexpr (!big_endian) {
-            idx = lsb - idx;
-        }
-        auto i = static_cast<uint64_t>(idx - util::min(lsb, msb));
-        if constexpr (native_num) {
-            if (v) {
-                value |= 1ull << i;
-            } else {
-                value &= ~(1ull << i);
-            }
-        } else {
-            value.set(idx, v.value);
-        }
-    }
+    void inline set(int idx, bit<0> v) { set(idx, static_cast<bool>(v.value)); }
 
     template <int idx>
     void set(bit<0> v) requires(!array) {
@@ -120,14 +93,9 @@ public:
 
     template <int idx, bool v>
     void set() requires(!array) {
-        auto constexpr idx_ = big_endian ? idx : (lsb - idx);
-        constexpr auto i = idx_ - util::min(lsb, msb);
+        constexpr auto i = static_cast<uint64_t>(position(idx));
         if constexpr (native_num) {
-            if constexpr (v) {
-                value |= 1ull << i;
-            } else {
-                value &= ~(1ull << i);
-            }
+            set_native(i, v);
         } else {
             value.template set<i, v>();
         }
@@ -1088,6 +1056,20 @@ public:
         }
     }
 
+    // used as an index. saturates if it does not fit into int
+    [[nodiscard]] constexpr int to_index() const {
+        constexpr auto max = std::numeric_limits<int>::max();
+        constexpr auto min = std::numeric_limits<int>::min();
+        if (negative()) {
+            auto const v = negate();
+            auto const v_ = v.shift_amount();
+            return v_ <= static_cast<uint64_t>(max) ? -static_cast<int>(v_) : min;
+        } else {
+            auto const v = shift_amount();
+            return v <= static_cast<uint64_t>(max) ? static_cast<int>(v) : max;
+        }
+    }
+
     // the lowest 64 bits, extended if the size is smaller
     [[nodiscard]] constexpr uint64_t low_word() const {
         if constexpr (size == 1 && signed_) {
@@ -1149,32 +1131,20 @@ private:
     }
 
     [[nodiscard]] inline bit<0> get_(int idx) const {
-        if constexpr (!big_endian) {
-            idx = lsb - idx;
-        }
+        // out of bound read is 0
+        if (!has_index(idx)) [[unlikely]]
+            return bit<0>(false);
+        auto const i = static_cast<uint64_t>(position(idx));
         if constexpr (native_num) {
-            return bit<0>((value >> idx) & 1);
+            return bit<0>((value >> i) & 1);
         } else {
-            return bit<0>(value[idx]);
+            return bit<0>(value[i]);
         }
     }
 
-    template <int idx>
-    [[nodiscard]] inline bit<0> get_() const {
-        if constexpr (!big_endian) {
-            constexpr auto idx_ = lsb - idx;
-            if constexpr (native_num) {
-                return bit<0>((value >> idx_) & 1);
-            } else {
-                return bit<0>(value.template get<idx_>());
-            }
-        } else {
-            if constexpr (native_num) {
-                return bit<0>((value >> idx) & 1);
-            } else {
-                return bit<0>(value.template get<idx>());
-            }
-        }
+    void set_native(uint64_t i, bool v) requires(native_num) {
+        auto const word = low_word();
+        value = to_holder(v ? (word | (1ull << i)) : (word & ~(1ull << i)));
     }
 
 protected:
diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index 59292c5..8c24b3f 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -55,9 +55,9 @@ public:
         if (idx <= util::max(msb, lsb) && idx >= util::min(msb, lsb)) [[likely]] {
             logic<0> r;
             if (x_set(idx)) [[unlikely]] {
-                r.set_x(idx);
+                r.set_x(0);
             } else if (z_set(idx)) [[unlikely]] {
-                r.set_z(idx);
+                r.set_z(0);
             } else {
                 r.value = value[idx];
                 r.xz_mask.value = false;
@@ -70,12 +70,13 @@ public:
     }
 
     template <int idx>
-    requires(idx < size) [[nodiscard]] inline logic<0> get() const requires(!array) {
+    requires(bit<msb, lsb>::has_index(idx)) [[nodiscard]] inline logic<0> get() const
+        requires(!array) {
         logic<0> r{false};
         if (this->template x_set<idx>()) [[unlikely]] {
-            r.set_x<idx>();
+            r.template set_x<0>();
         } else if (this->template z_set<idx>()) [[unlikely]] {
-            r.set_z<idx>();
+            r.template set_z<0>();
         } else {
             r.value = value.template get<idx>();
         }
@@ -85,32 +86,14 @@ public:
     template <int op_msb, int op_lsb, bool op_signed, bool op_array>
     logic<0> inline get(const logic<op_msb, op_lsb, op_signed, op_array> &op) const
         requires(!array) {
-        int index;
-        if constexpr (util::native_num(util::total_size(msb, lsb))) {
-            index = op.value - util::min(msb, lsb);
-        } else {
-            if (op.fit_in_64() && !op.xz_mask.any_set()) {
-                index = op.value.value[0] - util::min(msb, lsb);
-            } else {
-                return x_();
-            }
-        }
-        return operator[](index);
+        if (op.xz_mask.any_set()) [[unlikely]]
+            return x_();
+        return operator[](op.value.to_index());
     }
 
     template <int op_msb, int op_lsb, bool op_signed, bool op_array>
     logic<0> inline get(const bit<op_msb, op_lsb, op_signed, op_array> &op) const requires(!array) {
-        int index;
-        if constexpr (util::native_num(util::total_size(msb, lsb))) {
-            index = op.value - util::min(msb, lsb);
-        } else {
-            if (op.fit_in_64()) {
-                index = op.value.value[0] - util::min(msb, lsb);
-            } else {
-                return x_();
-            }
-        }
-        return operator[](index);
+        return operator[](op.to_index());
     }
 
     void set(int idx, bool v) requires(!array) {
@@ -1089,9 +1072,9 @@ public:
     }
 
 private:
-    void unmask_bit(uint64_t idx) { xz_mask.set(idx, false); }
+    void unmask_bit(int idx) { xz_mask.set(idx, false); }
 
-    template <uint64_t idx>
+    template <int idx>
     void unmask_bit() {
         xz_mask.template set<idx, false>();
     }
@@ -1120,7 +1103,7 @@ private:
     }
 
     template <bool l_signed>
-    void set_(uint64_t idx, const logic<0, 0, l_signed> &l) {
+    void set_(int idx, const logic<0, 0, l_signed> &l) {
         value.set(idx, l.value.value);
         xz_mask.set(idx, l.xz_mask.value);
     }
-- 
2.43.0


From 5e65f6478e4dc978d587573ce4464351eef8c8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:54 +0000
Subject: [PATCH 15/27] fix: slices of any declared range, out of bound bits
 are 0 or x

---
 include/logic/bit.hh   | 151 +++++++++++++++++------------------------
 include/logic/logic.hh |  56 ++++++++-------
 include/logic/util.hh  |  23 +++++++
 3 files changed, 118 insertions(+), 112 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 83d5b46..7ece794 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -31,6 +31,27 @@ public:
         return idx >= util::min(msb, lsb) && idx <= util::max(msb, lsb);
     }
 
+    // access by the position in the holder. out of bound read is 0, and write is ignored
+    [[nodiscard]] bool bit_at(int64_t i) const {
+        if (i < 0 || i >= static_cast<int64_t>(size)) [[unlikely]]
+            return false;
+        if constexpr (native_num) {
+            return (value >> i) & 1;
+        } else {
+            return value[i];
+        }
+    }
+
+    void set_at(int64_t i, bool v) {
+        if (i < 0 || i >= static_cast<int64_t>(size)) [[unlikely]]
+            return;
+        if constexpr (native_num) {
+            set_native(i, v);
+        } else {
+            value.set(i, v);
+        }
+    }
+
     // basic formatting
     [[nodiscard]] std::string str(std::string_view fmt = "b") const {
         if constexpr (native_num) {
@@ -64,14 +85,7 @@ public:
 
     void inline set(int idx, bool v) {
         // out of bound write is ignored
-        if (!has_index(idx)) [[unlikely]]
-            return;
-        auto const i = static_cast<uint64_t>(position(idx));
-        if constexpr (native_num) {
-            set_native(i, v);
-        } else {
-            value.set(i, v);
-        }
+        set_at(position(idx), v);
     }
 
     template <int idx>
@@ -123,35 +137,27 @@ public:
      * native holder always produce native numbers
      */
     template <int a, int b>
-    requires(util::max(a, b) < size && native_num && b >= lsb) bit<util::abs_diff(a, b)>
+    requires(has_index(a) && has_index(b) && native_num) bit<util::abs_diff(a, b)>
     constexpr inline slice() const requires(!array) { return this->template slice_<a, b>(); }
 
     /*
      * big number but small slice
      */
     template <int a, int b>
-    requires(util::max(a, b) < size && !native_num && util::native_num(util::abs_diff(a, b)) &&
-             b >= lsb) constexpr bit<util::abs_diff(a, b)> inline slice() const requires(!array) {
-        bit<util::abs_diff(a, b), false> result;
-        auto res = value.template slice<a, b>();
-        // need to shrink it down
-        result.value = res.values[0];
-        return result;
-    }
+    requires(has_index(a) && has_index(b) && !native_num &&
+             util::native_num(util::total_size(a, b))) constexpr bit<util::abs_diff(a, b)>
+    inline slice() const requires(!array) { return this->template slice_<a, b>(); }
 
     /*
      * big number and big slice
      */
     template <int a, int b>
-    requires(util::max(a, b) < size && !native_num && !util::native_num(util::abs_diff(a, b)) &&
-             b >= lsb) constexpr bit<util::abs_diff(a, b)> inline slice() const requires(!array) {
-        bit<util::abs_diff(a, b), false> result;
-        result.value = value.template slice<a, b>();
-        return result;
-    }
+    requires(has_index(a) && has_index(b) && !native_num &&
+             !util::native_num(util::total_size(a, b))) constexpr bit<util::abs_diff(a, b)>
+    inline slice() const requires(!array) { return this->template slice_<a, b>(); }
 
     template <int a, int b>
-    requires(util::max(a, b) < size) auto inline slice_ref() requires(!array) {
+    requires(has_index(a) && has_index(b)) auto inline slice_ref() requires(!array) {
         return slice_ref_fixed<a, b, decltype(*this)>(*this);
     }
 
@@ -164,25 +170,23 @@ public:
 
     template <uint32_t target_size, bool increase = true, typename T>
     [[nodiscard]] auto slice(T base) const {
-        int end;
-        int base_value = static_cast<int>(base.to_num());
+        int64_t end;
+        auto const index = util::get_index(base);
+        // unknown base
+        if (!index) [[unlikely]]
+            return bit<target_size - 1>{};
+        int64_t const base_value = *index;
         if constexpr (increase) {
-            end = base_value + static_cast<int>(target_size - 1);
+            end = base_value + static_cast<int64_t>(target_size - 1);
         } else {
-            end = base_value - static_cast<int>(target_size - 1);
+            end = base_value - static_cast<int64_t>(target_size - 1);
         }
-        return this->template slice<target_size>(base_value, end);
+        return this->template slice_<target_size>(base_value, end);
     }
 
     template <uint32_t target_size, bool increase = true, typename T>
     [[nodiscard]] auto slice_ref(T base) {
-        int end;
-        int base_value = static_cast<int>(base.to_num());
-        if constexpr (increase) {
-            end = base_value + static_cast<int>(target_size - 1);
-        } else {
-            end = base_value - static_cast<int>(target_size - 1);
-        }
+        auto const [base_value, end] = util::get_slice_range<target_size, increase>(base);
         return this->slice_ref(base_value, end);
     }
 
@@ -1132,14 +1136,7 @@ private:
 
     [[nodiscard]] inline bit<0> get_(int idx) const {
         // out of bound read is 0
-        if (!has_index(idx)) [[unlikely]]
-            return bit<0>(false);
-        auto const i = static_cast<uint64_t>(position(idx));
-        if constexpr (native_num) {
-            return bit<0>((value >> i) & 1);
-        } else {
-            return bit<0>(value[i]);
-        }
+        return bit<0>(bit_at(position(idx)));
     }
 
     void set_native(uint64_t i, bool v) requires(native_num) {
@@ -1149,56 +1146,41 @@ private:
 
 protected:
     template <int a, int b>
-    requires(util::max(a, b) < size && native_num && b >= lsb) bit<util::abs_diff(a, b)>
+    requires(has_index(a) && has_index(b)) bit<util::abs_diff(a, b)>
     constexpr inline slice_() const {
         // assume the import has type-checked properly, e.g. by a compiler
-        constexpr auto base = util::min(msb, lsb);
-        constexpr auto max = util::max(a, b) - base;
-        constexpr auto min = util::min(a, b) - base;
-        constexpr auto t_size = sizeof(T) * 8;
-        constexpr auto target_size = util::abs_diff(a, b) + 1;
-        bit<target_size - 1, false> result;
-        if constexpr (target_size == 1 && size == 1) {
-            result.value = value != 0;
+        constexpr auto max = util::max(position(a), position(b));
+        constexpr auto min = util::min(position(a), position(b));
+        constexpr auto target_size = util::total_size(a, b);
+        bit<target_size - 1> result;
+        if constexpr (native_num) {
+            result.value = result.to_holder(to_unsigned().low_word() >> min);
         } else {
-            constexpr auto default_mask = bit_mask();
-            uint64_t mask = default_mask << min;
-            uint64_t shmnt;
-            if constexpr (signed_) {
-                shmnt = 2;
+            auto res = value.template slice<max, min>();
+            if constexpr (util::native_num(target_size)) {
+                // need to shrink it down
+                result.value = result.to_holder(res.values[0]);
             } else {
-                shmnt = 1;
+                result.value = res;
             }
-            mask &= (default_mask >> (t_size - max - shmnt));
-            result.value = (value & static_cast<T>(mask)) >> min;
         }
         return result;
     }
 
     template <uint32_t target_size>
-    [[nodiscard]] auto slice_(int a, int b) const {
-        bit<target_size - 1, false> result;
-        if constexpr (native_num) {
-            // assume the import has type-checked properly, e.g. by a compiler
-            auto base = util::min(msb, lsb);
-            auto max = util::max(a, b) - base;
-            auto min = util::min(a, b) - base;
-            auto t_size = sizeof(T) * 8;
-            constexpr auto default_mask = bit_mask();
-            uint64_t mask = default_mask << min;
-            mask &= (default_mask >> (t_size - max - 1));
-            result.value = (value & static_cast<T>(mask)) >> min;
-
-            return result;
-        } else {
-            // may need to shrink
-            auto v = value.template slice<target_size>(a, b);
-            if constexpr (util::native_num(target_size)) {
-                result.value = static_cast<decltype(result.value)>(v.values[0]);
-            } else {
-                result.value = v;
+    [[nodiscard]] auto slice_(int64_t a, int64_t b) const {
+        bit<target_size - 1> result;
+        auto const min = util::min(position(a), position(b));
+        if constexpr (native_num && util::native_num(target_size)) {
+            if (min >= 0 && min < static_cast<int64_t>(size)) [[likely]] {
+                result.value = result.to_holder(to_unsigned().low_word() >> min);
+                return result;
             }
         }
+        // out of bound access will be 0
+        for (uint32_t i = 0; i < target_size; i++) {
+            result.set_at(i, bit_at(min + i));
+        }
         return result;
     }
 
@@ -1220,11 +1202,6 @@ protected:
         }
     }
 
-    // compute the mask in unsigned fashion
-    static constexpr auto bit_mask() requires(native_num) {
-        using TU = typename util::get_holder_type<size, false>::type;
-        return std::numeric_limits<TU>::max();
-    }
 };
 
 template <int a, int b, typename T>
diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index 8c24b3f..14be681 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -159,48 +159,44 @@ public:
      * slices
      */
     template <int a, int b>
-    requires(util::max(a, b) < size) constexpr logic<util::abs_diff(a, b)> inline slice() const
-        requires(!array) {
+    requires(bit<msb, lsb>::has_index(a) && bit<msb, lsb>::has_index(b))
+    constexpr logic<util::abs_diff(a, b)> inline slice() const requires(!array) {
         return this->template slice_<a, b>();
     }
 
     template <int a, int b>
-    requires(util::max(a, b) < size) auto inline slice_ref() requires(!array) {
+    requires(bit<msb, lsb>::has_index(a) && bit<msb, lsb>::has_index(b)) auto inline slice_ref()
+        requires(!array) {
         return slice_ref_fixed<a, b, decltype(*this)>(*this);
     }
 
     // used for runtime slice (only used in packed array per SV LRM)
     template <uint32_t target_size>
     logic<target_size - 1, 0> slice(int a, int b) const {
-        logic<target_size - 1, 0> result;
-        result.value = value.template slice<target_size>(a, b);
-        result.xz_mask = xz_mask.template slice<target_size>(a, b);
-        return result;
+        return this->template slice_<target_size>(a, b);
     }
 
     auto inline slice_ref(int a, int b) requires(!array) { return slice_ref_runtime(a, b, *this); }
 
     template <uint32_t target_size, bool increase = true, typename T>
     auto slice(T base) const {
-        int end;
-        int base_value = static_cast<int>(base.to_num());
+        int64_t end;
+        auto const index = util::get_index(base);
+        // unknown base
+        if (!index) [[unlikely]]
+            return logic<target_size - 1>{};
+        int64_t const base_value = *index;
         if constexpr (increase) {
-            end = base_value + static_cast<int>(target_size - 1);
+            end = base_value + static_cast<int64_t>(target_size - 1);
         } else {
-            end = base_value - static_cast<int>(target_size - 1);
+            end = base_value - static_cast<int64_t>(target_size - 1);
         }
-        return this->template slice<target_size>(base_value, end);
+        return this->template slice_<target_size>(base_value, end);
     }
 
     template <uint32_t target_size, bool increase = true, typename T>
     auto slice_ref(T base) {
-        int end;
-        int base_value = static_cast<int>(base.to_num());
-        if constexpr (increase) {
-            end = base_value + static_cast<int>(target_size - 1);
-        } else {
-            end = base_value - static_cast<int>(target_size - 1);
-        }
+        auto const [base_value, end] = util::get_slice_range<target_size, increase>(base);
         return this->slice_ref(base_value, end);
     }
 
@@ -1110,12 +1106,8 @@ private:
 
 protected:
     template <int a, int b>
-    requires(util::max(a, b) < size) constexpr logic<util::abs_diff(a, b)> inline slice_() const {
-        if constexpr (size <= util::max(a, b)) {
-            // out of bound access will be X
-            return logic<util::abs_diff(a, b)>{};
-        }
-
+    requires(bit<msb, lsb>::has_index(a) && bit<msb, lsb>::has_index(b))
+    constexpr logic<util::abs_diff(a, b)> inline slice_() const {
         logic<util::abs_diff(a, b), 0, false> result;
         result.value = value.template slice<a, b>();
         // copy over masks
@@ -1124,6 +1116,20 @@ protected:
         return result;
     }
 
+    template <uint32_t target_size>
+    [[nodiscard]] logic<target_size - 1> slice_(int64_t a, int64_t b) const {
+        logic<target_size - 1> result;
+        auto const min = util::min(value.position(a), value.position(b));
+        for (uint32_t i = 0; i < target_size; i++) {
+            // out of bound access will be X
+            if (min + i >= 0 && min + i < static_cast<int64_t>(size)) [[likely]] {
+                result.value.set_at(i, value.bit_at(min + i));
+                result.xz_mask.set_at(i, xz_mask.bit_at(min + i));
+            }
+        }
+        return result;
+    }
+
     template <int hi, int lo = hi, int op_hi, int op_lo, bool op_signed>
     void update_(const logic<op_hi, op_lo, op_signed> &op) requires(hi < size && lo < size &&
                                                                     util::match_endian(hi, lo, msb,
diff --git a/include/logic/util.hh b/include/logic/util.hh
index 11e9464..74dbc87 100644
--- a/include/logic/util.hh
+++ b/include/logic/util.hh
@@ -5,6 +5,7 @@
 #include <array>
 #include <limits>
 #include <numeric>
+#include <optional>
 #include <sstream>
 #include <string>
 #include <tuple>
@@ -77,6 +78,28 @@ constexpr bool match_endian(int op1_hi, int op1_lo, int op2_hi, int op2_lo) {
     return ((op1_hi >= op1_lo) && (op2_hi >= op2_lo)) || ((op1_hi < op1_lo) && (op2_hi < op2_lo));
 }
 
+// indices are known and fit into int, or not there at all
+template <typename T>
+constexpr std::optional<int> get_index(const T &v) {
+    if constexpr (T::is_4state) {
+        if (v.xz_mask.any_set()) return std::nullopt;
+        return v.value.to_index();
+    } else {
+        return v.to_index();
+    }
+}
+
+// the two ends of a slice with a variable base. an unknown base is out of any range
+template <uint64_t size, bool increase, typename T>
+constexpr std::pair<int, int> get_slice_range(const T &base) {
+    constexpr int64_t max = std::numeric_limits<int>::max();
+    constexpr int64_t min = std::numeric_limits<int>::min();
+    int64_t const start = get_index(base).value_or(std::numeric_limits<int>::max());
+    auto const end = increase ? start + static_cast<int64_t>(size - 1)
+                              : start - static_cast<int64_t>(size - 1);
+    return {static_cast<int>(start), static_cast<int>(end > max ? max : (end < min ? min : end))};
+}
+
 constexpr uint64_t total_size(int msb, int lsb) { return abs_diff(msb, lsb) + 1; }
 
 template <uint64_t s, bool signed_, typename enable = void>
-- 
2.43.0


From 106d4fde808602dab64ee349a16a0b4bd4d3ab38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:03 +0000
Subject: [PATCH 16/27] fix: update slices of any declared range by
 significance

---
 include/logic/bit.hh   | 47 ++++++++++----------------------
 include/logic/logic.hh | 61 +++++++++---------------------------------
 2 files changed, 27 insertions(+), 81 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 7ece794..219c5cd 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -920,28 +920,13 @@ public:
      */
     // setting values
     template <int hi, int lo = hi, int op_hi, int op_lo, bool op_signed>
-    void update(const bit<op_hi, op_lo, op_signed> &op) requires(hi < size && lo < size) {
-        auto constexpr start = util::min(hi, lo);
-        auto constexpr end = util::max(hi, lo) + 1;
-        for (auto i = start; i < end; i++) {
-            // notice that if it is out of range, 0 will be returned
-            // we need to revert the index accessing scheme here, if the endian doesn't match
-            int idx;
-            if constexpr (bit<op_hi, op_lo>::big_endian ^ big_endian) {
-                idx = util::max(op_lo, op_hi) - i;
-            } else {
-                idx = i;
-            }
-            auto b = op.operator[](idx);
-            set(i, b);
-        }
+    void update(const bit<op_hi, op_lo, op_signed> &op) requires(has_index(hi) && has_index(lo)) {
+        this->template update_<hi, lo>(op);
     }
 
     template <int op_hi, int op_lo, bool op_signed>
     void update(int hi, int lo, const bit<op_hi, op_lo, op_signed> &op) {
-        auto start = util::min(hi, lo);
-        auto end = util::max(hi, lo);
-        this->template update_(start, end, op);
+        this->update_(hi, lo, op);
     }
 
     /*
@@ -1184,24 +1169,20 @@ protected:
         return result;
     }
 
+    template <int hi, int lo, int op_msb, int op_lsb, bool op_signed>
+    void update_(const bit<op_msb, op_lsb, op_signed> &op) {
+        this->update_(hi, lo, op);
+    }
+
     template <int op_msb, int op_lsb, bool op_signed>
-    void update_(int hi, int lo, const bit<op_msb, op_lsb, op_signed> &op) {
-        auto start = util::min(hi, lo);
-        auto end = util::max(hi, lo) + 1;
-        for (auto i = start; i < end; i++) {
+    void update_(int64_t hi, int64_t lo, const bit<op_msb, op_lsb, op_signed> &op) {
+        auto const start = util::min(position(hi), position(lo));
+        auto const end = util::max(position(hi), position(lo));
+        for (int64_t i = 0; i <= end - start; i++) {
             // notice that if it is out of range, 0 will be returned
-            // we need to revert the index accessing scheme here, if the endian doesn't match
-            uint64_t idx;
-            if constexpr (bit<op_msb, op_lsb>::big_endian ^ big_endian) {
-                idx = util::max(op_lsb, op_msb) - i;
-            } else {
-                idx = i;
-            }
-            auto b = op.operator[](idx - start);
-            set(i, b);
+            set_at(start + i, op.bit_at(i));
         }
     }
-
 };
 
 template <int a, int b, typename T>
@@ -1226,7 +1207,7 @@ public:
 
     template <typename K>
     slice_ref_runtime &operator=(const K &value) {
-        self_.template update(a_, b_, value);
+        self_.update(a_, b_, value);
         return *this;
     }
 
diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index 14be681..bb2bf96 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -905,15 +905,14 @@ public:
     // setting values
     template <int hi, int lo = hi, int op_hi, int op_lo, bool op_signed>
     requires(!array) void update(const logic<op_hi, op_lo, op_signed> &op) requires(
-        hi < size && lo < size && util::match_endian(hi, lo, msb, lsb)) {
+        bit<msb, lsb>::has_index(hi) && bit<msb, lsb>::has_index(lo) &&
+        util::match_endian(hi, lo, msb, lsb)) {
         this->template update_<hi, lo>(op);
     }
 
     template <int op_hi, int op_lo, bool op_signed>
     void update(int hi, int lo, const logic<op_hi, op_lo, op_signed> &op) {
-        auto start = util::min(hi, lo);
-        auto end = util::max(hi, lo);
-        this->template update_(start, end, op);
+        this->update_(hi, lo, op);
     }
 
     /*
@@ -1131,54 +1130,20 @@ protected:
     }
 
     template <int hi, int lo = hi, int op_hi, int op_lo, bool op_signed>
-    void update_(const logic<op_hi, op_lo, op_signed> &op) requires(hi < size && lo < size &&
-                                                                    util::match_endian(hi, lo, msb,
-                                                                                       lsb)) {
-        auto constexpr start = util::min(hi, lo);
-        auto constexpr end = util::max(hi, lo) + 1;
-        for (auto i = start; i < end; i++) {
-            // notice that if it is out of range, 0 will be returned
-            // we need to revert the index accessing scheme here, if the endian doesn't match
-            uint64_t idx;
-            if constexpr (logic<op_hi, op_lo, op_signed>::big_endian ^ big_endian) {
-                idx = util::max(op_lo, op_hi) - i;
-            } else {
-                idx = i;
-            }
-            idx = idx - start;
-            logic<0, 0> b;
-            if (idx > util::max(op_lo, op_hi) || idx < util::min(op_lo, op_hi)) {
-                // out of bound access, set to 0
-                b = zero_();
-            } else {
-                b = op.operator[](idx);
-            }
-            set_(i, b);
-        }
+    void update_(const logic<op_hi, op_lo, op_signed> &op) requires(
+        bit<msb, lsb>::has_index(hi) && bit<msb, lsb>::has_index(lo) &&
+        util::match_endian(hi, lo, msb, lsb)) {
+        this->update_(hi, lo, op);
     }
 
     template <int op_hi, int op_lo, bool op_signed>
-    void update_(int hi, int lo, const logic<op_hi, op_lo, op_signed> &op) {
-        auto start = util::min(hi, lo);
-        auto end = util::max(hi, lo) + 1;
-        for (auto i = start; i < end; i++) {
+    void update_(int64_t hi, int64_t lo, const logic<op_hi, op_lo, op_signed> &op) {
+        auto const start = util::min(value.position(hi), value.position(lo));
+        auto const end = util::max(value.position(hi), value.position(lo));
+        for (int64_t i = 0; i <= end - start; i++) {
             // notice that if it is out of range, 0 will be returned
-            // we need to revert the index accessing scheme here, if the endian doesn't match
-            uint64_t idx;
-            if constexpr (logic<op_hi, op_lo, op_signed>::big_endian ^ big_endian) {
-                idx = util::max(op_lo, op_hi) - i;
-            } else {
-                idx = i;
-            }
-            idx = idx - start;
-            logic<0, 0> b;
-            if (idx > util::max(op_lo, op_hi) || idx < util::min(op_lo, op_hi)) {
-                // out of bound access, set to 0
-                b = zero_();
-            } else {
-                b = op.operator[](idx);
-            }
-            set_(i, b);
+            value.set_at(start + i, op.value.bit_at(i));
+            xz_mask.set_at(start + i, op.xz_mask.bit_at(i));
         }
     }
 };
-- 
2.43.0


From 5b927f33bc24d74399dc46aef92e96d74d4f4a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:49 +0000
Subject: [PATCH 17/27] fix: concatenation of any sizes, unsigned, with the
 masks of 2-state operands clear

---
 include/logic/bit.hh   | 33 ++++++++++++++++++---------------
 include/logic/logic.hh | 13 +++++++------
 2 files changed, 25 insertions(+), 21 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 219c5cd..4a15423 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -271,28 +271,21 @@ public:
      * concatenation
      */
     template <int arg0_msb, int arg0_lsb, bool arg0_signed>
-    auto concat(const bit<arg0_msb, arg0_lsb, arg0_signed> &arg0) {
+    constexpr auto concat(const bit<arg0_msb, arg0_lsb, arg0_signed> &arg0) const {
         auto constexpr arg0_size = bit<arg0_msb, arg0_lsb>::size;
         auto constexpr final_size = size + arg0_size;
-        if constexpr (final_size < big_num_threshold) {
-            return bit<final_size - 1>(value << arg0_size | arg0.value);
+        auto res = bit<final_size - 1>();
+        if constexpr (util::native_num(final_size)) {
+            res.value = res.to_holder(to_unsigned().low_word() << arg0_size |
+                                      arg0.to_unsigned().low_word());
         } else {
-            auto res = bit<final_size - 1>();
-            if constexpr (bit<arg0_msb, arg0_lsb>::native_num) {
-                // convert to big num
-                big_num<arg0_size, false> b(arg0.value);
-                auto big_num = value.concat(b);
-                res.big_num = big_num;
-            } else {
-                auto big_num = value.concat(arg0.value);
-                res.big_num = big_num;
-            }
-            return res;
+            res.value = to_big_num().concat(arg0.to_big_num());
         }
+        return res;
     }
 
     template <typename U, typename... Ts>
-    auto concat(U arg0, Ts... args) {
+    requires(sizeof...(Ts) > 0) constexpr auto concat(U arg0, Ts... args) const {
         return concat(arg0).concat(args...);
     }
 
@@ -1045,6 +1038,16 @@ public:
         }
     }
 
+    [[nodiscard]] constexpr big_num<size, false> to_big_num() const {
+        big_num<size, false> res;
+        if constexpr (native_num) {
+            res.values[0] = to_unsigned().low_word();
+        } else {
+            res.values = value.values;
+        }
+        return res;
+    }
+
     // used as an index. saturates if it does not fit into int
     [[nodiscard]] constexpr int to_index() const {
         constexpr auto max = std::numeric_limits<int>::max();
diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index bb2bf96..62c5457 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -234,9 +234,10 @@ public:
      * concatenation
      */
     template <int arg0_msb, int arg0_lsb, bool arg0_signed>
-    constexpr auto concat(const logic<arg0_msb, arg0_lsb, arg0_signed> &arg0) {
+    constexpr auto concat(const logic<arg0_msb, arg0_lsb, arg0_signed> &arg0) const {
         auto constexpr final_size = size + logic<arg0_msb, arg0_lsb, arg0_signed>::size;
-        auto res = logic<final_size - 1, 0, signed_>();
+        // LRM 11.8.1: concatenate results are unsigned, regardless of the operands
+        auto res = logic<final_size - 1, 0, false>();
         res.value = value.concat(arg0.value);
         // concat masks as well
         res.xz_mask = xz_mask.concat(arg0.xz_mask);
@@ -244,17 +245,17 @@ public:
     }
 
     template <int arg0_msb, int arg0_lsb, bool arg0_signed>
-    constexpr auto concat(const bit<arg0_msb, arg0_lsb, arg0_signed> &arg0) {
+    constexpr auto concat(const bit<arg0_msb, arg0_lsb, arg0_signed> &arg0) const {
         auto constexpr final_size = size + bit<arg0_msb, arg0_lsb, arg0_signed>::size;
-        auto res = logic<final_size - 1, 0, signed_>();
+        auto res = logic<final_size - 1, 0, false>();
         res.value = value.concat(arg0);
         // concat masks as well
-        res.xz_mask = xz_mask.template extend<final_size>();
+        res.xz_mask = xz_mask.concat(bit<arg0_msb, arg0_lsb>());
         return res;
     }
 
     template <typename U, typename... Ts>
-    constexpr auto concat(U arg0, Ts... args) {
+    requires(sizeof...(Ts) > 0) constexpr auto concat(U arg0, Ts... args) const {
         return this->concat(arg0).concat(args...);
     }
 
-- 
2.43.0


From 41c5b4d8c142a74aef60d9d580ff96e63758289b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:07 +0000
Subject: [PATCH 18/27] fix: unpack into values of any kind, range and number

---
 include/logic/bit.hh   | 60 ++++++++++++++++++------------------------
 include/logic/logic.hh | 36 +++++++++----------------
 2 files changed, 38 insertions(+), 58 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 4a15423..f758691 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -31,6 +31,17 @@ public:
         return idx >= util::min(msb, lsb) && idx <= util::max(msb, lsb);
     }
 
+    // bits from the position base on, as many as there are
+    template <int base, int amount>
+    requires(base < size) [[nodiscard]] constexpr auto bits_() const {
+        auto constexpr upper_bound = util::min(size - 1, amount + base - 1);
+        if constexpr (big_endian) {
+            return this->template slice_<upper_bound + lsb, base + lsb>();
+        } else {
+            return this->template slice_<lsb - upper_bound, lsb - base>();
+        }
+    }
+
     // access by the position in the holder. out of bound read is 0, and write is ignored
     [[nodiscard]] bool bit_at(int64_t i) const {
         if (i < 0 || i >= static_cast<int64_t>(size)) [[unlikely]]
@@ -294,13 +305,10 @@ public:
      */
     template <typename... Ts>
     [[maybe_unused]] auto unpack(Ts &...args) const {
-        if constexpr (big_endian) {
-            auto tuples = std::forward_as_tuple(args...);
-            auto reversed = util::reverse_tuple(tuples);
-            std::apply([this](auto &&...args) { this->template unpack_(args...); }, reversed);
-        } else {
-            return this->template unpack_(args...);
-        }
+        // the last one takes the lowest bits
+        auto tuples = std::forward_as_tuple(args...);
+        auto reversed = util::reverse_tuple(tuples);
+        std::apply([this](auto &&...args) { this->template unpack_<0>(args...); }, reversed);
     }
 
     /*
@@ -1077,33 +1085,17 @@ private:
     /*
      * unpacking, which is basically slicing as syntax sugars
      */
-    template <int base, int arg0_msb, int arg0_lsb, bool arg0_signed>
-    requires(base < size) void unpack_(bit<arg0_msb, arg0_lsb, arg0_signed> &arg0) const {
-        auto constexpr arg0_size = bit<arg0_msb, arg0_lsb, arg0_signed>::size;
-        auto constexpr upper_bound = util::min(size - 1, arg0_size + base - 1);
-        arg0.value = this->template slice<base, upper_bound>();
-    }
-
-    template <int base, int arg0_msb, int arg0_lsb, bool arg0_signed>
-    requires(base < size) void unpack_(logic<arg0_msb, arg0_lsb, arg0_signed> &arg0) const {
-        auto constexpr arg0_size = bit<arg0_msb, arg0_lsb, arg0_signed>::size;
-        auto constexpr upper_bound = util::min(size - 1, arg0_size + base - 1);
-        arg0.value = this->template slice<base, upper_bound>();
-        arg0.xz_mask.clear();
-    }
-
-    template <int base = 0, int arg0_msb, int arg0_lsb, bool arg0_signed, typename... Ts>
-    [[maybe_unused]] auto unpack_(bit<arg0_msb, arg0_lsb, arg0_signed> &arg0, Ts &...args) const {
-        auto constexpr arg0_size = bit<arg0_msb, arg0_lsb, arg0_signed>::size;
-        this->template unpack_<base, arg0_msb, arg0_lsb, arg0_signed>(arg0);
-        this->template unpack_<base + arg0_size>(args...);
-    }
-
-    template <int base = 0, int arg0_msb, int arg0_lsb, bool arg0_signed, typename... Ts>
-    [[maybe_unused]] auto unpack_(logic<arg0_msb, arg0_lsb, arg0_signed> &arg0, Ts &...args) const {
-        auto constexpr arg0_size = bit<arg0_msb, arg0_lsb, arg0_signed>::size;
-        this->template unpack_<base, arg0_msb, arg0_lsb, arg0_signed>(arg0);
-        this->template unpack_<base + arg0_size>(args...);
+    template <int base, typename T0, typename... Ts>
+    requires(base < size) void unpack_(T0 &arg0, Ts &...args) const {
+        if constexpr (T0::is_4state) {
+            arg0.value = this->template bits_<base, T0::size>();
+            arg0.xz_mask.clear();
+        } else {
+            arg0 = this->template bits_<base, T0::size>();
+        }
+        if constexpr (sizeof...(Ts) > 0) {
+            this->template unpack_<base + T0::size>(args...);
+        }
     }
 
     // LRM specifies that only if both operands are signed we do signed comparison
diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index 62c5457..5b45105 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -264,13 +264,10 @@ public:
      */
     template <typename... Ts>
     auto unpack(Ts &...args) const {
-        if constexpr (big_endian) {
-            auto tuples = std::forward_as_tuple(args...);
-            auto reversed = util::reverse_tuple(tuples);
-            std::apply([this](auto &&...args) { this->template unpack_(args...); }, reversed);
-        } else {
-            return this->template unpack_(args...);
-        }
+        // the last one takes the lowest bits
+        auto tuples = std::forward_as_tuple(args...);
+        auto reversed = util::reverse_tuple(tuples);
+        std::apply([this](auto &&...args) { this->template unpack_<0>(args...); }, reversed);
     }
 
     /*
@@ -1078,24 +1075,15 @@ private:
     /*
      * unpacking, which is basically slicing as syntax sugars
      */
-    template <int base, int arg0_msb, int arg0_lsb, int arg0_signed>
-    requires(base < size) void unpack_(logic<arg0_msb, arg0_lsb, arg0_signed> &arg0) const {
-        auto constexpr arg0_size = logic<arg0_msb, arg0_lsb, arg0_signed>::size;
-        auto constexpr upper_bound = util::min(size - 1, arg0_size + base - 1);
-        arg0.value = value.template slice<base, upper_bound>();
-        arg0.xz_mask = xz_mask.template slice<base, upper_bound>();
-    }
-
-    template <int base = lsb, int arg0_msb, int arg0_lsb, bool arg0_signed, typename... Ts>
-    [[maybe_unused]] auto unpack_(logic<arg0_msb, arg0_lsb, arg0_signed> &arg0, Ts &...args) const {
+    template <int base, int arg0_msb, int arg0_lsb, bool arg0_signed, typename... Ts>
+    requires(base < size) void unpack_(logic<arg0_msb, arg0_lsb, arg0_signed> &arg0,
+                                       Ts &...args) const {
         auto constexpr arg0_size = logic<arg0_msb, arg0_lsb, arg0_signed>::size;
-        this->template unpack_<base, arg0_msb, arg0_lsb, arg0_signed>(arg0);
-        this->template unpack_<base + arg0_size>(args...);
-    }
-
-    template <int>
-    [[maybe_unused]] void unpack_() const {
-        // noop to keep gcc happy
+        arg0.value = value.template bits_<base, arg0_size>();
+        arg0.xz_mask = xz_mask.template bits_<base, arg0_size>();
+        if constexpr (sizeof...(Ts) > 0) {
+            this->template unpack_<base + arg0_size>(args...);
+        }
     }
 
     template <bool l_signed>
-- 
2.43.0


From ea30e9105b23ad7597ef6473e558710bc727ab91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:02 +0000
Subject: [PATCH 19/27] fix: update of a single bit in an ascending range

---
 include/logic/util.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/logic/util.hh b/include/logic/util.hh
index 74dbc87..bf6ce9f 100644
--- a/include/logic/util.hh
+++ b/include/logic/util.hh
@@ -75,7 +75,9 @@ constexpr auto reverse_tuple(T_R &&t) {
 }
 
 constexpr bool match_endian(int op1_hi, int op1_lo, int op2_hi, int op2_lo) {
-    return ((op1_hi >= op1_lo) && (op2_hi >= op2_lo)) || ((op1_hi < op1_lo) && (op2_hi < op2_lo));
+    // a single element goes either way
+    return op1_hi == op1_lo || ((op1_hi >= op1_lo) && (op2_hi >= op2_lo)) ||
+           ((op1_hi < op1_lo) && (op2_hi < op2_lo));
 }
 
 // indices are known and fit into int, or not there at all
-- 
2.43.0


From c1db5c138a11d0b4d5a1f4c5ba4c8c1921ced89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:29 +0000
Subject: [PATCH 20/27] fix: conversions of numbers to and from single and
 signed bits

---
 include/logic/bit.hh | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index f758691..163e888 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -935,13 +935,15 @@ public:
      */
     [[nodiscard]] uint64_t to_uint64() const {
         if constexpr (native_num) {
-            return value;
+            return low_word();
         } else {
             return value.to_uint64();
         }
     }
 
-    [[nodiscard]] int8_t to_num() const requires(signed_ &&size <= 8) { return value; }
+    [[nodiscard]] int8_t to_num() const requires(signed_ &&size <= 8) {
+        return static_cast<int8_t>(low_word());
+    }
 
     [[nodiscard]] uint8_t to_num() const requires(!signed_ && size <= 8) { return value; }
 
@@ -980,7 +982,8 @@ public:
         }
     }
 
-    explicit constexpr bit(T v) requires(util::native_num(size))
+    template <typename K>
+    requires(std::is_arithmetic_v<K> &&util::native_num(size)) explicit constexpr bit(K v)
         : value(to_holder(static_cast<uint64_t>(v))) {}
     template <typename K>
     requires(std::is_arithmetic_v<K> && !util::native_num(size)) constexpr bit(K v)  // NOLINT
-- 
2.43.0


From 99a9e1a1bef0dc5a52e8719648f986689a8477d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:31 +0000
Subject: [PATCH 21/27] fix: packed array elements by declared index

---
 include/logic/array.hh | 54 +++++++++++++++++-------------------------
 1 file changed, 22 insertions(+), 32 deletions(-)

diff --git a/include/logic/array.hh b/include/logic/array.hh
index 62b0b2e..d7a33f8 100644
--- a/include/logic/array.hh
+++ b/include/logic/array.hh
@@ -42,6 +42,14 @@ private:
     }
     using VT = typename util::get_array_type<T, msb, lsb, T::is_4state>::type;
 
+    constexpr static bool has_element(int idx) {
+        return idx >= util::min(msb, lsb) && idx <= util::max(msb, lsb);
+    }
+    // the element on the right hand side of the declared range takes the lowest bits
+    constexpr static int element_address(int idx) {
+        return (msb >= lsb ? idx - lsb : lsb - idx) * static_cast<int>(T::size);
+    }
+
 public:
     // compute the base size
     static constexpr auto base_size = T::size;
@@ -55,10 +63,8 @@ public:
         // copy values over
         // maybe use SIMD to copy?
         // need to compute base address
-        auto constexpr min_idx = util::min(hi, lo) - util::min(msb, lsb);
-        auto constexpr max_idx = util::max(hi, lo) - util::min(msb, lsb);
-        auto constexpr start_addr = min_idx * base_size;
-        auto constexpr end_addr = (max_idx + 1) * base_size;
+        auto constexpr start_addr = util::min(element_address(hi), element_address(lo));
+        auto constexpr end_addr = start_addr + get_slice_size(hi, lo);
 
         return VT::template slice_<end_addr - 1, start_addr>();
     }
@@ -68,51 +74,35 @@ public:
     template <int hi, int lo, typename V>
     auto update(V &&v) {
         // need to compute the base
-        auto constexpr min_idx = util::min(hi, lo) - util::min(msb, lsb);
-        auto constexpr max_idx = util::max(hi, lo) - util::min(msb, lsb);
-        auto constexpr start_addr = min_idx * base_size;
-        auto constexpr end_addr = (max_idx + 1) * base_size;
+        auto constexpr start_addr = util::min(element_address(hi), element_address(lo));
+        auto constexpr end_addr = start_addr + get_slice_size(hi, lo);
         // use the underlying logic implementation
         VT::template update_<end_addr - 1, start_addr>(v);
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
     auto operator[](const logic<op_msb, op_lsb, op_signed> &op) const {
-        // if the value is too big, we return X
-        static const auto size_logic = logic<31, 0>(array_size);
-        if (op.xz_mask.any_set() || op >= size_logic) [[unlikely]] {
+        auto const index = util::get_index(op);
+        // if the value is unknown or out of range, we return X
+        if (!index || !has_element(*index)) [[unlikely]] {
             using T_ = typename util::get_array_base_type<T, base_size, T::is_4state>::type;
             return T_{};
         } else {
-            int index;
-            if constexpr (util::native_num(logic<op_msb, op_lsb>::size)) {
-                index = op.value.value;
-            } else {
-                index = op.value.value[0];
-            }
-            auto idx = index - util::min(msb, lsb);
-            auto start_addr = idx * base_size;
-            auto end_addr = (idx + 1) * base_size;
+            auto const start_addr = element_address(*index);
+            auto const end_addr = start_addr + static_cast<int>(base_size) - 1;
             return VT::template slice<base_size>(start_addr, end_addr);
         }
     }
 
     template <int op_msb, int op_lsb, bool op_signed, typename K>
     void update(const logic<op_msb, op_lsb, op_signed> &op, const K &value) {
-        static const auto size_logic = logic<31, 0>(array_size);
-        if (op.xz_mask.any_set() || op >= size_logic) [[unlikely]] {
+        auto const index = util::get_index(op);
+        if (!index || !has_element(*index)) [[unlikely]] {
             return;
         } else {
-            int index;
-            if constexpr (util::native_num(logic<op_msb, op_lsb>::size)) {
-                index = op.value.value;
-            } else {
-                index = op.value.value[0];
-            }
-            auto idx = index - util::min(msb, lsb);
-            int start_addr = idx * base_size;
-            int end_addr = (idx + 1) * base_size;
-            VT::template update_(start_addr, end_addr, value);
+            auto const start_addr = element_address(*index);
+            auto const end_addr = start_addr + static_cast<int>(base_size) - 1;
+            VT::update_(start_addr, end_addr, value);
         }
     }
 
-- 
2.43.0


From 75aa73d799132007ca52a730cab998e3fc12aca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:35 +0000
Subject: [PATCH 22/27] fix: unpacked array with ranges that do not start from
 0

---
 include/logic/array.hh | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/logic/array.hh b/include/logic/array.hh
index d7a33f8..61d5a13 100644
--- a/include/logic/array.hh
+++ b/include/logic/array.hh
@@ -121,21 +121,21 @@ public:
 
     const T &operator[](int idx) const {
         const static T x_ = T{};
-        auto i = static_cast<uint32_t>(idx - util::min(msb, lsb));
-        if (i >= size) {
+        if (idx < util::min(msb, lsb) || idx > util::max(msb, lsb)) {
             return x_;
         } else {
-            return value[i];
+            return value[idx - util::min(msb, lsb)];
         }
     }
 
     template <int idx, typename V>
     auto update(const V v) {
-        if (idx >= size) return;
         // need to compute the base
-        auto constexpr i = idx - util::min(msb, lsb);
-        // use the underlying logic implementation
-        value[i] = v;
+        if constexpr (idx >= util::min(msb, lsb) && idx <= util::max(msb, lsb)) {
+            auto constexpr i = idx - util::min(msb, lsb);
+            // use the underlying logic implementation
+            value[i] = v;
+        }
     }
 
 private:
-- 
2.43.0


From 5bc3bcd72262cf2fe6f162d5c0367e5fdd6c8bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:29 +0000
Subject: [PATCH 23/27] fix: digits of number literals: hex in lower case, x
 and z in upper case, more than 64 bits

---
 src/util.cc | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/util.cc b/src/util.cc
index fd5dfcc..ecbf351 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -35,6 +35,11 @@ char get_output_base(std::string_view fmt) {
     }
 }
 
+// digits that do not fit are dropped
+constexpr uint64_t shift_digit(uint64_t digit, uint64_t amount) {
+    return amount < 64 ? digit << amount : 0;
+}
+
 constexpr uint64_t parse_raw_str_(std::string_view value, char base) {
     uint64_t result = 0;
     switch (base) {
@@ -57,8 +62,8 @@ constexpr uint64_t parse_raw_str_(std::string_view value, char base) {
             uint64_t idx = 0;
             for (auto i = 0ull; i < value.size(); i++) {
                 auto c = value[value.size() - i - 1];
-                if (c == '1' || c == 'z') {
-                    result |= 1ull << idx;
+                if (c == '1' || c == 'z' || c == 'Z') {
+                    result |= shift_digit(1, idx);
                 }
                 if (c != '_') idx++;
             }
@@ -78,7 +83,7 @@ constexpr uint64_t parse_raw_str_(std::string_view value, char base) {
                     s = 0b111;
                 else
                     s = c - '0';
-                result |= s << (idx * 3ull);
+                result |= shift_digit(s, idx * 3ull);
                 if (c != '_') idx++;
             }
             break;
@@ -97,10 +102,10 @@ constexpr uint64_t parse_raw_str_(std::string_view value, char base) {
                 else if (c >= '0' && c <= '9')
                     s = c - '0';
                 else if (c >= 'a' && c <= 'f')
-                    s = c - 'a';
+                    s = c - 'a' + 10;
                 else if (c >= 'A' && c <= 'F')
                     s = c - 'A' + 10;
-                result |= s << (idx * 4ull);
+                result |= shift_digit(s, idx * 4ull);
                 if (c != '_') idx++;
             }
             break;
@@ -132,8 +137,8 @@ uint64_t parse_xz_raw_str_(std::string_view value, char base) {
             uint64_t idx = 0;
             for (auto i = 0u; i < value.size(); i++) {
                 auto c = value[value.size() - i - 1];
-                if (c == 'x' || c == 'z') {
-                    result |= 1u << idx;
+                if (c == 'x' || c == 'X' || c == 'z' || c == 'Z') {
+                    result |= shift_digit(1, idx);
                 }
                 if (c != '_') idx++;
             }
@@ -149,7 +154,7 @@ uint64_t parse_xz_raw_str_(std::string_view value, char base) {
                 // this will be taken care of by the xz mask parsing
                 if (c == 'x' || c == 'X' || c == 'z' || c == 'Z') {
                     s = 0b111;
-                    result |= s << (idx * 3);
+                    result |= shift_digit(s, idx * 3);
                 }
                 if (c != '_') idx++;
             }
@@ -164,7 +169,7 @@ uint64_t parse_xz_raw_str_(std::string_view value, char base) {
                 // this will be taken care of by the xz mask parsing
                 if (c == 'x' || c == 'X' || c == 'z' || c == 'Z') {
                     s = 0b1111;
-                    result |= s << (idx * 4);
+                    result |= shift_digit(s, idx * 4);
                 }
                 if (c != '_') idx++;
             }
-- 
2.43.0


From 9dbc488ccaa652361798e966930e2f31b86c80dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:32 +0000
Subject: [PATCH 24/27] fix: parse big number literals with separators, in
 octal and in decimal

---
 src/util.cc | 76 +++++++++++++++++++++++++++++++++--------------------
 1 file changed, 47 insertions(+), 29 deletions(-)

diff --git a/src/util.cc b/src/util.cc
index ecbf351..15de46f 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -206,25 +206,57 @@ uint64_t get_stride(char base) {
     }
 }
 
+void parse_decimal(std::string_view value, uint64_t size, uint64_t* ptr) {
+    auto const num_array = (size % 64 == 0) ? size / 64 : (size / 64 + 1);
+    std::fill(ptr, ptr + num_array, 0);
+    for (auto const c : value) {
+        if (c < '0' || c > '9') continue;
+        __uint128_t carry = c - '0';
+        for (auto i = 0u; i < num_array; i++) {
+            carry += static_cast<__uint128_t>(ptr[i]) * 10;
+            ptr[i] = static_cast<uint64_t>(carry);
+            carry = carry >> 64;
+        }
+    }
+    if (size % 64) {
+        ptr[num_array - 1] &= std::numeric_limits<uint64_t>::max() >> (64 - size % 64);
+    }
+}
+
+// digits don't line up with the 64-bit boundary if there are separators, or in oct
+template <typename F>
+void parse_digits(std::string_view value, char base, uint64_t size, uint64_t* ptr, const F& parse) {
+    auto const stride = get_stride(base);
+    auto const is_str = base == 's' || base == 'S';
+    auto const num_array = (size % 64 == 0) ? size / 64 : (size / 64 + 1);
+    std::fill(ptr, ptr + num_array, 0);
+    uint64_t pos = 0;
+    for (auto i = value.size(); i > 0 && pos < size; i--) {
+        auto const c = value.substr(i - 1, 1);
+        if (c[0] == '_' && !is_str) continue;
+        uint64_t const digit = parse(c, base);
+        auto const idx = pos / 64;
+        auto const start = pos % 64;
+        ptr[idx] |= digit << start;
+        if (start + stride > 64 && idx + 1 < num_array) {
+            ptr[idx + 1] |= digit >> (64 - start);
+        }
+        pos += stride;
+    }
+    if (size % 64) {
+        ptr[num_array - 1] &= std::numeric_limits<uint64_t>::max() >> (64 - size % 64);
+    }
+}
+
 void parse_raw_str(std::string_view value, uint64_t size, uint64_t* ptr) {
     // use existing functions to parse single uint64_t values, except for decimals.
     // big number decimals are just inefficient, and I don't know why would anyone use it.
     auto [base, start_pos] = get_input_base(value);
     value = value.substr(start_pos);
-    auto remaining_size = value.size();
-    auto end = value.size();
-    auto const stride = get_stride(base);
-    auto const batch_size = 64 / stride;
-
-    auto num_array = (size % 64 == 0) ? size / 64 : (size / 64 + 1);
-    uint64_t idx = 0;
-    while (remaining_size > 0 && idx < num_array) {
-        auto begin = remaining_size >= batch_size ? remaining_size - batch_size : 0;
-        ptr[idx] = parse_raw_str_(value.substr(begin, end - begin), base);
-
-        idx++;
-        end = begin;
-        remaining_size = remaining_size > batch_size ? remaining_size - batch_size : 0;
+    if (base == 'd' || base == 'D') {
+        parse_decimal(value, size, ptr);
+    } else {
+        parse_digits(value, base, size, ptr, parse_raw_str_);
     }
 }
 
@@ -233,21 +265,7 @@ void parse_xz_raw_str(std::string_view value, uint64_t size, uint64_t* ptr) {
     // big number decimals are just inefficient, and I don't know why would anyone use it.
     auto [base, start_pos] = get_input_base(value);
     value = value.substr(start_pos);
-    auto remaining_size = value.size();
-    auto end = value.size();
-    auto const stride = get_stride(base);
-    auto const batch_size = 64 / stride;
-
-    auto num_array = (size % 64 == 0) ? size / 64 : (size / 64 + 1);
-    uint64_t idx = 0;
-    while (remaining_size > 0 && idx < num_array) {
-        auto begin = remaining_size >= batch_size ? remaining_size - batch_size : 0;
-        ptr[idx] = parse_xz_raw_str_(value.substr(begin, end - begin), base);
-
-        idx++;
-        end = begin;
-        remaining_size = remaining_size > batch_size ? remaining_size - batch_size : 0;
-    }
+    parse_digits(value, base, size, ptr, parse_xz_raw_str_);
 }
 
 constexpr std::array<uint64_t, 128> compute_decimal_size() {
-- 
2.43.0


From cbf73787d373f142a2b063d48f538b151f7d0a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:34 +0000
Subject: [PATCH 25/27] fix: format 2-state values and partial digits

---
 src/util.cc | 118 +++-------------------------------------------------
 1 file changed, 6 insertions(+), 112 deletions(-)

diff --git a/src/util.cc b/src/util.cc
index 15de46f..17f49ad 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -404,64 +404,17 @@ std::string format_value_2power(char base, uint64_t value) {
 }
 
 std::string to_string(std::string_view fmt, uint64_t size, uint64_t value, bool is_negative) {
-    char base;
-    uint64_t actual_size;
-    bool padding;
-    parse_fmt(fmt, size, base, actual_size, padding);
-
-    // now print out the format
-    std::stringstream ss;
-    switch (base) {
-        case 'b':
-        case 'B': {
-            auto b = std::bitset<64>(value);
-            auto s = b.to_string().substr(64 - size);
-            // need to reverse it
-            std::reverse(s.begin(), s.end());
-            ss << s;
-            break;
-        }
-        case 'o':
-        case 'O':
-        case 'x':
-        case 'h':
-        case 'X':
-        case 'H': {
-            ss << format_value_2power(base, value);
-            break;
-        }
-        case 's':
-        case 'S':
-            for (auto i = 0u; i < size; i += 8) {
-                auto c = value >> (i * 8) & 0xFF;
-                ss << c;
-            }
-            break;
-        case 'd':
-        case 'D': {
-            if (value == 0) {
-                ss << 0;
-            } else {
-                while (value > 0) {
-                    auto r = value % 10;
-                    ss << r;
-                    value /= 10;
-                }
-            }
-            break;
-        }
-        default:;
-    }
-    return pad_result(is_negative, base, actual_size, padding, ss);
+    return to_string(fmt, size, value, 0, is_negative);
 }
 
 uint64_t get_mask(uint64_t stride) { return std::numeric_limits<uint64_t>::max() >> (64 - stride); }
 
 std::string fmt_value(char base, uint64_t size, uint64_t value, uint64_t xz_mask) {
     auto stride = get_stride(base);
-    const auto mask = get_mask(stride);
     std::stringstream ss;
     for (auto i = 0u; i < size; i += stride) {
+        // the last one may be partial
+        const auto mask = get_mask(std::min<uint64_t>(stride, size - i));
         auto v = (value >> i) & mask;
         auto xz = (xz_mask >> i) & mask;
         if (xz != 0) {
@@ -609,70 +562,11 @@ std::string to_string(std::string_view fmt, uint64_t size, uint64_t value, uint6
     return to_string_(fmt, size, value, xz_mask, is_negative, true);
 }
 
-std::string to_string_(std::string_view fmt, uint64_t size, const uint64_t* value, bool is_negative,
-                       bool use_padding) {
-    char base;
-    uint64_t actual_size;
-    bool padding;
-    parse_fmt(fmt, size, base, actual_size, padding);
-
-    auto num_array = (size % 64 == 0) ? size / 64 : (size / 64 + 1);
-
-    std::stringstream ss;
-    if (base != 'd' && base != 'D') {
-        // notice that because in oct format, 3 is not a power of 2, we need to be extra careful
-        if (base == 'o' || base == 'O') {
-            auto num_chunks = static_cast<uint64_t>(std::ceil(static_cast<double>(size) / 3));
-            for (auto i = 0u; i < num_chunks; i++) {
-                auto start = i * 3;
-                auto value_idx = start / 64;
-                auto start_idx = start % 64;
-                // if it's across the 64-bit boundary
-                uint64_t v;
-                if ((64 - start_idx) < 3) {
-                    v = (value[value_idx] >> start_idx) & 0x7;
-                    v |= (value[value_idx + 1]) & (0x7 >> (64 - start_idx));
-                } else {
-                    v = (value[value_idx] >> start_idx) & 0x7;
-                }
-                auto s = to_string(fmt, 3, v, false);
-                ss << s;
-            }
-        } else {
-            for (auto i = 0u; i < num_array - 1; i++) {
-                ss << to_string(fmt, 64, value[i], false);
-            }
-            if (size % 64) {
-                ss << to_string(fmt, size % 64, value[num_array - 1], false);
-            }
-        }
-    } else {
-        // FIXME
-        // give up. display the least significant two parts
-        auto size_ = size > 128 ? 128 : size;
-        __uint128_t v = 0;
-        if (size_ > 64) {
-            v |= value[1];
-            v = v << 64;
-        }
-        v |= value[0];
-        auto q = v;
-        while (q != 0) {
-            auto r = q % 10;
-            ss << static_cast<uint64_t>(r);
-            q = q / 10;
-        }
-    }
-
-    if (use_padding)
-        return pad_result(is_negative, base, actual_size, padding, ss);
-    else
-        return ss.str();
-}
-
 std::string to_string(std::string_view fmt, uint64_t size, const uint64_t* value,
                       bool is_negative) {
-    return to_string_(fmt, size, value, is_negative, true);
+    auto num_array = (size % 64 == 0) ? size / 64 : (size / 64 + 1);
+    std::vector<uint64_t> xz_mask(num_array, 0);
+    return to_string(fmt, size, value, xz_mask.data(), is_negative);
 }
 
 std::string to_string(std::string_view fmt, uint64_t size, const uint64_t* value,
-- 
2.43.0


From 348223ce6d911ce72dda24ffebadc41a1d4a9ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:36 +0000
Subject: [PATCH 26/27] fix: format big numbers across 64-bit words, and in
 decimal

---
 src/util.cc | 36 +++++++++++++++++-------------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/src/util.cc b/src/util.cc
index 17f49ad..f229a36 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -268,15 +268,15 @@ void parse_xz_raw_str(std::string_view value, uint64_t size, uint64_t* ptr) {
     parse_digits(value, base, size, ptr, parse_xz_raw_str_);
 }
 
-constexpr std::array<uint64_t, 128> compute_decimal_size() {
+constexpr std::array<uint64_t, 129> compute_decimal_size() {
     // we precompute 128 entries of decimal sizes. if larger than that we need to
     // recompute each time. no caching allowed for the sakes of concurrency since
     // we need to protect the cache with a mutex if that is the case
-    std::array<uint64_t, 128> result{};
+    std::array<uint64_t, 129> result{};
     // zero is ill-defined
     result[0] = 1;
 
-    for (auto i = 1u; i < 128; i++) {
+    for (auto i = 1u; i <= 128; i++) {
         __uint128_t value = 0;
         value = ~value;
         // shift based on the size
@@ -590,25 +590,22 @@ std::string to_string(std::string_view fmt, uint64_t size, const uint64_t* value
                 // if it's across the 64-bit boundary
                 uint64_t v;
                 uint64_t xz;
-                if ((64 - start_idx) < 3) {
-                    v = (value[value_idx] >> start_idx) & 0x7;
-                    v |= (value[value_idx + 1]) & (0x7 >> (64 - start_idx));
-                    xz = (xz_mask[value_idx] >> start_idx) & 0x7;
-                    xz |= (xz_mask[value_idx + 1]) & (0x7 >> (64 - start_idx));
+                if ((64 - start_idx) < 3 && value_idx + 1 < num_array) {
+                    v = value[value_idx] >> start_idx;
+                    v |= (value[value_idx + 1] << (64 - start_idx)) & 0x7;
+                    xz = xz_mask[value_idx] >> start_idx;
+                    xz |= (xz_mask[value_idx + 1] << (64 - start_idx)) & 0x7;
                 } else {
                     v = (value[value_idx] >> start_idx) & 0x7;
                     xz = (xz_mask[value_idx] >> start_idx) & 0x7;
                 }
-                auto s = to_string_(fmt, 3, v, xz, false, false);
+                auto s = to_string_(fmt, std::min<uint64_t>(3, size - start), v, xz, false, false);
                 ss << s;
             }
         } else {
-            for (auto i = 0u; i < num_array - 1; i++) {
-                ss << to_string_(fmt, 64, value[i], xz_mask[i], false, false);
-            }
-            if (size % 64) {
-                ss << to_string_(fmt, size % 64, value[num_array - 1], xz_mask[num_array - 1],
-                                 false, false);
+            for (auto i = 0u; i < num_array; i++) {
+                auto size_ = std::min<uint64_t>(64, size - i * 64);
+                ss << to_string_(fmt, size_, value[i], xz_mask[i], false, false);
             }
         }
 
@@ -628,12 +625,13 @@ std::string to_string(std::string_view fmt, uint64_t size, const uint64_t* value
         xz |= xz_mask[0];
         if (xz != 0) {
             // contains x/z
-            if ((~xz) == 0) {
+            auto const mask = (~static_cast<__uint128_t>(0)) >> (128 - size_);
+            if (xz == mask) {
                 // all x or z
                 if (v == 0) {
                     ss << 'x';
                 } else {
-                    if ((~v) == 0) {
+                    if (v == mask) {
                         // all z
                         ss << 'z';
                     } else {
@@ -660,11 +658,11 @@ std::string to_string(std::string_view fmt, uint64_t size, const uint64_t* value
             }
         } else {
             auto q = v;
-            while (q != 0) {
+            do {
                 auto r = q % 10;
                 ss << static_cast<uint64_t>(r);
                 q = q / 10;
-            }
+            } while (q != 0);
         }
     }
 
-- 
2.43.0


From 7750e13fe0be39eb7f9f8ce64ac6b4f9d3db074d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:47 +0000
Subject: [PATCH 27/27] fix: strings of signed values

---
 include/logic/bit.hh   | 2 +-
 include/logic/logic.hh | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 163e888..b4d7d53 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -69,7 +69,7 @@ public:
             if (signed_ && negative() && util::decimal_fmt(fmt)) {
                 return util::to_string(fmt, size, negate().value, true);
             } else {
-                return util::to_string(fmt, size, value, false);
+                return util::to_string(fmt, size, to_unsigned().low_word(), false);
             }
         } else {
             if (signed_ && negative() && util::decimal_fmt(fmt)) {
diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index 5b45105..a0bfcf3 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -26,7 +26,7 @@ public:
     // basic formatting
     [[nodiscard]] std::string str(std::string_view fmt = "b") const {
         if constexpr (signed_) {
-            auto is_negative = value.negative();
+            auto is_negative = value.negative() && !xz_mask.any_set();
             if (is_negative && util::decimal_fmt(fmt)) {
                 auto value_ = value.negate().value;
                 if constexpr (util::native_num(size)) {
@@ -39,7 +39,7 @@ public:
             }
         }
         if constexpr (util::native_num(size)) {
-            uint64_t v = value.value;
+            uint64_t v = value.to_unsigned().low_word();
             uint64_t xz = xz_mask.value;
             return util::to_string(fmt, size, v, xz, false);
         } else {
-- 
2.43.0

