"""Planted bugs: one edit (or several), a demonstration, what it needs to show."""
B, L, N, A, U = 'include/logic/bit.hh', 'include/logic/logic.hh', 'include/logic/big_num.hh', 'include/logic/array.hh', 'src/util.cc'
S = [
    dict(id='c05-shr-word', prop='C05', file=N,
         old='''            auto dst = i - amount;
            res.set(dst, get(i));
        }
        return res;
    }

    template <uint64_t op_size, bool op_signed>
    big_num<size, util::signed_result(signed_, op_signed)> operator>>(''',
         new='''            auto dst = i - amount;
            res.set(dst, get(i) && (amount != big_num_threshold || dst));
        }
        return res;
    }

    template <uint64_t op_size, bool op_signed>
    big_num<size, util::signed_result(signed_, op_signed)> operator>>(''',
         demo='''    L::bit<99, 0> a;
    for (int i = 0; i < 100; i++) a.value.set(i, true);
    auto r = a >> L::bit<7, 0>{(uint8_t)64};
    CHECK(r.value.values[0] == 0xFFFFFFFFFull);
    CHECK((a >> L::bit<7, 0>{(uint8_t)65}).value.values[0] == 0x7FFFFFFFFull);''',
         needs='a multi-word value shifted right by exactly 64 with bit 64 set', breaks='the lowest result bit is lost'),
    dict(id='c01-bigxor-tail', prop='C01', file=N, old='''        for (uint i = 0; i < s; i++) {
            result.values[i] = values[i] ^ op.values[i];
        }''', new='''        uint i = 0;
        for (; i + 1 < s; i += 2) {
            result.values[i] = values[i] ^ op.values[i];
            result.values[i + 1] = values[i + 1] ^ op.values[i + 1];
        }
        if constexpr (s % 4 == 1) result.values[i] = values[i] ^ op.values[i];''',
         demo='''    L::bit<149, 0> a, b;
    a.value.set(140, true);
    CHECK((a ^ b).value.values[2] == 1ull << 12);''', needs='operands of 129 to 192 bits', breaks='the top word of ^ is lost'),
    dict(id='c03-zero-word', prop='C03', file=N, old='                if (op.values[j] == 0) continue;', new='                if (op.values[j] == 0) break;',
         demo="""    L::bit<149, 0> a, b;
    a.value.values = {3, 1, 0};
    b.value.values = {0, 2, 0};
    auto r = a * b;
    CHECK(r.value.values[1] == 6 && r.value.values[2] == 2);""",
         needs='a right operand with a zero word below a non-zero word', breaks='the partial products of the higher words are dropped'),
    dict(id='c07-nmatch-mixed', prop='C07', file=L, old="""    template <int op_msb, int op_lsb, bool op_signed>
    [[nodiscard]] bool nmatch(const bit<op_msb, op_lsb, op_signed> &op) const {
        return !match(op);""", new="""    template <int op_msb, int op_lsb, bool op_signed>
    [[nodiscard]] bool nmatch(const bit<op_msb, op_lsb, op_signed> &op) const {
        return !xz_mask.any_set() && !match(op);""", demo="""    L::logic<7, 0> a{static_cast<uint8_t>(5)};
    a.xz_mask.value = 4;
    L::bit<7, 0> b{static_cast<uint8_t>(1)};
    CHECK(a.nmatch(b));
    CHECK(!a.match(b));""", needs='nmatch of a 4-state value with x or z bits against a 2-state value', breaks='nmatch is false where match is false too'),
    dict(id='c08-not-x', prop='C08', file=L, old='return xz_mask.any_set() ? x_() : (value.any_set() ? zero_() : one_());',
         new='return xz_mask.any_set() && !(value & ~xz_mask).any_set() ? x_() : (value.any_set() ? zero_() : one_());',
         demo="""    L::logic<7, 0> a{static_cast<uint8_t>(4)};
    a.xz_mask.value = 1;
    CHECK((!a).xz_mask.any_set());""", needs='a value with both x/z bits and known one bits', breaks='logical not is known, while the value itself has unknown bits'),
]
