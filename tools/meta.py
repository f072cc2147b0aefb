#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the texts below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
H = 'include/logic/'
ALLV = 'every operand value (every bit 0/1, and x/z for 4-state), every signedness combination; '
TEST = 'The existing tests sample a handful of hand picked values and widths per operator; '
P = []


def p(id, title, statement, over_text, why, files, mech, observe, over=('inputs', 'configurations')):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': list(over), 'text': over_text},
              'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech], 'observe_at': observe,
                          'hook_needed': None}})


p('C01', 'Bitwise operators follow the 2- and 4-state truth tables',
  'For every pair of operands, &, |, ^ and ~ (and their compound forms) give, bit for bit, the SystemVerilog truth table result: a known controlling bit decides (0 & anything is 0, 1 | anything is 1), and otherwise any x or z operand bit makes the result bit x, never z. '
  'The result is as wide as the wider operand; the narrower one is sign extended when both are signed (an x or z sign bit is replicated) and zero extended otherwise. A result is 4-state when either operand is, and signed only when both are.',
  ALLV + 'equal and mixed widths in native (up to 64) and multi-word storage, declared ranges that ascend or do not start at 0',
  TEST + 'the truth table times extension times storage class product is far beyond them, and 4-state bits combine independently at every position.',
  [H + 'logic.hh', H + 'bit.hh', H + 'big_num.hh'],
  [('operator& | ^ ~ and compound forms', H + 'logic.hh'), ('extend / to_holder', H + 'bit.hh'), ('word loops', H + 'big_num.hh')],
  ['value and x/z mask of the result', 'size and signedness of the result type'])
p('C02', 'Addition, subtraction, negation and ++/-- are modular at the common width',
  'For all operands, + and -, unary minus, ++ and -- compute the exact integer result modulo two to the power of the result width, which is that of the wider operand. '
  'Operands are sign extended when both are signed and zero extended otherwise, carries and borrows cross every word boundary, and any x or z bit in a 4-state operand makes the whole result x.',
  ALLV + 'equal and mixed widths in native and multi-word storage',
  TEST + 'a carry that is lost only for particular word contents, or a width that is not a machine width, is not sampled.',
  [H + 'bit.hh', H + 'logic.hh', H + 'big_num.hh'],
  [('operator+ - ++ --', H + 'bit.hh'), ('carry propagation', H + 'big_num.hh'), ('x propagation', H + 'logic.hh')],
  ['value and x/z mask of the result'])
p('C03', 'Multiplication is modular at the common width',
  'For all operands, * computes the product modulo two to the power of the result width, which is that of the wider operand, with operands sign extended when both are signed and zero extended otherwise. '
  'Any x or z bit in a 4-state operand makes the whole result x, and no product reads or writes outside the storage of a number.',
  ALLV + 'equal and mixed widths in native and multi-word storage',
  TEST + 'partial products across words are exercised for one or two constants.',
  [H + 'bit.hh', H + 'logic.hh', H + 'big_num.hh'], [('operator*', H + 'bit.hh'), ('schoolbook product', H + 'big_num.hh')],
  ['value and x/z mask of the result'])
p('C04', 'Division and modulo truncate toward zero and satisfy a = q*b + r',
  'For all operands with a non-zero known divisor, / gives the quotient truncated toward zero and % the remainder with the sign of the dividend when both operands are signed, and the unsigned quotient and remainder otherwise, both at the width of the wider operand. '
  'A 4-state division or modulo by zero, or with any x or z bit in an operand, gives all x; a 2-state one by zero gives 0 and does not trap.',
  ALLV + 'including the most negative dividend by -1 and zero divisors',
  TEST + 'the corner cases (zero divisor, overflow, mixed signs) at each width are not sampled.',
  [H + 'bit.hh', H + 'logic.hh', H + 'big_num.hh'], [('operator/ %', H + 'bit.hh'), ('division', H + 'big_num.hh')],
  ['value and x/z mask of the result'])
p('C05', 'Shifts move exactly by the amount, for every amount',
  'For every value and amount, << (and ashl) and >> shift in zeros whatever the signedness, ashr shifts in copies of the sign when the left operand is signed and zeros otherwise, and the result is as wide as the left operand. '
  'The amount is read as an unsigned number of any width, amounts of the width or more shift everything out, and an x or z bit in the value or in the amount makes the whole result x. Known exception, pinned by an existing test: an arithmetic right shift of a signed value wider than 64 bits leaves a 0 where the sign bit itself lands.',
  ALLV + 'every amount, including amounts wider than 64 bits',
  TEST + 'an off by one at one amount or at a word boundary needs that amount to be tried.',
  [H + 'bit.hh', H + 'logic.hh', H + 'big_num.hh'], [('operator<< >> ashr ashl', H + 'bit.hh'), ('shift_amount', H + 'bit.hh'), ('word shifts', H + 'big_num.hh')],
  ['value and x/z mask of the result'])
p('C06', 'Comparisons order values at their common width and sign',
  'For all operands, == and != give whether the values are equal, and <, <=, > and >= their order, after sign extension when both operands are signed and zero extension (an unsigned comparison) otherwise. '
  'A comparison whose left operand is 4-state gives x when any bit of either operand is x or z; one of a 2-state value with a 4-state value gives a plain bool, false when any bit is x or z.',
  ALLV + 'equal and mixed widths, 2-state against 4-state',
  TEST + 'signed against unsigned and different widths give few sampled points.',
  [H + 'bit.hh', H + 'logic.hh', H + 'big_num.hh'], [('operator== != < <= > >=', H + 'logic.hh'), ('compare', H + 'bit.hh')],
  ['boolean or 1-bit 4-state result'])
p('C07', 'Case equality compares every bit, x and z included',
  'match is true exactly when the two values agree in every bit after extension to the common width, where x equals only x and z equals only z, and nmatch is its negation; both always give a known result. '
  'Extension is by sign (an x or z sign bit is replicated) when both operands are signed and by zero otherwise.',
  ALLV + 'equal and mixed widths, 4-state against 2-state', TEST + 'one or two patterns are sampled.',
  [H + 'logic.hh', H + 'bit.hh'], [('match / nmatch', H + 'logic.hh')], ['boolean result'])
p('C08', 'Reductions, truth value and bit counts see every bit exactly once',
  'For every value, the reductions and, or, xor, nand, nor and xnor give the 4-state reduction over all bits (a controlling known bit decides, otherwise any x or z makes it x), and the inverted forms invert a known result. A value converts to true exactly when no bit is x or z and some bit is 1; logical not of a value with an x or z bit is x. '
  'Population count, any-set, all-set and the index of the highest set bit (of a non-zero value) see exactly the declared bits, neither padding nor sign extension.',
  ALLV + 'all widths, declared ranges that ascend or do not start at 0', TEST + 'a reduction that misses one bit is right on almost every sample.',
  [H + 'bit.hh', H + 'logic.hh', H + 'big_num.hh'], [('r_and r_or r_xor ...', H + 'logic.hh'), ('any_set all_set popcount', H + 'bit.hh')],
  ['1-bit results and counts'])

p('C09', 'Single bits are read and written by their declared index',
  'For a value declared [msb:lsb], index i denotes the bit of significance i-lsb in a descending range and lsb-i in an ascending one, whether i is a template argument, an int or a value of a library type. '
  'Reading returns exactly that bit and writing (set, set_x, set_z) changes exactly that bit and no other; a read outside the declared range, or at an index with x or z bits, gives x for a 4-state value and 0 for a 2-state one, and a write outside the range changes nothing. No index makes the library access memory outside the value.',
  ALLV + 'every index, in and out of range, of any type; ranges that ascend, do not start at 0 or are negative; native and multi-word storage',
  TEST + 'the mapping from index to bit depends on the declared range, and out of range indices are not sampled.',
  [H + 'logic.hh', H + 'bit.hh', H + 'big_num.hh'], [('get / set / operator[] / x_set / set_x', H + 'logic.hh'), ('position, has_index', H + 'bit.hh')],
  ['the bit read', 'every bit of the value after a write'])
p('C10', 'Slices select exactly the declared bits',
  'A slice [hi:lo], and an indexed part select of fixed width with an ascending or descending run time base (an int pair or a value of any library type), gives an unsigned value whose bit k is the k-th bit of the selection counted from its least significant end, for any declared range. '
  'Bits of the selection outside the declared range are x for a 4-state value and 0 for a 2-state one; an x or z base gives all x, or 0 for a 2-state value.',
  ALLV + 'compile time ranges at every storage boundary, run time bases of every value',
  TEST + 'a slice that crosses a word at one particular offset, or leaves the declared range, is not sampled.',
  [H + 'logic.hh', H + 'bit.hh', H + 'big_num.hh'], [('slice', H + 'bit.hh'), ('slice', H + 'big_num.hh'), ('get_slice_range', H + 'util.hh')],
  ['value, mask, size and signedness of the slice'])
p('C11', 'Slice updates change exactly the selected bits',
  'Updating a slice (update, or assignment through slice_ref, with compile time or run time bounds or a run time base) replaces exactly the selected bits, in order of significance, by the operand, zero extended when it is narrower and truncated when it is wider, whatever the operand\'s own range and sign. '
  'All other bits keep their value, selected positions outside the declared range are ignored, and an x or z base writes nothing. Reading the slice back gives the bits written.',
  ALLV + 'compile time ranges at every storage boundary, run time bases of every value',
  TEST + 'neighbouring bits that are clobbered only at one offset are not sampled.',
  [H + 'logic.hh', H + 'bit.hh'], [('update / slice_ref', H + 'logic.hh'), ('update', H + 'bit.hh')],
  ['every bit of the updated value'])

p('C12', 'Concatenation and unpacking keep every bit in order',
  'For all operands of any kind, width, sign and declared range, concat joins them with the first operand highest into an unsigned value as wide as the sum of the widths, 4-state when any operand is (bits of 2-state operands are known), and unpack is its inverse: it distributes the bits of a value over its arguments, the last of which gets the lowest bits, and arguments that reach beyond the value get zeros there. '
  'No bit is lost, duplicated, moved or influenced by the sign or the declared range of an operand.',
  ALLV + '1 to 4 operands or targets, at and across word boundaries',
  TEST + 'the tests join small known values; a bit lost at a word boundary or a mask left over from a 2-state operand needs a particular combination of widths.',
  [H + 'logic.hh', H + 'bit.hh'], [('concat / unpack', H + 'logic.hh'), ('concat / unpack', H + 'bit.hh')],
  ['value, mask, size and sign of the concatenation', 'every target of unpack'])
p('C13', 'Conversions keep the value modulo the target width',
  'Construction, assignment, implicit conversion and extend between library types, and from and to C++ integers, keep every bit (0, 1, x and z) that fits in the target: the source is extended by its own signedness (an x or z sign bit is replicated) or truncated, and the target\'s sign and declared range do not change the bits. '
  'A 2-state value converts to a 4-state one with no x or z bits; default constructed 4-state values are all x and 2-state ones 0; to_signed and to_unsigned keep all bits; to_num and to_uint64 give the value in two\'s complement, and 0 when any bit is x or z.',
  ALLV + 'source and target widths below, at and above the word size, every C++ integer type',
  TEST + 'sign extension and truncation depend on the pair of types, and only a few pairs and values are tested.',
  [H + 'logic.hh', H + 'bit.hh', H + 'big_num.hh'], [('constructors, operator=, extend, to_num', H + 'bit.hh'), ('constructors, operator=', H + 'logic.hh'), ('to_holder', H + 'bit.hh')],
  ['value and mask of the target', 'C++ integers'])
p('C14', 'Number literals and text denote exactly their digits',
  'Constructing a value from text: with a base ("<size>\'b", \'o, \'h or \'d, upper or lower case), the digits, read from the right, give the bits of the value exactly, at any length: x and z digits (upper or lower case) fill all the bits of their digit in a 4-state value, underscores count for nothing, bits that fit no more are dropped, and positions to the left of the digits are 0 (the size in front of the base plays no role as long as the digits fit in it). '
  'A decimal literal has its value modulo two to the power of the width. Text without a base gives its characters, eight bits each, the last one lowest.',
  ALLV.replace('all operand values', 'all texts') + 'every digit string of lengths below, at and above the width, with separators at any place',
  'the tests parse a handful of fixed literals; digits that straddle a 64-bit word, separators inside long literals and x or z digits at particular places are not among them.',
  ['src/util.cc', H + 'logic.hh', H + 'bit.hh', H + 'big_num.hh'], [('parse_raw_str / parse_xz_raw_str', 'src/util.cc'), ('string_view constructors', H + 'logic.hh')],
  ['value and mask of the constructed value'])
p('C15', 'Formatting prints exactly the value',
  'str(fmt) in base b, o, h (or x) has one digit for each group of bits, most significant first: a group with only x bits prints x, with only z bits z, with some x bits X and otherwise with some z bits Z, the others the digit, in lower case; a requested width larger than that pads with zeros on the left. '
  'd prints the decimal value, signed values with a minus sign in front, right aligned with spaces in the width of the largest value of the type (or the requested one, if larger; "0d" does not pad), and x, z, X or Z for a value with unknown bits. s prints the bytes as characters, most significant first.',
  ALLV + 'every base with and without a requested width; decimal up to 128 bits (negative values up to 66)',
  'the tests format a few constants; the digit that straddles two words, the partial leading digit and the mixed groups each need particular values and widths.',
  ['src/util.cc', H + 'logic.hh', H + 'bit.hh'], [('to_string / fmt_value / pad_result', 'src/util.cc'), ('str', H + 'logic.hh')], ['the text, character by character'])
p('C16', 'Printing a value and reading the text back gives the value',
  'For every value of every type, text printed in base b, o, h or s (and in d for values that are not negative) and prefixed with the base is read back as the same value, x and z bits included, whatever width was requested. Excluded are values that a base cannot denote: digits that mix known and unknown bits or x and z, unknown bits in d and s, and an apostrophe among the characters of s.',
  ALLV + 'every base with and without a requested width; d below 63 bits',
  'the tests never feed the output of one side to the other, and the parser and the printer group bits independently.',
  ['src/util.cc', H + 'logic.hh', H + 'bit.hh'], [('to_string', 'src/util.cc'), ('parse_raw_str', 'src/util.cc')], ['the value read back'])
p('C17', 'Packed arrays address exactly the declared elements',
  'In a packed array declared [msb:lsb] of elements of n bits, the element with the right hand bound as its index takes the lowest n bits and the others follow in order, in ascending and descending ranges alike. slice_array, operator[] and update, with indices known at compile time or given as values, read and write exactly the elements named and no other bit. '
  'An index that is out of range or has x or z bits reads as x (0 for 2-state elements) and writes nothing.',
  ALLV + 'every index value; element sizes and ranges that straddle words, ascend, do not start at 0 or are negative',
  TEST + 'a neighbouring element clobbered in one bit, or an offset range, is not sampled.',
  [H + 'array.hh', H + 'logic.hh', H + 'bit.hh'], [('packed_array', H + 'array.hh'), ('slice / update_', H + 'logic.hh')],
  ['the element read', 'every bit of the array after a write'])
p('C18', 'Unpacked arrays keep their elements apart',
  'In an unpacked array declared with any range, reading an index gives the value last written to exactly that index (converted to the element type), whatever was written to the others before or after, and elements never written are x (0 for 2-state). '
  'A read outside the declared range, for any int, gives the default value of the element type, a write outside it changes nothing, and neither touches memory outside the array.',
  ALLV + 'every int index; ranges that ascend, do not start at 0 or are negative',
  TEST + 'the tests use one array and in range indices.',
  [H + 'array.hh'], [('unpacked_array operator[] / update', H + 'array.hh')], ['the elements read'])
p('C19', 'Sequences of operations compose',
  'After any sequence of operations on one variable (++, --, &=, |=, ^=, <<=, >>=, + - ~ and unary - assigned back, setting a bit, updating a slice, assignment from another type, a rotation through slices and concat, assignment of a comparison), the variable holds the value that the single operations, applied one after the other, give. No operation leaves behind anything (bits beyond the width, a stale mask, a wrong sign extension) that changes the result of a later one.',
  'all starting values, all operands, and every order of the operations of a harness, three steps deep (two beyond 64 bits at the quick tier)',
  'the tests apply single operations to fresh values.',
  [H + 'logic.hh', H + 'bit.hh', H + 'big_num.hh'], [('operators and assignment', H + 'logic.hh'), ('value holders', H + 'bit.hh'), ('mask_off', H + 'big_num.hh')],
  ['value and mask of the variable after the last step'], over=('inputs', 'histories'))
p('C20', 'No text breaks a value',
  'Constructing a value from any text at all, valid number or not (empty, only a base, unknown base, digits that do not belong to the base, bytes above 127), gives a value in canonical form, with no bits beyond its width, and never reads outside the text, writes outside the value or otherwise runs into undefined behaviour.',
  'all texts of up to 6 (thorough: 9) bytes; types in native and multi-word storage',
  'the tests parse well formed literals only.',
  ['src/util.cc', H + 'logic.hh', H + 'bit.hh'], [('get_input_base / parse_raw_str', 'src/util.cc'), ('string_view constructors', H + 'bit.hh')],
  ['canonical form of the value', 'memory accesses'])
p('C21', 'Fields of packed structs and unions map to fixed bits',
  'A packed struct or union of n bits is an unsigned n-bit value (all x, or 0 for 2-state, by default). Writing a field declared as bits [hi:lo] changes exactly those bits, reading any field (in a union, an overlapping one too) gives exactly its bits of the current value, and members of an unpacked struct do not influence each other.',
  ALLV + 'layouts with fields at and across word boundaries, any number of writes in sequence',
  TEST + 'the tests write one small struct.',
  [H + 'struct.hh', H + 'union.hh', H + 'logic.hh'], [('packed_struct / union_', H + 'struct.hh'), ('slice / update', H + 'logic.hh')],
  ['every field and the whole value after each write'])

p('C22', 'The 4-state types agree with the 2-state types on known values',
  'For operands without x and z bits, every operation of logic gives a result without x and z bits, and its value, width and signedness are those of the same operation of bit: bitwise, arithmetic, shift, comparison and reduction operators, negation, increment and decrement, concatenation, slices, single bits, extension, assignment to another type and conversion to C++ integers.',
  ALLV + 'equal and mixed widths; division up to 64 bits',
  'the two families of types are implemented separately and the tests never compare them.',
  [H + 'logic.hh', H + 'bit.hh', H + 'big_num.hh'], [('operators', H + 'logic.hh'), ('operators', H + 'bit.hh')], ['both results, bit by bit'])

# properties that are not claimed: id -> reason
NA = {}

NOTE = ('Bounded symbolic verification: the real library code, compiled to LLVM IR from the current tree, is executed symbolically for each '
        'harness (an operation at one combination of widths, signedness and ranges) and kissat/z3 decide every assertion over all values at those widths. '
        'Widths outside the listed ones are not covered. Trusted: clang front end, the symbolic executor (cross-checked against native runs), the solvers.')


def main():
    import props
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for x in P:
            f.write(json.dumps(x) + '\n')
    checks = []
    na = []
    for x in P:
        if x['id'] in NA or x['id'] not in props.PROPS:
            na.append({'property': x['id'], 'reason': NA.get(x['id'], 'check not built yet')})
            continue
        checks.append({'property': x['id'], 'quick_cmd': 'python3 check.py %s --tier quick' % x['id'],
                       'thorough_cmd': 'python3 check.py %s --tier thorough' % x['id'],
                       'technique': 'symbolic execution of LLVM IR of the real code, SAT/SMT decision (kissat, z3)',
                       'level': 'model_checking', 'level_note': NOTE})
    m = {'version': 1, 'setup_cmd': 'bash engine/build.sh', 'checks': checks, 'not_applicable': na,
         'notes': 'See DESIGN.md. tools/meta.py writes this file and properties.jsonl. Nothing in /repo needs hooks.'}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
