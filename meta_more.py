def more(prop,BOUND,TRUST):
    prop('P14','Multiply-add loses nothing of the product',
     'Multiply-add keeps the product at full width before the addend joins it, so its result is the exact x*y+z rounded to nearest-even; the only departure allowed is the documented second rounding (the exact value rounded first to the width of the full product, or of the addend if wider, and then to the result). Specials, signed zeros, underflow and overflow follow the exact value, with no intermediate overflow or underflow of the product.',
     ['inputs','configurations'],'all operand triples x all operand/result width combinations',
     'Tests sample triples of one or two formats and accept neighbours; deep cancellation, a far-below addend and a product outside the range whose sum is inside are sparse.',
     ['fp_flopoco_fma.hpp','fp_flopoco_add_dual_v1.hpp','fp_flopoco_mul_v1.hpp','fp_flopoco_convert.hpp'],[('widened product, widened add, final conversion','fp_flopoco_fma.hpp:fma')],BOUND+TRUST)
    prop('P15','Positive dot products are the exact sum rounded down',
     'The two-term and four-term dot products of positive normal numbers return the exact sum of products rounded toward minus infinity into the operand format. A sum below the smallest normal gives zero, one at or above twice the largest power gives infinity, and the order of the terms does not matter. The bundled reference forms give the same results wherever double arithmetic is wide enough for them, and the bundled exhaustive self-checks find no difference, and both products can be used in one program.',
     ['inputs','configurations'],'all operand tuples of small formats; all alignments of the terms x product alphabet for wide ones',
     'Tests draw random positive operands, where a lost carry out of several small, far-apart terms needs aligned runs of ones and is never met.',
     ['fp_flopoco_dot2_pos_rndd.hpp','fp_flopoco_dot4_pos_rndd.hpp'],[('selection of the largest term, alignment and padding','fp_flopoco_dot4_pos_rndd.hpp:dot4_pos_rndd'),('alignment and renormalisation','fp_flopoco_dot2_pos_rndd.hpp:dot2_pos_rndd')],
     'Every distinct product per term and every alignment for 2-3 fraction bits (four terms) and up to 5 bits (two terms, 7 in thorough); product alphabet with the longest runs of ones and zeros for wider formats; every operand tuple of formats up to 5 bits (two terms) and 2 bits (four terms; 3 bits in thorough) for operation and references. '+TRUST)
    prop('P22','Reference operations are the correctly rounded functions',
     'Each reference operation (add, multiply, divide, power, negate, reciprocal, reciprocal bounds, convert, scale by a constant power of two, square, logarithm, exponential, square root, multiply-add) returns the mathematical result of its operands rounded once to nearest-even into the result format (the reciprocal bounds: rounded toward minus and plus infinity), with range ends to zero or infinity. The form that writes to a destination gives the same number as the form that returns it.',
     ['inputs','configurations'],'all operands x operand/result width combinations',
     'These operations are the oracle of every other test; nothing tests them, so a bug here is invisible or hides another.',
     ['fp_flopoco.hpp'],[('MPFR evaluation in the result precision','fp_flopoco.hpp:ref_add ... ref_fma'),('import with range check','fp_flopoco.hpp:fp_flopoco(mpfr_t,bool)')],BOUND+TRUST+' The transcendental functions are judged against MPFR itself.')
    prop('P16','Fixed-width integers are exact modulo their width',
     'Every fixed-width unsigned integer operation (arithmetic, carry-in, logic, shifts, comparison, select, concatenation, slicing, padding, resizing, constant lookup) gives the mathematical result on non-negative integers reduced to the declared result width, also against plain integers. Text, big-integer and native conversions round-trip, and a construction or extraction whose value does not fit, or binary text without exactly one digit per bit, is refused. Operands are never changed.',
     ['inputs','configurations'],'all operand values x widths x positions of slices, shifts and concatenation cuts',
     'Tests use random values at a few widths; word-boundary positions, all-ones carries and width-one and unequal-width combinations of cuts are rarely met.',
     ['fw_uint.hpp','fw_uint_on_masked_uint.hpp'],[('masked native storage','fw_uint_on_masked_uint.hpp:fw_uint'),('slicing and padding primitives','fw_uint.hpp:get_bits, take_msbs, concat, resize')],BOUND+TRUST)
    prop('P18','Heaps keep their exact sum',
     'The sum a bit heap or row heap represents is preserved by every operation on it: building from integers or a tiled product, merging, padding, shifting, adding rows and collapsing give the exact sum, product or shifted value, and compression never changes it modulo the width of the heap. Compression always leaves at most two bits per column (two rows), collapse returns the sum modulo the width, and conversion to a big integer reports the same number. Operands are never changed.',
     ['histories','inputs','configurations'],'all bit contents of heap shapes x all sequences of heap operations to a depth x all tilings',
     'The heap tests only print, they can never fail; the tiled multiplier is included by no test. Carries through uneven columns need particular shapes and contents.',
     ['bit_heap.hpp','bit_heap_mul.hpp','row_heap.hpp'],[('merge, pad, shift','bit_heap.hpp:merge_bit_heaps'),('column and row compression','bit_heap.hpp:compress, row_heap.hpp:compress'),('tiling','bit_heap_mul.hpp:bit_heap_mul')],BOUND+TRUST+' Bit heap shapes of at most 16 bits are filled in every way; taller and wider ones with runs, single and double bits, and periodic fillings.')
    prop('P19','Software floats are bit-exact IEEE arithmetic',
     'For every pair of binary32 or binary64 patterns, the software add, subtract, multiply and divide return the IEEE 754 result rounded to nearest-even, bit for bit, including subnormal operands and results, signed zeros, infinities, overflow and gradual underflow; an operation with a NaN operand or no defined result returns a NaN. Comparison operators agree with the IEEE comparisons of the same patterns.',
     ['inputs','configurations'],'all pairs of patterns of both widths x operation',
     'Tests compare against MPFR on random normals and ignore the failure flag; subnormals, halfway cases at the underflow limit and remainder corrections of the divider are not reached.',
     ['policy_softfloat.hpp','softfloat/softfloat_inline.hpp','softfloat/src/f64_mul.c','softfloat/src/s_addMagsF32.c','softfloat/src/s_subMagsF32.c','softfloat/src/f32_div.c','softfloat/src/f64_div.c'],[('effective addition and subtraction','softfloat/src/s_addMagsF32.c, s_subMagsF32.c'),('product, subnormal normalisation and rounding','softfloat/src/f32_mul.c, s_normSubnormalF32Sig.c, s_roundPackToF32.c'),('quotient estimate and correction','softfloat/src/f32_div.c, s_approxRecip32_1.c')],BOUND+' Judged against the IEEE hardware arithmetic of the host, subject to the integer reference of P10 agreeing on its patterns. All exponent pairs x a fraction alphabet, dense low fractions around every boundary; thorough adds all 2^32 operands of binary32 against fixed partners.')
    prop('P20','Policies agree with their reference operations',
     'For every arithmetic policy (internal format, IEEE on internal format, native and software single and double), each operator, comparison and compound assignment returns exactly what the reference operation of the same policy gives for the same operands, and importing and exporting a value is exact or refused. This holds along every history of operations on shared variables, operands are unchanged, and no call leaves the exponent range of the arbitrary-precision library changed.',
     ['inputs','histories','configurations'],'all operand pairs x policies; all operation sequences to a depth over a few variables',
     'Existing policy tests discard the verdict, so a policy whose operators and reference disagree passes.',
     ['policy_native.hpp','policy_softfloat.hpp','policy_flopoco.hpp','policy_ieee_on_flopoco.hpp','policy_test.hpp'],[('reference operations within the format exponent range','policy_native.hpp:ref_add, ref_mul, ref_div'),('wrapped operators','policy_flopoco.hpp:fp_flopoco_wrapper'),('decode, operate, encode','policy_ieee_on_flopoco.hpp')],BOUND+' Native imports of inexact subnormal values are not claimed. '+TRUST)
    prop('P21','The policy test reports every wrong operation and nothing else',
     'The policy test succeeds on every policy whose operators, comparisons and reference operations are right, and fails on a policy that gives one single wrong answer (zeros of either sign count as the same number), whichever operation it is in, whichever input pair it strikes and whatever the wrong answer is.',
     ['fault_sequences','inputs'],'all single faults: operation x occurrence (input pair) x kind of wrong result',
     'The test helper is the judge of all other policy tests; nothing tests the judge, so a check it silently skips is invisible.',
     ['policy_test.hpp'],[('operator against reference','policy_test.hpp:policy_test::checkOperator'),('collection of verdicts','policy_test.hpp:policy_test::test')],'Fault injection through a wrapping policy: every row of the input matrix x operation (quick: one column per row, kinds rotated; thorough: six columns), every fault-free policy. Single faults only.')
    prop('P23','Compile-time machinery computes the stated sequences',
     'Compile-time vectors behave like arrays under every sequence of creation, rotation, write, swap, iteration and reduction, and their list of distinct values has each value once, in order. Skipping a generator by any positive or negative distance equals that many single steps, shuffles are the permutations the generator dictates, the look-up-table generator xors exactly the stated input bits, spread arguments arrive in order, and test input lists contain every promised special and boundary value.',
     ['histories','programs','inputs'],'all instantiations of a bounded size: sequences of vector operations, skip distances, seeds, table shapes',
     'The only tests print; the prime-modulus generator is included by none, and no test compares a skip with the steps it stands for.',
     ['ct/ct_vec.hpp','ct/ct_vec_algorithms.hpp','ct/ct_vec_create.hpp','ct/ct_vec_unique.hpp','ct/ct_vec_permute.hpp','ct/ct_rng_lcg_mod_2y32.hpp','ct/ct_rng_lcg_mod_p.hpp','lut_opt.hpp','function_utils.hpp','make_input.hpp'],[('indexed read, write and swap','ct/ct_vec.hpp'),('skip by repeated squaring','ct/ct_rng_lcg_mod_2y32.hpp, ct/ct_rng_lcg_mod_p.hpp'),('taps and output shuffle','lut_opt.hpp:lut_opt'),('forced special values','make_input.hpp')],'Each point is one instantiation of the templates, checked against a run-time model: vectors up to 33 elements, all operation sequences to depth 2-4 on 1-5 elements, all small vectors of up to 5 values, skips -70..70 and 2^k+-1 up to 2^31, several seeds.')
    prop('P17','Compile-time bounds, shifts and fixed-point comparisons are exact',
     'The compile-time maximum and minimum of two or four 64-bit values, and arithmetic right shift by a constant, give the mathematical answer. A checked left shift gives the exact product where it fits in 64 bits and does not compile otherwise. The order of two constants v*2^e, and all five predicates, follow their exact values wherever the aligned constants fit.',
     ['programs'],'all instantiations over a list of boundary values x shift distances x exponent pairs',
     'No test includes these helpers; a wrong answer is a constant folded into the program and a missing diagnostic shows only in a program that should have been refused.',
     ['include/thls/core/constfunc_helpers.hpp','include/thls/core/base_ops.hpp'],[('checked shift and fixed-point order','include/thls/core/constfunc_helpers.hpp:ctCheckedShiftLeft, ctFixCompare'),('constant right shift','include/thls/core/base_ops.hpp:shift_right_const')],
     'Every point is one instantiation: all pairs of 23 non-negative (19 mixed-sign) boundary values x 12 (quick) or 37 exponent pairs, all shift distances; programs that must not compile are each compiled and must be refused. Negative values only from C++20.')
    prop('P24','Random operands are of enabled classes and every pattern is reachable',
     'A random fixed-width integer is made of distinct, independent bits of the generator, so that every pattern is equally likely for uniform input. The random operand source draws only values of classes that are not disabled, for every sequence of generator outputs and every order and set of disabling, and reaches every enabled class and every exponent and fraction pattern of enabled normals.',
     ['inputs','histories','configurations'],'all sets of disabled classes x all generator scripts over an alphabet; all single and paired generator bits x widths',
     'All random tests draw from these sources; nothing tests the sources, so a class or bit that is never drawn silently empties every test built on them.',
     ['fp_flopoco.hpp','fw_uint.hpp'],[('assembly of words into a wide integer','fw_uint.hpp:random_fw_uint, randomise'),('class choice by cumulative weight','fp_flopoco.hpp:fp_flopoco_random_test_source')],
     'Linearity over all pairs of generator bits plus full rank decides uniformity for widths 1..40 and word-boundary widths to 127 (all widths in thorough); scripts of 4-5 words over 9 boundary words, and constant streams over a grid of 12288 words, for all 127 proper subsets of disabled classes.')
    prop('P25','Results depend on the operands alone, whatever was called before',
     'Every operation (arithmetic, reference operation, comparison, conversion, heap, integer or policy call) returns what it returns as the first call of a fresh program, after every sequence of earlier calls of the same or other operations and formats. No call changes its operands or leaves settings behind (exponent range, precision, rounding) that alter a later result.',
     ['histories'],'all sequences of calls, of every length, over an alphabet of calls (closed search over the reachable hidden states)',
     'Each test makes one kind of call in one order and compares it at once; a result remembered from, or a setting changed by, an earlier different call shows only in particular sequences.',
     ['fp_flopoco_primitives.hpp','fp_flopoco_inv_nr.hpp','fp_flopoco.hpp','policy_native.hpp','bit_heap_mul.hpp','fw_uint_on_masked_uint.hpp','softfloat/softfloat_inline.hpp'],[('operations take constant operands and return by value','fp_flopoco_primitives.hpp'),('tables built on first use','fp_flopoco_inv_nr.hpp:inv_frac_starter_table'),('exponent range narrowed and restored','policy_native.hpp')],
     'A state is the content of all static and thread-local storage of the program plus the MPFR and floating-point-unit settings; storage reached only through pointers kept inside such state is seen through the results alone. Alphabets: every pair of codes of small formats, boundary pairs of wide ones, and mixed alphabets of up to 540 calls. When a tree has more than 200 hidden states the search is cut and says so.')
    prop('P26','Results do not depend on the compiler, its options or undefined behaviour',
     'For operands the library accepts, no operation (arithmetic, adders and dividers, references, comparison, conversion, text, integers, heaps, policies, random sources) runs into undefined behaviour: no overflow or shift beyond its type, no access outside an object, no use of a value never set. Each gives the same, correct result from different compilers, at every optimisation level, and with assertions on or off.',
     ['configurations','inputs'],'all builds out of a set (gcc and clang, -O0 to -O3, C++17 and C++20, assertions on and off, signed and unsigned char, sanitised, unset variables filled with zeros or a pattern) x the explored operands of every operation',
     'The tests run in one build. Undefined behaviour, work done inside an assertion, or a variable left unset on one path gives right answers there and wrong ones in the build a user happens to choose.',
     ['fw_uint_on_masked_uint.hpp','fw_uint.hpp','fp_flopoco.hpp','fp_ieee.hpp','fp_flopoco_primitives.hpp','fp_flopoco_add_single_v3.hpp','fp_flopoco_dot2_pos_rndd.hpp','fp_flopoco_dot4_pos_rndd.hpp','policy_softfloat.hpp','bit_heap.hpp'],
     [('integers of any width on machine words','fw_uint_on_masked_uint.hpp'),('count of leading zeros','fp_flopoco_add_single_v3.hpp:clz'),('exactness assertions around reference arithmetic','fp_flopoco.hpp, fp_flopoco_dot2_pos_rndd.hpp')],
     'Four builds of the same reduced spaces: gcc -O1 with undefined-behaviour and address sanitizers trapping; gcc -O0, unset variables filled with a pattern, unsigned char; gcc -O3 -DNDEBUG C++20, unset variables zero; clang -O2 with pattern filling. Every result is compared with the exact reference in every build. Uninitialised reads are seen only if they change a result. Integer and heap spaces that observe refusals by assertion are left out of the NDEBUG build.')
    prop('P27','Calls give back the memory they take',
     'Every operation that uses temporary memory (reference operations, imports and exports through MPFR, text and integer conversions, policies and their self-test, input generation, heaps) has released it when it returns or throws: making the same call again and again does not make the memory in use grow, whatever the operands and whether they are accepted or refused.',
     ['inputs','histories'],'all calls of an alphabet of operations x boundary operands, accepted and refused, each repeated',
     'Tests look at results; a temporary not freed on one path, such as the refusal of an inexact import, is invisible until a long run exhausts memory.',
     ['fp_flopoco.hpp','fp_ieee.hpp','policy_native.hpp','policy_test.hpp','policy_flopoco.hpp','fp_flopoco_dot2_pos_rndd.hpp','fw_uint_on_masked_uint.hpp','bit_heap.hpp','make_input.hpp'],
     [('temporaries of the reference operations','fp_flopoco.hpp:ref_inv and others'),('refusal of an inexact import','policy_native.hpp:from_mpfr')],
     'About 13,000 calls: all operand pairs of a boundary alphabet of <5,4>, <8,23>, <11,52> for every operation, imports at matching and non-matching precisions in and beyond the range, refused texts. A loss is reported when the bytes handed out grow after each of 16 and again each of 64 consecutive calls; what first calls keep is not counted.')
