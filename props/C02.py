"""C02: SIMD integer vectors u32x4 / i32x4."""
META = dict(
 title='SIMD integer vectors give the same result as four independent scalars',
 statement='For the 4-lane SIMD signed and unsigned integer vectors, every operator (vector-vector, vector-scalar, scalar-vector, compound), comparison, '
   'equality test, select, bit-clear, min/max/clamp, horizontal min/max (over 4 or 3 lanes) and boolean-mask reduction equals lane by lane what 32-bit scalar arithmetic of '
   'that signedness gives, in particular for unsigned values of 2^31 and above. Comparison masks are all-ones or zero per lane.',
 quant='every 32-bit value of every lane and scalar (shift counts 0..31; division operands for which C++ defines the result), on SSE2, SSE4.1 and AVX2 code paths',
 over=['inputs', 'configurations'],
 why='the tests compare a handful of small positive vectors; lane mix-ups, signedness errors and instruction-set specific branches need particular lane values and build flags',
 files=['include/math/simd/vector/uint.hpp', 'include/math/simd/vector/int.hpp'],
 mech=[('SSE/AVX intrinsics per operation and instruction-set #if branches', 'include/math/simd/vector/uint.hpp, int.hpp')],
 note='Bit-precise SMT over all inputs on three instruction-set configurations; trusts clang IR of the intrinsics and the executor (cross-checked against g++ builds).')
EXPLAIN = 'SIMD integer vectors: each lane of each operation is compared with the scalar 32-bit operation.'
ASSUME = ['division operands: divisor != 0 and not INT_MIN/-1; shift counts 0..31', 'mask reductions take masks whose lanes are all-ones or zero']
ALT = {'quick': ('scalar',), 'thorough': ('scalar', 'neon')}
BOUNDS = ['all 2^32 values of every lane; no loops']
from intvec import int_vec
def harnesses(tier):
    C = ['sse2', 'sse41', 'haswell']
    return int_vec('u32x4', 'uint32', 4, 0, 'SU4', 'SU4', True, C) + int_vec('i32x4', 'int32', 4, 1, 'SI4', 'SU4', True, C)
