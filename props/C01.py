"""C01: integer vectors (int2/3/4, uint2/3/4) are component-wise."""
META = dict(
 title='Integer vector operations act independently and exactly per component',
 statement='For every operator, comparison, selection, min/max/clamp and boolean reduction of the 2-, 3- and 4-component signed and unsigned integer '
   'vectors (vector-vector, vector-scalar, scalar-vector and compound-assignment forms), each result component equals the corresponding 32-bit '
   'machine operation on the matching components of the operands, compound forms update and return their left operand, and comparison masks are all-ones or zero.',
 quant='every 32-bit value of every component and scalar (shift counts 0..31, division operands for which C++ defines the result)',
 why='the unit tests compute a few dozen fixed vectors; a wrong lane, sign or operand order shows only for particular component values or overloads',
 files=['include/math/vector/int.hpp', 'include/math/vector/uint.hpp'],
 mech=[('componentwise operators and free functions', 'include/math/vector/int.hpp, uint.hpp')],
 note='Bit-precise SMT over all inputs of every overload, on SSE2 and AVX2 builds; trusts clang IR and the symbolic executor (cross-checked against the g++ build on every run).')
EXPLAIN = 'Scalar integer vectors: every operator / free function result component is compared with the 32-bit machine operation on the matching components.'
ASSUME = ['division operands: divisor != 0 and not INT_MIN/-1; shift counts 0..31 (undefined in C++ otherwise); signed overflow wraps as on the compiled target']
BOUNDS = ['all 2^32 values of every component; no loops']

from intvec import int_vec
def harnesses(tier):
    hs = []
    for sg in (0, 1):
        for n in (2, 3, 4):
            hs += int_vec(('int' if sg else 'uint') + str(n), 'int32' if sg else 'uint32', n, sg, f'{"I" if sg else "U"}{n}', f'U{n}', False, ['sse2', 'haswell'])
    return hs
