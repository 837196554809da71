"""C04: integer, bitwise and lane-moving vector instructions."""
from .. import simd
from ..simdcheck import explore

LEVEL = 'exploration'
RULE = ('every integer / bitwise / lane vector instruction: 8-bit lanes get every operand pair (all 65536), wider lanes '
        'every pair of a corner alphabet at rotating lane positions, every lane index and 550 shuffle masks (every lane '
        'position times every source lane), every shift distance 0..2w+1 plus wrapping ones, and all pairs of structured '
        'vectors with a single odd lane; operands are read back. Non-trivial: the result differs from every operand.')
ASSUMPTIONS = ['vectors outside the enumerated set are not executed', 'reference: lane-wise definitions in mc/simd.py']


def jobs(tier):
    big = [o for o in simd.INT_OPS if simd.OPS[o][0] in ('vv', 'vvv', 'vi')]
    rest = [o for o in simd.INT_OPS if o not in big]
    return [('explore', [o, 0, 1]) for o in big + rest]
