"""C05: floating point vector instructions."""
from .. import simd
from ..simdcheck import explore

LEVEL = 'exploration'
RULE = ('every f32x4 / f64x2 arithmetic, rounding, comparison, pseudo-min/max, conversion and lane instruction over all '
        'pairs of a corner alphabet of bit patterns at rotating lane positions; NaN results are judged by the canonical / '
        'arithmetic sets the specification allows. Non-trivial: every float-producing evaluation, or result differs '
        'from every operand.')
ASSUMPTIONS = ['bit patterns outside the enumerated alphabet are not executed',
               'f64x2 pairs are split into two half alphabets in the quick tier',
               'reference: exact rational arithmetic, one rounding (mc/ref.py)']


def jobs(tier):
    out = []
    for o in simd.FLOAT_OPS:
        if simd.OPS[o][0] == 'vv':
            out += [('explore', [o, 0, 2]), ('explore', [o, 1, 2])]
        else:
            out.append(('explore', [o, 0, 1]))
    return sorted(out, key=lambda e: e[1][2] != 2)
