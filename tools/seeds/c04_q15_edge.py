from _pre2 import CORE
PROPERTY = 'C04'
FILE = 'pywasm/core.py'
EDITS = [("                    c = [pywasm.arith.i16.sat((a[i] * b[i] + 0x4000) >> 15) for i in range(8)]\n",
          "                    c = [pywasm.arith.i16.fit((a[i] * b[i] + 0x4000) >> 15) for i in range(8)]\n")]
NEEDS = 'both lanes -32768'
BREAKS = 'i16x8.q15mulr_sat_s wraps instead of saturating'
DEMO = CORE + '''
import struct
m = wat.Mod()
m.func([wat.V128] * 2, [wat.V128], body=lget(0) + lget(1) + op('i16x8_q15mulr_sat_s'), export='f')
rt, inst = load(m)
a = bytearray(struct.pack('<8h', -32768, 1, 2, 3, -32768, 5, 6, 7))
assert bytes(rt.invocate(inst, 'f', [a, a])[0])[:2] == struct.pack('<h', 32767)
'''
