from _pre2 import CORE
PROPERTY = 'C05'
FILE = 'pywasm/core.py'
EDITS = [("                    a = self.stack.value.pop().into_v128_u32()[:2]\n                    b = ValInst.from_v128_f64([float(e) for e in a])\n",
          "                    a = self.stack.value.pop().into_v128_i32()[:2]\n                    b = ValInst.from_v128_f64([float(e & 0xffffffff) if e > -0x80000000 else float(e) for e in a])\n")]
NEEDS = 'a lane that is exactly 0x80000000'
BREAKS = 'f64x2.convert_low_i32x4_u makes 0x80000000 negative'
DEMO = CORE + '''
m = wat.Mod()
m.func([wat.V128], [wat.V128], body=lget(0) + op('f64x2_convert_low_i32x4_u'), export='f')
rt, inst = load(m)
import struct
a = bytearray(struct.pack('<4I', 0x80000000, 1, 2, 3))
assert bytes(rt.invocate(inst, 'f', [a])[0]) == struct.pack('<2d', 2.0 ** 31, 1.0)
'''
