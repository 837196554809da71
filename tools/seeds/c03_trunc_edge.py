from _pre2 import CORE
PROPERTY = 'C03'
FILE = 'pywasm/core.py'
EDITS = [("                case pywasm.opcode.i32_trunc_f64_s:\n                    a = self.stack.value.pop().into_f64()\n                    b = int(a)\n",
          "                case pywasm.opcode.i32_trunc_f64_s:\n                    a = self.stack.value.pop().into_f64()\n                    b = int(a)\n                    assert a >= pywasm.arith.i32.min\n")]
NEEDS = 'a number between -2147483649 and -2147483648'
BREAKS = 'i32.trunc_f64_s traps on numbers that truncate to the smallest integer'
DEMO = CORE + '''
m = wat.Mod()
m.func([wat.F64], [I], body=lget(0) + op('i32_trunc_f64_s'), export='f')
rt, inst = load(m)
assert rt.invocate(inst, 'f', [-2147483648.5]) == [-2147483648]
assert trap(rt.invocate, inst, 'f', [-2147483649.0]) == 'trap'
'''
