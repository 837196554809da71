from _pre2 import CORE
PROPERTY = 'C37'
FILE = 'pywasm/core.py'
EDITS = [("                    b = self.stack.value.pop().into_i64()\n                    a = self.stack.value.pop().into_v128_i64()\n                    a[instr.args[0]] = b\n                    c = ValInst.from_v128_i64(a)\n                    self.stack.value.append(c)\n",
          "                    b = self.stack.value.pop()\n                    a = self.stack.value[-1]\n                    a.data[instr.args[0] * 8:instr.args[0] * 8 + 8] = b.data[:8]\n")]
NEEDS = 'a vector that is kept in a local while a lane of a copy is replaced'
BREAKS = 'i64x2.replace_lane changes the local, global or table the vector came from'
DEMO = CORE + """
V = wat.V128
m = wat.Mod()
m.func([V, L], [V, V], body=lget(0) + lget(1) + op('i64x2_replace_lane') + b'\\x01' + lget(0), export='f')
rt, inst = load(m)
x = bytes(range(16))
got = rt.invocate(inst, 'f', [bytearray(x), -1])
assert [bytes(v) for v in got] == [x[:8] + b'\\xff' * 8, x], got
"""
