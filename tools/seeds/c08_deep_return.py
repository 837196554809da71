from _pre2 import CORE
PROPERTY = 'C08'
FILE = 'pywasm/core.py'
EDITS = [("                    self.stack.label = self.stack.label[:frame.label]\n", "                    self.stack.label = self.stack.label[:max(frame.label, len(self.stack.label) - 24)]\n")]
NEEDS = 'a return from inside more than 23 blocks of a function that was called from inside a block'
BREAKS = 'labels of the returned function stay, so that later branches of the caller go astray'
DEMO = CORE + """
m = wat.Mod()
f = m.func([], [I], body=op('block', b'\\x40') * 40 + i32c(4) + op('return') + op("end") * 40 + i32c(5))
m.func([I], [I], body=op('block', b'\\x40') + wat.call(f) + lget(0) + op('i32_eq') + op('br_if', 0) + i32c(1) + op('return') + op('end') + i32c(2), export='g')
rt, inst = load(m)
assert trap(rt.invocate, inst, 'g', [4]) == [2]
assert trap(rt.invocate, inst, 'g', [7]) == [1]
"""
