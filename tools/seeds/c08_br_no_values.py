from _pre2 import CORE
PROPERTY = 'C08'
FILE = 'pywasm/core.py'
EDITS = [("        self.stack.value = self.stack.value[:label.value]\n        self.stack.value.extend(rets)\n\n    def evaluate_bype",
          "        if label.arity:\n            self.stack.value = self.stack.value[:label.value]\n            self.stack.value.extend(rets)\n\n    def evaluate_bype")]
NEEDS = 'a branch to a label without values while operands are left above it'
BREAKS = 'a branch that carries no values leaves surplus operands on the stack'
DEMO = CORE + '''
m = wat.Mod()
m.func([], [I], body=i32c(1) + op('block', 0x40) + i32c(2) + op('br', 0) + op('end') + i32c(3) + op('i32_add'), export='f')
rt, inst = load(m)
assert rt.invocate(inst, 'f', []) == [4]
'''
