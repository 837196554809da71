from _pre2 import CORE
PROPERTY = 'C09'
FILE = 'pywasm/core.py'
EDITS = [("                for e in func.code.locals:\n                    locals.data.extend([ValInst.zero(e.type) for _ in range(e.n)])\n                self.stack.frame.append(Frame(\n",
          "                for e in func.code.locals[:64]:\n                    locals.data.extend([ValInst.zero(e.type) for _ in range(e.n)])\n                for e in func.code.locals[64:]:\n                    locals.data.extend([ValInst.zero(e.type)])\n                self.stack.frame.append(Frame(\n")]
NEEDS = 'a called function with more than 64 groups of locals'
BREAKS = 'later locals of a called function are missing'
DEMO = CORE + '''
m = wat.Mod()
loc = []
for i in range(70):
    loc.append((2, [I, L][i & 1]))
g = m.func([], [I], locals=loc, body=lget(138) + op('drop') + lget(139) + op('drop') + i32c(1))
m.func([], [I], body=wat.call(g), export='f')
rt, inst = load(m)
assert rt.invocate(inst, 'f', []) == [1]
'''
