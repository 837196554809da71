from _pre2 import CORE
PROPERTY = 'C07'
FILE = 'pywasm/core.py'
EDITS = [("                    assert self.store.func[addr].type == type\n",
          "                    assert self.store.func[addr].type.args == type.args\n                    assert len(self.store.func[addr].type.rets) == len(type.rets)\n")]
NEEDS = 'an indirect call whose expected result type differs from that of the function'
BREAKS = 'call_indirect does not compare result types'
DEMO = CORE + '''
m = wat.Mod()
t = m.type([], [I])
m.table(wat.FUNCREF, 1)
f = m.func([], [L], body=wat.i64c(1 << 40))
m.elem_active(i32c(0), [f])
m.func([], [I], body=i32c(0) + op('call_indirect', wat.u(t), 0) + op('drop') + i32c(3), export='f')
rt, inst = load(m)
assert trap(rt.invocate, inst, 'f', []) == 'trap'
'''
