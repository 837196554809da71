from _pre2 import CORE
PROPERTY = 'C08'
FILE = 'pywasm/core.py'
EDITS = [("                        len(bype.args),\n                        len(self.stack.frame),\n                        len(self.stack.value) - len(bype.args),\n                        0,\n",
          "                        len(bype.rets),\n                        len(self.stack.frame),\n                        len(self.stack.value) - len(bype.args),\n                        0,\n")]
NEEDS = 'a branch back to a loop that takes a different number of values than it leaves'
BREAKS = 'a branch to a loop carries as many values as the loop returns instead of as many as it takes'
DEMO = CORE + '''
m = wat.Mod()
t = m.type([I], [])
# loop (param i32): counts the global up until the parameter is 0
m.glob(I, 1, i32c(0), export='g')
m.func([I], [], body=lget(0) + op('loop', wat.u(t)) + wat.lset(0) + op('global_get', 0) + i32c(1) + op('i32_add') + op('global_set', 0) +
       lget(0) + i32c(1) + op('i32_sub') + wat.ltee(0) + lget(0) + op('br_if', 0) + op('drop') + op('end'), export='f')
rt, inst = load(m)
rt.invocate(inst, 'f', [5])
assert rt.exported_global(inst, 'g').data.into_i32() == 5
'''
