from _pre2 import CORE
PROPERTY = 'C37'
FILE = 'pywasm/core.py'
EDITS = [("                    glob.data = self.stack.value.pop()\n                case pywasm.opcode.table_get:",
          "                    glob.data.data[:] = self.stack.value.pop().data\n                case pywasm.opcode.table_get:")]
NEEDS = 'a value read from a global and still in use when the global is written'
BREAKS = 'writing a global overwrites the copies of its old value in locals and on the operand stack'
DEMO = CORE + """
m = wat.Mod()
m.glob(L, 1, wat.i64c(7))
m.func([L], [L, L], locals=[L], body=op('global_get', 0) + op('local_set', 1) + op('global_get', 0) + lget(0) + op('global_set', 0) + lget(1), export='f')
rt, inst = load(m)
assert rt.invocate(inst, 'f', [9]) == [7, 7]
assert rt.invocate(inst, 'f', [11]) == [9, 9]
"""
