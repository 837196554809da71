from _pre2 import CORE
PROPERTY = 'C07'
FILE = 'pywasm/core.py'
EDITS = [("            if e.kind & 0x03 != 0x03:\n                continue\n", "            if e.kind != 0x03:\n                continue\n")]
NEEDS = 'a declarative segment of expressions, used by table.init at run time'
BREAKS = 'a declarative segment with expressions is not dropped'
DEMO = CORE + '''
m = wat.Mod()
m.table(wat.FUNCREF, 2)
f = m.func([], [])
m.elem(b'\\x07\\x70\\x01' + op('ref_func', wat.u(f)) + op('end'))
m.func([], [], body=i32c(0) + i32c(0) + i32c(1) + op('table_init', 0, 0), export='f')
rt, inst = load(m)
assert trap(rt.invocate, inst, 'f', []) == 'trap'
'''
