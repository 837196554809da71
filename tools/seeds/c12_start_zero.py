from _pre2 import CORE
PROPERTY = 'C12'
FILE = 'pywasm/core.py'
EDITS = [("        if module.star >= 0:\n", "        if module.star > 0:\n")]
NEEDS = 'a module whose start function has index 0'
BREAKS = 'the start function with index 0 does not run'
DEMO = CORE + """
m = wat.Mod()
m.mem(1, 1, export='m')
m.func([], [], body=i32c(5) + i32c(6) + op('i32_store', b'\\2\\0'))
m.start(0)
rt, inst = load(m)
assert bytes(rt.exported_memory(inst, 'm').get(5, 1)) == b'\\x06'
"""
