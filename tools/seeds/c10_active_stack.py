from _pre2 import CORE
PROPERTY = 'C10'
FILE = 'pywasm/core.py'
EDITS = [("                    assert d + n <= len(mems.data)\n                    mems.data[d:d+n] = mems.data[s:s+n]\n",
          "                    mems.data[d:d+n] = mems.data[s:s+n]\n                    assert len(mems.data) == mems.size * 65536\n")]
NEEDS = 'a memory.copy whose destination is out of bounds, and a host that goes on after the trap'
BREAKS = 'a memory.copy that traps has grown the memory by a few bytes: later accesses behind the end succeed'
DEMO = CORE + '''
m = wat.Mod()
m.mem(1)
m.func([], [], body=i32c(65530) + i32c(0) + i32c(16) + op('memory_copy', 0, 0), export='f')
m.func([], [I], body=i32c(65534) + op('i32_load', 0, 0), export='g')
rt, inst = load(m)
assert trap(rt.invocate, inst, 'f', []) == 'trap'
assert trap(rt.invocate, inst, 'g', []) == 'trap'
'''
