from _pre2 import CORE
PROPERTY = 'C06'
FILE = 'pywasm/core.py'
EDITS = [("                        mems.data[d+i] = s\n", "                        mems.data[d+(i & 0xffff)] = s\n")]
NEEDS = 'memory.fill of more than 65536 bytes'
BREAKS = 'the rest of a fill beyond 64 KiB is not written'
DEMO = CORE + """
m = wat.Mod()
m.mem(2, 2, export='m')
m.func([I, I, I], [], body=lget(0) + lget(1) + lget(2) + op('memory_fill', b'\\0'), export='f')
rt, inst = load(m)
rt.invocate(inst, 'f', [10, 5, 65600])
mem = rt.exported_memory(inst, 'm')
assert bytes(mem.get(0, 131072)) == bytes(10) + b'\\x05' * 65600 + bytes(131072 - 65610)
"""
