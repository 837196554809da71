from _pre2 import CORE
PROPERTY = 'C06'
FILE = 'pywasm/core.py'
EDITS = [("        addr = self.stack.value.pop().into_u32()\n        addr = addr + offset\n        assert addr + size <= len(mems.data)\n        return mems.data[addr:addr+size]\n",
          "        addr = self.stack.value.pop().into_u32()\n        addr = (addr + offset) & 0xffffffff\n        assert addr + size <= len(mems.data)\n        return mems.data[addr:addr+size]\n")]
NEEDS = 'a load whose address and offset together pass four gibibytes'
BREAKS = 'the effective address of a load wraps around'
DEMO = CORE + '''
m = wat.Mod()
m.mem(1)
m.func([I], [I], body=lget(0) + op('i32_load', wat.u(0), wat.u(8)), export='f')
rt, inst = load(m)
assert rt.invocate(inst, 'f', [0]) == [0]
assert trap(rt.invocate, inst, 'f', [-4]) == 'trap'
'''
