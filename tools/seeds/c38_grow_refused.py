from _pre2 import CORE
PROPERTY = 'C38'
FILE = 'pywasm/core.py'
EDITS = [("        if self.type.limits.m is not None:\n            assert self.size + n <= self.type.limits.m\n        assert self.size + n <= 65536\n        self.data.extend(bytearray(n * 64 * 1024))\n        self.size += n\n",
          "        self.size += n\n        if self.type.limits.m is not None:\n            assert self.size <= self.type.limits.m\n        assert self.size <= 65536\n        self.data.extend(bytearray(n * 64 * 1024))\n")]
NEEDS = 'an embedder whose request to grow a memory is refused, and a guest which uses the memory afterwards'
BREAKS = 'a refused growth by the host leaves the size changed'
DEMO = CORE + '''
m = wat.Mod()
m.mem(1, 2, export='m')
m.func([], [I], body=op('memory_size', 0), export='size')
rt, a = load(m)
mem = rt.exported_memory(a, 'm')
try:
    mem.grow(5)
    assert False, 'not refused'
except AssertionError as e:
    assert 'not refused' not in str(e)
assert rt.invocate(a, 'size', []) == [1]
mem.grow(1)
assert rt.invocate(a, 'size', []) == [2]
'''
