from _pre2 import CORE
PROPERTY = 'C14'
FILE = 'pywasm/core.py'
EDITS = [("    def into_v128(self) -> bytearray:\n        return self.data[:16].copy()\n", "    def into_v128(self) -> bytearray:\n        return self.data\n")]
NEEDS = 'an embedder that changes a vector it got as a result or as an argument of a host function'
BREAKS = 'a vector handed to the host shares its bytes with the value inside the machine'
DEMO = CORE + '''
m = wat.Mod()
m.glob(wat.V128, 1, wat.v128c(bytes(range(16))))
m.func([], [wat.V128], body=op('global_get', 0), export='f')
rt, inst = load(m)
a = rt.invocate(inst, 'f', [])[0]
a[0] = 99
assert bytes(rt.invocate(inst, 'f', [])[0]) == bytes(range(16))
'''
