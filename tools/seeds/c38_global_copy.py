from _pre2 import CORE
PROPERTY = 'C38'
FILE = 'pywasm/core.py'
EDITS = [("        addr = inst.data\n        return self.machine.store.glob[addr]\n",
          "        addr = inst.data\n        glob = self.machine.store.glob[addr]\n        return GlobalInst(ValInst(glob.data.type, glob.data.data), glob.mut)\n")]
NEEDS = 'an embedder that assigns to an exported global, or looks again at one it asked for earlier'
BREAKS = 'exported_global returns a separate object: assignments by the host are lost and changes by the guest are not seen'
DEMO = CORE + '''
m = wat.Mod()
m.glob(I, 1, i32c(5), export='g')
m.func([], [I], body=op('global_get', 0), export='get')
m.func([], [], body=i32c(9) + op('global_set', 0), export='set')
rt, a = load(m)
g = rt.exported_global(a, 'g')
assert g.data.into_i32() == 5
rt.invocate(a, 'set', [])
assert g.data.into_i32() == 9
g.data = pywasm.core.ValInst.from_i32(-3)
assert rt.invocate(a, 'get', []) == [-3]
'''
