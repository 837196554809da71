from _pre2 import CORE
PROPERTY = 'C12'
FILE = 'pywasm/core.py'
EDITS = [("                    assert self.store.glob[b.data].mut == a.desc.mut\n", "                    assert self.store.glob[b.data].mut >= a.desc.mut\n")]
NEEDS = 'a mutable global given for an immutable import'
BREAKS = 'a mutable global is accepted where a constant is imported'
DEMO = CORE + '''
rt = pywasm.core.Runtime()
rt.imports['e'] = {'g': rt.allocate_global(pywasm.core.GlobalType(pywasm.core.ValType.i32(), 1), pywasm.core.ValInst.from_i32(7))}
m = wat.Mod()
m.import_global('e', 'g', I, 0)
assert trap(load, m, rt) == 'trap'
m = wat.Mod()
m.import_global('e', 'g', I, 1)
load(m, rt)
'''
