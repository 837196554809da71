from _pre2 import CORE
PROPERTY = 'C12'
FILE = 'pywasm/core.py'
EDITS = [("        return Limits(self.size, self.type.limits.m).suit(l)\n\n\nclass TableType", "        return Limits(self.type.limits.n, self.type.limits.m).suit(l)\n\n\nclass TableType")]
NEEDS = 'a memory that was grown, then imported with a minimum above its declared one'
BREAKS = 'importing a memory compares the declared minimum instead of the size'
DEMO = CORE + '''
rt = pywasm.core.Runtime()
m = wat.Mod()
m.mem(1, 4, export='m')
m.func([], [I], body=i32c(1) + op('memory_grow', 0), export='grow')
rt, a = load(m, rt)
assert rt.invocate(a, 'grow', []) == [1]
rt.imports['e'] = {'m': [e.data for e in a.exps if e.name == 'm'][0]}
m = wat.Mod()
m.import_mem('e', 'm', 2, 4)
load(m, rt)
'''
