from _pre2 import CORE
PROPERTY = 'C12'
FILE = 'pywasm/core.py'
EDITS = [("            extern.append(self.imports[e.module][e.name])", "            extern.append(self.imports[e.module][e.name.strip()])")]
NEEDS = 'an import whose name begins or ends with white space'
BREAKS = 'white space around the name of an import is ignored'
DEMO = CORE + '''
rt = pywasm.core.Runtime()
t = pywasm.core.FuncType([], [pywasm.core.ValType.i32()])
rt.imports['e'] = {n: rt.allocate_func_host(t, lambda m, a, i=i: [i]) for i, n in enumerate(('f', ' f', 'f '))}
m = wat.Mod()
for i, n in enumerate(('f', ' f', 'f ')):
    m.import_func('e', n, [], [I])
for i in range(3):
    m.func([], [I], body=wat.call(i), export='go%d' % i)
rt, a = load(m, rt)
for i in range(3):
    assert rt.invocate(a, 'go%d' % i, []) == [i]
'''
