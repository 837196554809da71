from _pre2 import CORE
PROPERTY = 'C16'
FILE = 'pywasm/log.py'
EDITS = [("    print(pre, 'pywasm:', *args)", "    print(pre, 'pywasm:', *[str(e).encode('ascii').decode() for e in args])")]
NEEDS = 'tracing on while a module whose names are not ASCII is decoded'
BREAKS = 'the module is refused, but only with tracing on'
DEMO = CORE + '''
import contextlib
m = wat.Mod()
m.func([], [I], body=i32c(3), export='caf\\u00e9')
pywasm.log.lvl = 1
with contextlib.redirect_stdout(io.StringIO()):
    rt, inst = load(m)
    assert rt.invocate(inst, 'caf\\u00e9', []) == [3]
'''
