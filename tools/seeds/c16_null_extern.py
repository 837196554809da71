from _pre2 import CORE
PROPERTY = 'C16'
FILE = 'pywasm/core.py'
EDITS = [("                body = repr(self.into_ref()) if self.data[4] != 0x00 else 'null'\n                return f'{self.type} {body}'\n            case 0x6f:\n                body = repr(self.into_ref()) if self.data[4] != 0x00 else 'null'\n",
          "                body = repr(self.into_ref()) if self.data[4] != 0x00 else 'null'\n                return f'{self.type} {body}'\n            case 0x6f:\n                body = hex(self.into_ref())\n")]
NEEDS = 'tracing on while a null external reference is passed to a function'
BREAKS = 'the invocation fails, but only with tracing on'
DEMO = CORE + '''
import contextlib
m = wat.Mod()
m.func([wat.EXTERNREF], [I], body=lget(0) + op('ref_is_null'), export='f')
pywasm.log.lvl = 1
with contextlib.redirect_stdout(io.StringIO()):
    rt, inst = load(m)
    assert rt.invocate(inst, 'f', [5]) == [0]
    assert rt.invocate(inst, 'f', [None]) == [1]
'''
