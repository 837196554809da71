PROPERTY = 'C08'
FILE = 'pywasm/core.py'
EDITS = [("                    a = self.stack.value.pop().into_u32()\n                    b = instr.args[1]\n",
          "                    a = self.stack.value.pop().into_i32()\n                    b = instr.args[1]\n")]
NEEDS = 'a br_table whose index has the top bit set'
BREAKS = 'the index is compared as a signed number, so -1 selects the last table entry instead of the default'
DEMO = '''
import io
import pywasm
import wat
m = wat.Mod()
op = wat.op
body = (op('block') + b'\\x40' + op('block') + b'\\x40' + wat.lget(0) + op('br_table') + wat.vec([b'\\x00']) + b'\\x01' +
        b'\\x0b' + wat.i32c(10) + op('return') + b'\\x0b' + wat.i32c(20))
m.func([wat.I32], [wat.I32], body=body, export='f')
rt = pywasm.core.Runtime()
inst = rt.instance(pywasm.core.ModuleDesc.from_reader(io.BytesIO(m.build())))
assert [rt.invocate(inst, 'f', [x])[0] for x in (0, 1, 2, -1)] == [10, 20, 20, 20]
'''
