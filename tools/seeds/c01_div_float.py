PROPERTY = 'C01'
FILE = 'pywasm/arith.py'
EDITS = [("        return a // b if a * b > 0 else (a + (-a % b)) // b\n", "        return int(a / b)\n")]
NEEDS = 'an i64.div_s whose operands or quotient need more than 53 bits'
BREAKS = 'i64.div_s goes through a float and loses the low bits of large quotients'
DEMO = '''
import io
import pywasm
import wat
m = wat.Mod()
m.func([wat.I64, wat.I64], [wat.I64], body=wat.lget(0) + wat.lget(1) + wat.op('i64_div_s'), export='f')
rt = pywasm.core.Runtime()
inst = rt.instance(pywasm.core.ModuleDesc.from_reader(io.BytesIO(m.build())))
for a, b, c in [(7, 2, 3), (-7, 2, -3), (7, -2, -3), (9007199254740993, 1, 9007199254740993),
                (-9223372036854775807, 3, -3074457345618258602)]:
    assert rt.invocate(inst, 'f', [a, b]) == [c], (a, b, c)
'''
