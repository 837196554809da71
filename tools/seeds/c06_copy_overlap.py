PROPERTY = 'C06'
FILE = 'pywasm/core.py'
EDITS = [("                    mems.data[d:d+n] = mems.data[s:s+n]\n",
          "                    for i in range(n):\n                        mems.data[d+i] = mems.data[s+i]\n")]
NEEDS = 'a memory.copy whose destination overlaps its source from above'
BREAKS = 'memory.copy copies upwards byte by byte, so an overlapping copy to a higher address repeats the first bytes'
DEMO = '''
import io
import pywasm
import wat
m = wat.Mod()
m.mem(1, None, export='m')
m.data_active(wat.i32c(0), b'ABCDEFGH')
m.func([wat.I32] * 3, [], body=wat.lget(0) + wat.lget(1) + wat.lget(2) + wat.op('memory_copy', 0, 0), export='f')
rt = pywasm.core.Runtime()
inst = rt.instance(pywasm.core.ModuleDesc.from_reader(io.BytesIO(m.build())))
rt.invocate(inst, 'f', [2, 0, 5])
assert bytes(rt.exported_memory(inst, 'm').get(0, 8)) == b'ABABCDEH'
'''
