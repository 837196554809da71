PROPERTY = 'C29'
FILE = 'pywasm/wasi.py'
EDITS = [("            if len(e.args) >= 1 and e.args[0] == SystemExit:\n                return e.args[1]\n",
          "            if len(e.args) >= 1 and e.args[0] == SystemExit:\n                return e.args[1] & 0x7f\n")]
NEEDS = 'an exit code above 127'
BREAKS = 'main() returns only a part of the exit code'
DEMO = '''
import io
import pywasm
import wat
for code in (0, 1, 127, 200):
    m = wat.Mod()
    x = m.import_func('wasi_snapshot_preview1', 'proc_exit', [wat.I32], [])
    m.mem(1, None, export='memory')
    m.func([], [], body=wat.i32c(code) + wat.call(x), export='_start')
    rt = pywasm.core.Runtime()
    w = pywasm.wasi.Preview1([], {}, {})
    w.bind(rt)
    assert w.main(rt, rt.instance(pywasm.core.ModuleDesc.from_reader(io.BytesIO(m.build())))) == code, code
'''
