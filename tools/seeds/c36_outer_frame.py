from _pre import wasi
PROPERTY = 'C36'
FILE = 'pywasm/wasi.py'
EDITS = [("        mems = m.store.mems[m.stack.frame[-1].module.mems[0]]\n        file = self.fd[args[0]]\n        mems.put_u8(args[1], file.wasm_type)\n",
          "        mems = m.store.mems[m.stack.frame[1].module.mems[0]]\n        file = self.fd[args[0]]\n        mems.put_u8(args[1], file.wasm_type)\n")]
NEEDS = 'a program whose functions are called by another instance with a memory of its own'
BREAKS = 'the status of a descriptor is written to the memory of the instance the host called'
DEMO = wasi('''
g = Guest()
g.rt.imports['g'] = {e.name: e.data for e in g.inst.exps}
m = wat.Mod()
x = m.import_func('g', 'fd_fdstat_get', [I, I], [I])
m.mem(1, None, export='memory')
m.func([], [I], body=wat.i32c(1) + wat.i32c(64) + wat.call(x), export='go')
b = g.rt.instance(pywasm.core.ModuleDesc.from_reader(io.BytesIO(m.build())))
outer = g.rt.exported_memory(b, 'memory')
assert g.rt.invocate(b, 'go', []) == [0]
assert bytes(outer.get(64, 24)) == bytes(24)
assert g.get(64, 1) == b'\\x02'
''')
