from _pre import wasi
PROPERTY = 'C36'
FILE = 'pywasm/wasi.py'
EDITS = [("        mems = m.store.mems[m.stack.frame[-1].module.mems[0]]\n        mems.put_u32(args[0], len(self.args))\n",
          "        mems = m.store.mems[0]\n        mems.put_u32(args[0], len(self.args))\n")]
NEEDS = 'a runtime in which another memory was made before that of the program'
BREAKS = 'the sizes of the arguments are written to the first memory of the runtime'
DEMO = wasi('''
g = Guest()
first = g.mem
m = wat.Mod()
x = m.import_func('wasi_snapshot_preview1', 'args_sizes_get', [I, I], [I])
m.mem(1, None, export='memory')
m.func([], [I], body=wat.i32c(64) + wat.i32c(68) + wat.call(x), export='go')
b = g.rt.instance(pywasm.core.ModuleDesc.from_reader(io.BytesIO(m.build())))
second = g.rt.exported_memory(b, 'memory')
second.put(64, bytearray(b'x' * 8))
first.put(64, bytearray(b'y' * 8))
assert g.rt.invocate(b, 'go', []) == [0]
assert bytes(second.get(64, 8)) == bytes(8)
assert bytes(first.get(64, 8)) == b'y' * 8
''')
