from _pre import wasi
PROPERTY = 'C28'
FILE = 'pywasm/wasi.py'
EDITS = [("        mems.put_u32(nout, neve)\n", "        mems.put_u32(nout, nsub)\n")]
NEEDS = 'several subscriptions of which only some are due'
BREAKS = 'poll_oneoff reports as many events as there were subscriptions'
DEMO = wasi('''
g = Guest()
for i, t in enumerate((10 ** 15, 1)):
    g.put(4096 + 48 * i, bytes(48))
    g.put(4096 + 48 * i, struct.pack('<QB7xI4xQ', i + 1, 0, 1, t))
assert g('poll_oneoff', 4096, 8192, 2, 64) == 0
assert g.u32(64) == 1, g.u32(64)
''')
