from _pre import wasi
PROPERTY = 'C26'
FILE = 'pywasm/wasi.py'
EDITS = [("        for e in self.envs:\n            data = ", "        for e in self.envs[:64]:\n            data = ")]
NEEDS = 'more than 64 environment variables'
BREAKS = 'environ_get writes the first 64 only, although more are announced'
DEMO = wasi('''
g = Guest({}, [], {'K%02d' % i: str(i) for i in range(80)})
assert g('environ_sizes_get', 64, 68) == 0
assert g.u32(64) == 80
assert g('environ_get', 1024, 4096) == 0
want = b''.join(b'K%02d=%d\\0' % (i, i) for i in range(80))
assert g.get(4096, len(want)) == want
''')
