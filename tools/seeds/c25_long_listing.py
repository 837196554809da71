from _pre import wasi
PROPERTY = 'C25'
FILE = 'pywasm/wasi.py'
EDITS = [("        for name in result[cookie:]:\n", "        for name in result[cookie:cookie + 64]:\n")]
NEEDS = 'more than 64 names and a buffer that holds them all'
BREAKS = 'fd_readdir writes 64 entries and then says that the buffer is full'
DEMO = wasi('''
os.mkdir(box + '/pre')
for i in range(100):
    open(box + '/pre/n%03d' % i, 'w').close()
g = Guest({'/': box + '/pre'})
assert g('fd_readdir', 3, 8192, 8000, 0, 64) == 0
n, at = 0, 8192
while at < 8192 + g.u32(64) and g.u64(at):
    n += 1
    at += 24 + g.u32(at + 16)
assert n == 102, n
''')
