from _pre import wasi
PROPERTY = 'C23'
FILE = 'pywasm/wasi.py'
EDITS = [("        ][int(self.help_pipe(args[0]))]()\n        mems.put_u32(args[3], size)\n",
          "        ][int(self.help_pipe(args[0]))]()\n        mems.put_u32(args[3], len(data))\n")]
NEEDS = 'a write the host takes only a part of (a full non-blocking pipe or a file size limit)'
BREAKS = 'fd_write reports that everything was written although the host took less'
DEMO = wasi('''
os.mkdir(box + '/pre')
os.mkfifo(box + '/pre/p')
far = os.open(box + '/pre/p', os.O_RDONLY | os.O_NONBLOCK)
g = Guest({'/': box + '/pre'})
e, p = g.open(3, 'p', WRITE, 0, 0, 4)
assert e == 0, e
n = 0
for _ in range(100):
    if g('fd_write', p, *g.iov([53148]), 64):
        break
    n += g.u32(64)
got = 0
while True:
    b = os.read(far, 65536) if got < n else b''
    if not b:
        break
    got += len(b)
assert got == n, (got, n)
''')
