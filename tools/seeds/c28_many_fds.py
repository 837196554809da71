from _pre import wasi
PROPERTY = 'C28'
FILE = 'pywasm/wasi.py'
EDITS = [("                    wsub.append([userdata, file])\n", "                    if len(wsub) < 32:\n                        wsub.append([userdata, file])\n")]
NEEDS = 'more than 32 subscriptions to writing, the ready one among the later ones'
BREAKS = 'descriptors from the 33rd on are not polled for writing'
DEMO = wasi('''
os.mkdir(box + '/pre')
os.mkfifo(box + '/pre/p')
os.mkfifo(box + '/pre/q')
hold = [os.open(box + '/pre/' + n, os.O_RDWR | os.O_NONBLOCK) for n in 'pq']
g = Guest({'/': box + '/pre'})
e, p = g.open(3, 'p', WRITE | 1 << 27, 0, 0, 4)
assert e == 0
e, q = g.open(3, 'q', WRITE | 1 << 27, 0, 0, 4)
assert e == 0
try:
    while True:
        os.write(hold[0], bytes(4096))
except BlockingIOError:
    pass
for i in range(41):
    g.put(8192 + 48 * i, struct.pack('<QB7xI28x', i, 2, q if i == 40 else p))
g.put(8192 + 48 * 41, struct.pack('<QB7xI4xQ16x', 99, 0, 1, 10 ** 8))
assert g('poll_oneoff', 8192, 16384, 42, 64) == 0
seen = [g.u64(16384 + 32 * i) for i in range(g.u32(64))]
assert 40 in seen, seen
''')
