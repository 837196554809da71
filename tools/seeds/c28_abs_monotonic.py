from _pre import wasi
PROPERTY = 'C28'
FILE = 'pywasm/wasi.py'
EDITS = [("                    ends = nval if flag & self.SUBCLOCKFLAGS_SUBSCRIPTION_CLOCK_ABSTIME else ctim + nval\n",
          "                    ends = max(nval, ctim) if flag & self.SUBCLOCKFLAGS_SUBSCRIPTION_CLOCK_ABSTIME else nval + (csub[0][2] if csub and csub[0][1] == ckid else ctim)\n")]
NEEDS = 'two relative timers of one clock, the first of them long'
BREAKS = 'a relative timer counts from the end of the first one, so that a poll with a long and a short timer waits for the long one'
DEMO = wasi('''
import time
g = Guest()
for i, t in enumerate((2 * 10 ** 9, 10 ** 7)):
    g.put(4096 + 48 * i, bytes(48))
    g.put(4096 + 48 * i, struct.pack('<QB7xI4xQ', i + 1, 0, 1, t))
s = time.monotonic()
assert g('poll_oneoff', 4096, 8192, 2, 64) == 0
assert time.monotonic() - s < 1
''')
