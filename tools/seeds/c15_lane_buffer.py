from _pre3 import CORE
PROPERTY = 'C15'
FILE = 'pywasm/core.py'
EDITS = [("        data = bytearray().join([pywasm.arith.i16.into_bytearray(e) for e in n]) + bytearray(cls.blen - 16)\n        return cls(ValType.v128(), data)\n",
          "        data = cls.lane\n        for i, e in enumerate(n):\n            data[i * 2:i * 2 + 2] = pywasm.arith.i16.into_bytearray(e)\n        return cls(ValType.v128(), data + bytearray(cls.blen - 16))\n"),
         ("    blen = 16\n", "    blen = 16\n    lane = bytearray(16)\n")]
NEEDS = 'two threads, each with its own runtime, of which one is interrupted while it assembles a vector of 16-bit lanes and the other assembles another'
BREAKS = 'the lanes of a vector are assembled in a buffer that all runtimes share, so a thread gets lanes of the other'
DEMO = CORE + '''
def make(x):
    m = wat.Mod()
    m.func([I], [I], body=lget(0) + op('i16x8_splat') + op('i16x8_extract_lane_u', bytes([5])), export='f')
    rt, inst = load(m)
    return lambda: rt.invocate(inst, 'f', [x])


a, b = make(11), make(999)


def check(r, s):
    assert r == [11] and s in (None, [999]), (r, s)


between(a, b, check)
'''
