from _pre2 import CORE
PROPERTY = 'C02'
FILE = 'pywasm/arith.py'
EDITS = [("                if a == 0 or math.isnan(a):\n", "                if a == 0 or a != a and not math.copysign(1, b) < 0:\n")]
NEEDS = 'a NaN divided by negative zero'
BREAKS = 'NaN / -0 is an infinity'
DEMO = CORE + '''
import math
m = wat.Mod()
m.func([wat.F64, wat.F64], [wat.F64], body=lget(0) + lget(1) + op('f64_div'), export='f')
rt, inst = load(m)
for z in (0.0, -0.0):
    assert math.isnan(rt.invocate(inst, 'f', [math.nan, z])[0]), z
'''
