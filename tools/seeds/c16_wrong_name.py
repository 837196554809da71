from _pre2 import CORE
PROPERTY = 'C16'
FILE = 'pywasm/opcode.py'
EDITS = [("name[i32x4_extend_high_i16x8_u] = 'i32x4.extend_high_i16x8_u'", "name[i32x4_extend_high_i16x8_u] = 'i32x4.extend_high_i16x8_s'")]
NEEDS = 'tracing a program that uses i32x4.extend_high_i16x8_u'
BREAKS = 'the trace names another instruction than the one executed'
DEMO = CORE + '''
import contextlib
m = wat.Mod()
m.func([I], [I], body=lget(0) + op('i16x8_splat') + op('i32x4_extend_high_i16x8_u') + op('i32x4_extract_lane', b'\\0'), export='f')
out = io.StringIO()
pywasm.log.lvl = 1
with contextlib.redirect_stdout(out):
    rt, inst = load(m)
    assert rt.invocate(inst, 'f', [-2]) == [65534]
assert 'i32x4.extend_high_i16x8_u' in out.getvalue()
assert 'i32x4.extend_high_i16x8_s' not in out.getvalue()
'''
