from _pre2 import CORE
PROPERTY = 'C11'
FILE = 'pywasm/core.py'
EDITS = [("            assert len(section_data) == n\n", "            assert len(section_data) == n or section_id == 0\n")]
NEEDS = 'a module cut off inside its last custom section'
BREAKS = 'a truncated custom section at the end is accepted'
DEMO = CORE + '''
b = wat.Mod().build() + b'\\0\\x09\\x01a1234567'
pywasm.core.ModuleDesc.from_reader(io.BytesIO(b))
assert trap(pywasm.core.ModuleDesc.from_reader, io.BytesIO(b[:-3])) == 'trap'
'''
