from _pre import wasi
PROPERTY = 'C35'
FILE = 'pywasm/wasi.py'
EDITS = [("        mems.put_u32(args[1] + 4, len(name))\n", "        mems.put_u32(args[1] + 4, len(file.wasm_name))\n")]
NEEDS = 'a preopened directory whose name is not ASCII'
BREAKS = 'the length announced is that in characters, so the name does not fit the buffer'
DEMO = wasi('''
os.mkdir(box + '/d')
g = Guest({'d\\xe9': box + '/d'})
assert g('fd_prestat_get', 3, 64) == 0
assert g.u32(68) == 3
''')
