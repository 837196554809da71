from _pre import wasi
PROPERTY = 'C35'
FILE = 'pywasm/wasi.py'
EDITS = [("            wasm_rights_root=rights_root,\n            wasm_status", "            wasm_rights_root=rights_root,\n            wasm_prestat=file.wasm_prestat and name == '.',\n            wasm_status")]
NEEDS = 'a program that opens its preopened directory itself and asks about the new number'
BREAKS = 'a directory opened by the program is announced as a preopened one'
DEMO = wasi('''
os.mkdir(box + '/d')
g = Guest({'d': box + '/d'})
e, n = g.open(3, '.', oflags=2, base=1 << 14)
assert e == 0
assert g('fd_prestat_get', n, 64) == 8
''')
