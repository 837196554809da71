from _pre import wasi
PROPERTY = 'C21'
FILE = 'pywasm/wasi.py'
EDITS = [("        if file.wasm_rights_root & args[2] != args[2]:\n",
          "        if (file.wasm_rights_base | file.wasm_rights_root) & args[2] != args[2]:\n")]
NEEDS = 'rights to pass on that were dropped, then asked for again on a directory that still has them for itself'
BREAKS = 'fd_fdstat_set_rights gives back inheriting rights that were dropped before'
DEMO = wasi('''
os.mkdir(box + '/pre')
os.mkdir(box + '/pre/d')
g = Guest({'/': box + '/pre'})
base = (1 << 13) | (1 << 10) | (1 << 14)
assert g('fd_fdstat_set_rights', 3, base, 1 << 14) == 0
assert g('fd_fdstat_set_rights', 3, base, (1 << 14) | (1 << 10)) == 76
''')
