from _pre import wasi
PROPERTY = 'C27'
FILE = 'pywasm/wasi.py'
EDITS = [("            if dirent + 24 > bufend:\n", "            if dirent + 20 > bufend:\n")]
NEEDS = 'a directory buffer with exactly 20 bytes left'
BREAKS = 'fd_readdir writes a byte behind the buffer'
DEMO = wasi('''
os.mkdir(box + '/pre')
g = Guest({'/': box + '/pre'})
for n in range(0, 200):
    g.put(8192, b'\\xee' * 300)
    assert g('fd_readdir', 3, 8192, n, 0, 64) == 0
    assert g.get(8192 + n, 50) == b'\\xee' * 50, n
''')
