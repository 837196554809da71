from _pre import wasi
PROPERTY = 'C25'
FILE = 'pywasm/wasi.py'
EDITS = [("            if dirent + 24 > bufend:\n", "            if dirent + 24 >= bufend:\n")]
NEEDS = 'a buffer that ends exactly behind the header of an entry'
BREAKS = 'fd_readdir says that the buffer is full but leaves the header of the entry at its end unwritten'
DEMO = wasi('''
os.mkdir(box + '/pre')
g = Guest({'/': box + '/pre'})
g.put(8192, b'\\xee' * 200)
assert g('fd_readdir', 3, 8192, 24 + 1 + 24, 0, 64) == 0
assert g.u32(64) == 49
assert g.u64(8192 + 25) == 2, g.u64(8192 + 25)
''')
