from _pre import wasi
PROPERTY = 'C30'
FILE = 'pywasm/wasi.py'
EDITS = [("        mems.put_u64(args[1] + 32, info.st_size)", "        mems.put_u64(args[1] + 32, info.st_size & 0xffffffff)")]
NEEDS = 'a file of 4 GiB or more'
BREAKS = 'fd_filestat_get reports the size modulo 2^32'
DEMO = wasi('''
os.mkdir(box + '/pre')
with open(box + '/pre/f', 'wb') as f:
    f.truncate(5 * 2 ** 32 + 7)
g = Guest({'/': box + '/pre'})
e, f = g.open(3, 'f', ALL)
assert e == 0
assert g('fd_filestat_get', f, 1024) == 0
assert g.u64(1024 + 32) == 5 * 2 ** 32 + 7
''')
