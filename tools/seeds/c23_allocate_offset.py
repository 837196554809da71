from _pre import wasi
PROPERTY = 'C23'
FILE = 'pywasm/wasi.py'
EDITS = [("        size = args[1] + args[2] - os.stat(file.host_fd).st_size\n", "        size = max(args[1], args[2]) - os.stat(file.host_fd).st_size\n")]
NEEDS = 'an allocation that begins inside a file and ends behind it, by less than its offset'
BREAKS = 'fd_allocate does not extend the file'
DEMO = wasi("""
os.mkdir(box + '/pre')
with open(box + '/pre/f', 'wb') as f:
    f.write(b'x' * 10)
g = Guest({'/': box + '/pre'})
e, f = g.open(3, 'f', ALL)
assert e == 0
assert g('fd_allocate', f, 8, 6) == 0
assert os.stat(box + '/pre/f').st_size == 14
""")
