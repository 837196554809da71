from _pre import wasi
PROPERTY = 'C22'
FILE = 'pywasm/wasi.py'
EDITS = [("        stem.host_status = self.FILE_STATUS_CLOSED\n        stem.wasm_status = self.FILE_STATUS_CLOSED\n",
          "        stem.wasm_status = self.FILE_STATUS_CLOSED\n")]
NEEDS = 'a renumber, a close of the new number, then a descriptor of the embedder that gets the freed host number, then the end of the program'
BREAKS = 'main() closes the host descriptor of a number that was renumbered away, which belongs to somebody else by then'
DEMO = wasi('''
os.mkdir(box + '/pre')
for n in 'ab':
    with open(box + '/pre/' + n, 'wb') as f:
        f.write(b'x')
g = Guest({'/': box + '/pre'})
e, a = g.open(3, 'a', READ)
e, b = g.open(3, 'b', READ)
assert g('fd_renumber', a, b) == 0
assert g('fd_close', b) == 0
mine = [os.open(box, os.O_RDONLY) for _ in range(4)]
g.wasi.main(g.rt, g.inst)
for n in mine:
    os.fstat(n)
''')
