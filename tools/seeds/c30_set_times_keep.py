from _pre import wasi
PROPERTY = 'C30'
FILE = 'pywasm/wasi.py'
EDITS = [("        file = self.fd[args[0]]\n        info = os.stat(file.host_fd)\n        atim = info.st_atime_ns\n",
          "        file = self.fd[args[0]]\n        info = os.stat(file.host_fd)\n        atim = info.st_mtime_ns\n")]
NEEDS = 'a file whose two times differ, of which only the modification time is set'
BREAKS = 'fd_filestat_set_times changes the access time when only the modification time is set'
DEMO = wasi('''
os.mkdir(box + '/pre')
with open(box + '/pre/f', 'wb') as f:
    f.write(b'x')
os.utime(box + '/pre/f', ns=(5, 7))
g = Guest({'/': box + '/pre'})
e, f = g.open(3, 'f', ALL & ~WRITE)
assert g('fd_filestat_set_times', f, 1, 99, 4) == 0
s = os.stat(box + '/pre/f')
assert (s.st_atime_ns, s.st_mtime_ns) == (5, 99), s
''')
