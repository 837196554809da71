from _pre import wasi
PROPERTY = 'C20'
FILE = 'pywasm/wasi.py'
EDITS = [("            host_fd = os.open(name, flag, 0o644, dir_fd=self.fd[args[0]].host_fd)\n",
          "            host_fd = os.open(host_name, flag, 0o644)\n")]
NEEDS = 'a directory opened by the guest, then renamed away and replaced by a link that points outside; the open goes through the old descriptor'
BREAKS = 'path_open resolves the remembered host name of the directory instead of the directory, so a planted link redirects it outside'
DEMO = wasi('''
for d in ('/pre', '/pre/d', '/out'):
    os.mkdir(box + d)
for n, b in (('/pre/d/f', b'inside'), ('/out/f', b'secret')):
    with open(box + n, 'wb') as f:
        f.write(b)
os.symlink('../out', box + '/pre/lnk')
g = Guest({'/': box + '/pre'})
e, d = g.open(3, 'd', ALL & ~WRITE, ALL, 2)
assert e == 0
assert g.path('path_rename', 3, 'd', 3, g.put(2048, b'e'), 1) == 0
assert g.path('path_rename', 3, 'lnk', 3, g.put(2048, b'd'), 1) == 0
e, f = g.open(d, 'f', READ)
assert e == 0, e
assert g.read(f, 10) == (0, b'inside'), g.read(f, 10)
''')
