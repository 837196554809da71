from _pre import wasi
PROPERTY = 'C21'
FILE = 'pywasm/wasi.py'
EDITS = [("        if self.help_perm(args[3], self.RIGHTS_PATH_RENAME_TARGET):\n",
          "        if self.help_perm(args[0], self.RIGHTS_PATH_RENAME_TARGET):\n")]
NEEDS = 'a rename between two descriptors of which only the source has the right to be a rename target'
BREAKS = 'path_rename moves a file into a directory whose descriptor lacks path_rename_target'
DEMO = wasi('''
for d in ('/pre', '/pre/d'):
    os.mkdir(box + d)
with open(box + '/pre/f', 'wb') as f:
    f.write(b'x')
g = Guest({'/': box + '/pre'})
e, d = g.open(3, 'd', ALL & ~WRITE & ~(1 << 17), ALL, 2)
assert e == 0
assert g.path('path_rename', 3, 'f', d, g.put(2048, b'f'), 1) == 76
assert os.path.exists(box + '/pre/f')
''')
