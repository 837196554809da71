from _pre import wasi
PROPERTY = 'C24'
FILE = 'pywasm/wasi.py'
EDITS = [("        host_name = os.path.normpath(os.path.join(file.host_name, name))\n        if '\\0' in name:\n            return [self.ERRNO_ILSEQ]\n",
          "        host_name = os.path.normpath(os.path.join(file.host_name, name))\n        if '\\0' in name:\n            return [self.ERRNO_ILSEQ]\n        name = os.path.relpath(host_name, file.host_name) if '/../' in name else name\n")]
NEEDS = 'a path that goes through a link to a directory and back up with dot-dot'
BREAKS = 'path_open resolves dot-dot textually, so that a path through a link names another file'
DEMO = wasi("""
for d in ('/pre', '/pre/d', '/pre/d/e'):
    os.mkdir(box + d)
for n, b in (('/pre/f', b'top'), ('/pre/d/f', b'below')):
    with open(box + n, 'wb') as f:
        f.write(b)
os.symlink('d/e', box + '/pre/l')
g = Guest({'/': box + '/pre'})
e, f = g.open(3, 'l/../f', READ)
assert e == 0 and g.read(f, 9) == (0, b'below')
""")
