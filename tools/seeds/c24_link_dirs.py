from _pre import wasi
PROPERTY = 'C24'
FILE = 'pywasm/wasi.py'
EDITS = [("            os.link(stem_name, dest_name, src_dir_fd=stem.host_fd, dst_dir_fd=dest.host_fd, follow_symlinks=foll)\n",
          "            os.link(stem_name, dest_name, src_dir_fd=stem.host_fd, dst_dir_fd=stem.host_fd, follow_symlinks=foll)\n")]
NEEDS = 'a hard link between two different directory descriptors'
BREAKS = 'path_link makes the new name in the directory of the old one'
DEMO = wasi('''
os.mkdir(box + '/pre')
os.mkdir(box + '/pre/d')
with open(box + '/pre/f', 'wb') as f:
    f.write(b'x')
g = Guest({'/': box + '/pre'})
e, d = g.open(3, 'd', ALL & ~WRITE, ALL, 2)
g.put(1024, b'f')
g.put(2048, b'new')
assert g('path_link', 3, 0, 1024, 1, d, 2048, 3) == 0
assert os.path.exists(box + '/pre/d/new')
''')
