from _pre import wasi
PROPERTY = 'C15'
FILE = 'pywasm/wasi.py'
EDITS = [("            host_fd = os.open(name, flag, 0o644, dir_fd=self.fd[args[0]].host_fd)\n",
          "            mask = os.umask(0)\n            host_fd = os.open(name, flag, 0o644, dir_fd=self.fd[args[0]].host_fd)\n            os.umask(mask)\n")]
NEEDS = 'an open that fails, followed by anything in the process that creates a file'
BREAKS = 'the umask of the process stays zero after a guest tried to open a file that does not exist'
DEMO = wasi('''
os.mkdir(box + '/d')
os.umask(0o27)
g = Guest({'/': box + '/d'})
assert g.open(3, 'new', READ, 0, 1)[0] == 0
assert g.open(3, 'no', READ)[0] != 0
assert os.umask(0) == 0o27
''')
