from _pre import wasi
from _pre3 import TWICE
PROPERTY = 'C15'
FILE = 'pywasm/wasi.py'
EDITS = [("        try:\n            os.symlink(stem, dest, dir_fd=file.host_fd)\n",
          "        here = os.open('.', os.O_RDONLY)\n        try:\n            os.chdir(file.host_fd)\n            os.symlink(stem, dest)\n"),
         ("            return [self.ERRNO_NOTDIR]\n        return [self.ERRNO_SUCCESS]\n\n    def path_unlink_file",
          "            return [self.ERRNO_NOTDIR]\n        finally:\n            os.chdir(here)\n            os.close(here)\n        return [self.ERRNO_SUCCESS]\n\n    def path_unlink_file")]
NEEDS = 'two WASI programs in two threads that make symbolic links at the same time, each interrupted at the wrong place'
BREAKS = 'path_symlink changes the directory of the process for a moment, so the link of one program lands in the directory of the other'
DEMO = wasi(TWICE + '''
for d in '12':
    os.mkdir(box + '/' + d)
A, B = Guest({'/': box + '/1'}), Guest({'/': box + '/2'})


def make(g, name):
    def run():
        g.put(2048, b't')
        g.put(2060, name)
        return g('path_symlink', 2048, 1, 3, 2060, 1)
    return run


def check(r, s):
    got = [os.listdir(box + '/1'), os.listdir(box + '/2')]
    for d in '12':
        for n in os.listdir(box + '/' + d):
            os.unlink(box + '/' + d + '/' + n)
    if r is not None:
        assert (r, s) == (0, 0), (r, s)
        assert got == [['a'], ['b']], got


twice('wasi.py', make(A, b'a'), make(B, b'b'), check)
''')
