from _pre import wasi
PROPERTY = 'C26'
FILE = 'pywasm/wasi.py'
EDITS = [("        self.envs = ['='.join(e) for e in sorted(envs.items())]\n",
          "        self.envs = sorted(k.strip() + '=' + v.strip() for k, v in envs.items())\n")]
NEEDS = 'an environment value that begins or ends with white space'
BREAKS = 'environment values lose white space at their ends'
DEMO = wasi('''
g = Guest({}, [], {'A': ' x\\n', 'B': ''})
assert g('environ_sizes_get', 64, 68) == 0
assert g('environ_get', 1024, 2048) == 0
assert g.get(2048, 9) == b'A= x\\n\\0B=\\0', g.get(2048, 9)
''')
