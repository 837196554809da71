from _pre import wasi
PROPERTY = 'C31'
FILE = 'pywasm/wasi.py'
EDITS = [("        except FileNotFoundError:\n            return [self.ERRNO_NOENT]\n        except IsADirectoryError:\n            return [self.ERRNO_ISDIR]\n        except NotADirectoryError:\n            return [self.ERRNO_NOTDIR]\n        except OSError as e:\n            if platform.system().lower() == 'darwin' and e.errno == 62:\n",
          "        except (FileNotFoundError, PermissionError):\n            return [self.ERRNO_NOENT]\n        except IsADirectoryError:\n            return [self.ERRNO_ISDIR]\n        except NotADirectoryError:\n            return [self.ERRNO_NOTDIR]\n        except OSError as e:\n            if platform.system().lower() == 'darwin' and e.errno == 62:\n")]
NEEDS = 'a file the host may not open'
BREAKS = 'path_open reports that a file does not exist when the host refuses access to it'
DEMO = wasi('''
os.mkdir(box + '/pre')
with open(box + '/pre/f', 'wb') as f:
    f.write(b'x')
os.chmod(box + '/pre/f', 0)
os.chmod(box, 0o755)
g = Guest({'/': box + '/pre'})
if os.getuid() == 0:
    os.seteuid(65534)
try:
    e, _ = g.open(3, 'f', READ)
finally:
    os.seteuid(os.getuid())
assert e in (2, 63), e
''')
