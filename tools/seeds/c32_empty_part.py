from _pre import wasi
PROPERTY = 'C32'
FILE = 'pywasm/wasi.py'
EDITS = [("                mems.put(elem_ptr, bytearray(data[offs:offs + size]))\n                offs += size\n            iovs_ptr += 8\n",
          "                mems.put(elem_ptr, bytearray(data[offs:offs + size]))\n                offs += size\n                iovs_ptr += 8\n")]
NEEDS = 'a receive into several buffers of which one that is not the last is empty'
BREAKS = 'sock_recv stops at an empty buffer: the data is consumed and counted, but does not reach the guest'
DEMO = wasi('''
import socket
a, b = socket.socketpair()
g = Guest()
f = g.wasi.File(**{**vars(g.wasi.fd[0]), 'host_fd': b.fileno(), 'wasm_fd': 3, 'wasm_type': 6, 'wasm_rights_base': ALL})
g.wasi.fd.append(f)
a.send(b'abcdef')
assert g('sock_recv', 3, *g.iov([2, 0, 4]), 0, 64, 68) == 0
assert g.u32(64) == 6
assert g.get(8192, 6) == b'abcdef', g.get(8192, 6)
''')
