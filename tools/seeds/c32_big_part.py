from _pre import wasi
PROPERTY = 'C32'
FILE = 'pywasm/wasi.py'
EDITS = [("                mems.put(elem_ptr, bytearray(data[offs:offs + size]))\n                offs += size\n", "                mems.put(elem_ptr, bytearray(data[offs:offs + min(size, 4096)]))\n                offs += size\n")]
NEEDS = 'a receive of more than 4096 bytes into one buffer'
BREAKS = 'the part of a buffer beyond 4096 bytes is not written'
DEMO = wasi('''
import socket
a, b = socket.socketpair()
g = Guest()
f = g.wasi.File(**{**vars(g.wasi.fd[0]), 'host_fd': b.fileno(), 'wasm_fd': 3, 'wasm_type': 6, 'wasm_rights_base': ALL})
g.wasi.fd.append(f)
data = bytes(range(1, 201)) * 50
a.send(data)
assert g('sock_recv', 3, *g.iov([10000]), 0, 64, 68) == 0
assert g.get(8192, g.u32(64)) == data[:g.u32(64)] and g.u32(64) > 0
''')
