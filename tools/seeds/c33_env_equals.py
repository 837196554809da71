PROPERTY = 'C33'
FILE = 'pywasm/__main__.py'
EDITS = [("e.split('=', 1)", "e.split('=')")]
NEEDS = 'an environment value with an equals sign'
BREAKS = 'the command line drops the end of an environment value behind a second equals sign'
DEMO = '''
import os
import subprocess
import sys
import tempfile
import wat
m = wat.Mod()
eg = m.import_func('wasi_snapshot_preview1', 'environ_get', [wat.I32] * 2, [wat.I32])
es = m.import_func('wasi_snapshot_preview1', 'environ_sizes_get', [wat.I32] * 2, [wat.I32])
wr = m.import_func('wasi_snapshot_preview1', 'fd_write', [wat.I32] * 4, [wat.I32])
m.mem(1, None, export='memory')
drop = wat.op('drop')
m.func([], [], body=wat.i32c(64) + wat.i32c(4) + wat.call(es) + drop + wat.i32c(1024) + wat.i32c(2048) + wat.call(eg) + drop +
       wat.i32c(0) + wat.i32c(2048) + wat.op('i32_store', b'\\x02\\0') + wat.i32c(1) + wat.i32c(0) + wat.i32c(1) + wat.i32c(32) +
       wat.call(wr) + drop, export='_start')
with tempfile.NamedTemporaryFile(suffix='.wasm') as f:
    f.write(m.build())
    f.flush()
    out = b''
    a = ['--wasi', 'preview1', '--wasi-envs', 'B==c=', '--wasi-envs', 'A=x=y']
    r = subprocess.run([sys.executable, '-m', 'pywasm', *a, f.name], capture_output=True)
    assert r.stdout == b'A=x=y\\0B==c=\\0', (r.stdout, r.stderr)
'''
