PROPERTY = 'C33'
FILE = 'pywasm/__main__.py'
EDITS = [("    wasi_args = [args.file] + args.wasi_args", "    wasi_args = [args.file.lstrip('./')] + args.wasi_args")]
NEEDS = 'a file named by a path which begins with a dot or a slash'
BREAKS = 'the program is not told its own name as it was given'
DEMO = '''
import os
import subprocess
import sys
import pywasm
import tempfile
import wat
m = wat.Mod()
eg = m.import_func('wasi_snapshot_preview1', 'args_get', [wat.I32] * 2, [wat.I32])
es = m.import_func('wasi_snapshot_preview1', 'args_sizes_get', [wat.I32] * 2, [wat.I32])
wr = m.import_func('wasi_snapshot_preview1', 'fd_write', [wat.I32] * 4, [wat.I32])
m.mem(1, None, export='memory')
drop = wat.op('drop')
m.func([], [], body=wat.i32c(64) + wat.i32c(4) + wat.call(es) + drop + wat.i32c(1024) + wat.i32c(2048) + wat.call(eg) + drop +
       wat.i32c(0) + wat.i32c(2048) + wat.op('i32_store', b'\\x02\\0') + wat.i32c(1) + wat.i32c(0) + wat.i32c(1) + wat.i32c(32) +
       wat.call(wr) + drop, export='_start')
with tempfile.NamedTemporaryFile(suffix='.wasm') as f:
    f.write(m.build())
    f.flush()
    d = os.path.dirname(f.name)
    for n in (f.name, './' + os.path.basename(f.name)):
        r = subprocess.run([sys.executable, '-m', 'pywasm', '--wasi', 'preview1', '--wasi-args', './x', n], capture_output=True, cwd=d,
                           env=dict(os.environ, PYTHONPATH=os.path.dirname(os.path.dirname(os.path.abspath(pywasm.__file__)))))
        assert r.returncode == 0 and r.stdout.rstrip(b'\\0') == n.encode() + b'\\0./x', (r.stdout, r.stderr)
'''
