from _pre import wasi
PROPERTY = 'C29'
FILE = 'pywasm/wasi.py'
EDITS = [("            if len(e.args) >= 1 and e.args[0] == SystemExit:", "            if len(e.args) == 2 and e.args[0] == SystemExit and len(runtime.machine.stack.frame) == 0:")]
NEEDS = 'a program that is run by a host function of another one'
BREAKS = 'the exit of an inner program is raised as an error instead of returned'
DEMO = wasi('''
def program(r, w, host=None):
    m = wat.Mod()
    ex = m.import_func('wasi_snapshot_preview1', 'proc_exit', [I], [])
    if host:
        r.imports['h'] = {'h': r.allocate_func_host(pywasm.core.FuncType([], []), host)}
        h = m.import_func('h', 'h', [], [])
    m.mem(1, None, export='memory')
    m.func([], [], body=(wat.call(h) if host else b'') + wat.i32c(3 if host else 5) + wat.call(ex), export='_start')
    return r.instance(pywasm.core.ModuleDesc.from_reader(io.BytesIO(m.build())))


r = pywasm.core.Runtime()
w = pywasm.wasi.Preview1([], {}, {})
w.bind(r)
w.return_on_exit = 1
got = []


def host(m, a):
    got.append(w.main(r, inner))
    return []


inner = program(r, w)
outer = program(r, w, host)
assert w.main(r, outer) == 3
assert got == [5], got
''')
