CORE = '''
import io
import pywasm
import wat
op, i32c, lget, I, L = wat.op, wat.i32c, wat.lget, wat.I32, wat.I64


def load(m, rt=None):
    rt = rt or pywasm.core.Runtime()
    return rt, rt.instance(pywasm.core.ModuleDesc.from_reader(io.BytesIO(m.build())))


def trap(f, *a):
    try:
        return f(*a)
    except BaseException:
        return 'trap'


'''
