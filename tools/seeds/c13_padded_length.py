PROPERTY = 'C13'
FILE = 'pywasm/leb128.py'
EDITS = [("                break\n        return _I.decode(a), len(a)", "                break\n        n = _I.decode(a)\n        return n, len(_I.encode(n))")]
NEEDS = 'a signed number written with redundant bytes'
BREAKS = 'the number of bytes read is that of the shortest encoding instead of the one read'
DEMO = '''
import io
import pywasm
for h, n in (('ffffffff7f', -1), ('8000', 0), ('bf8000', 63), ('7f', -1), ('c000', 64)):
    b = bytes.fromhex(h)
    r = io.BytesIO(b + bytes([5]))
    assert pywasm.leb128.i.decode_reader(r) == (n, len(b)), b
    assert r.tell() == len(b)
'''
