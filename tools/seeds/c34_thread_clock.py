from _pre import wasi
PROPERTY = 'C34'
FILE = 'pywasm/wasi.py'
EDITS = [("                return time.thread_time_ns()\n", "                return time.process_time_ns()\n")]
NEEDS = 'a process whose other threads have used processor time'
BREAKS = 'the processor clock of the thread is that of the whole process'
DEMO = wasi('''
import threading
import time


def spin():
    end = time.thread_time() + 0.3
    while time.thread_time() < end:
        pass


t = threading.Thread(target=spin)
t.start()
t.join()
g = Guest()
assert g('clock_time_get', 3, 0, 64) == 0
assert g.u64(64) <= time.thread_time_ns()
''')
