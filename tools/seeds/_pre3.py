from _pre2 import CORE
# Runs `other` in a second thread at every line which the package runs for `first`, one line per run of `first`.
THREADS = '''
import os
import sys
import threading
PKG = os.path.dirname(os.path.abspath(pywasm.__file__))


def between(first, other, check):
    k = 0
    while 1:
        n, got = 0, []

        def trace(frame, event, arg):
            nonlocal n
            if not os.path.abspath(frame.f_code.co_filename).startswith(PKG):
                return None
            if event == 'line':
                n += 1
                if n == k:
                    sys.settrace(None)
                    t = threading.Thread(target=lambda: got.append(other()))
                    t.start()
                    t.join()
            return trace
        sys.settrace(trace)
        try:
            r = first()
        finally:
            sys.settrace(None)
        if k and not got:
            return
        check(r, got[0] if got else None)
        k += 1


'''
CORE = CORE + THREADS
# The same with a second switch back: `other` stops at each of its lines until `first` has ended. Only lines of one file count.
TWICE = '''
import os
import sys
import threading


def tracer(file, k, act):
    n = 0

    def trace(frame, event, arg):
        nonlocal n
        if os.path.basename(frame.f_code.co_filename) != file:
            return trace if event == 'call' else None
        if event == 'line':
            n += 1
            if n == k:
                act()
        return trace
    trace.lines = lambda: n
    return trace


def lines(file, f):
    t = tracer(file, 0, None)
    sys.settrace(t)
    try:
        f()
    finally:
        sys.settrace(None)
    return t.lines()


def twice(file, first, other, check):
    for k in range(1, lines(file, first) + 1):
        for l in range(1, lines(file, other) + 1):
            check(None, None)
            stop, go, out = threading.Event(), threading.Event(), []

            def run():
                def act():
                    stop.set()
                    go.wait(20)
                sys.settrace(tracer(file, l, act))
                try:
                    out.append(other())
                finally:
                    sys.settrace(None)
                    stop.set()
            t = threading.Thread(target=run)

            def act():
                t.start()
                stop.wait(20)
            sys.settrace(tracer(file, k, act))
            try:
                r = first()
            finally:
                sys.settrace(None)
                go.set()
            t.join()
            check(r, out[0])


'''
