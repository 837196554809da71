"""Thin access to the real interpreter, through its public interface only."""
import io
import signal
import sys
import threading
import time

import pywasm


class Hang(BaseException):
    """The code under test used more CPU time than any terminating run could need."""


def _alarm(*a):
    raise Hang('no termination within the CPU limit')


def _idle(*a):
    _ticks[0] += 1
    if _ticks[0] >= 2 and _cpu() - _ticks[1] < 2:
        raise Hang('blocked for ever')


_ticks = [0, 0.0]
_cpu = time.process_time
IDLE = 20           # seconds; blocked when twice that passes without any work done


def arm(seconds):
    if threading.current_thread() is not threading.main_thread():
        return
    _ticks[:] = 0, _cpu()
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.signal(signal.SIGALRM, _idle)
    signal.setitimer(signal.ITIMER_VIRTUAL, seconds, 0.5)
    signal.setitimer(signal.ITIMER_REAL, IDLE, IDLE)


def disarm():
    if threading.current_thread() is not threading.main_thread():
        return
    signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    signal.setitimer(signal.ITIMER_REAL, 0)


def decode(b):
    return pywasm.core.ModuleDesc.from_reader(io.BytesIO(b))


def instantiate(b, imports=None, runtime=None):
    rt = runtime or pywasm.core.Runtime()
    if imports:
        for (m, n), e in imports.items():
            rt.imports.setdefault(m, {})[n] = e
    return rt, rt.instance(decode(b))


VT = {0x7f: pywasm.core.ValType.i32, 0x7e: pywasm.core.ValType.i64, 0x7d: pywasm.core.ValType.f32,
      0x7c: pywasm.core.ValType.f64, 0x7b: pywasm.core.ValType.v128, 0x70: pywasm.core.ValType.ref_func,
      0x6f: pywasm.core.ValType.ref_extern}


def functype(params, results):
    return pywasm.core.FuncType([VT[p]() for p in params], [VT[r]() for r in results])


def host(rt, params, results, fn):
    return rt.allocate_func_host(functype(params, results), fn)


class Trap:
    """The outcome of an invocation that raised."""

    def __init__(self, exc):
        self.exc = exc

    def __eq__(self, o):
        return isinstance(o, Trap)

    def __hash__(self):
        return 1

    def __repr__(self):
        return 'trap(%s: %s)' % (type(self.exc).__name__, str(self.exc)[:80]) if self.exc else 'trap'


class Hung:
    def __repr__(self):
        return 'no termination'


TRAP = Trap(None)


def call(rt, inst, f, args):
    """Results, or a Trap. Anything derived from Exception counts as a trap."""
    arm(10)
    try:
        return rt.invocate(inst, f, list(args))
    except Exception as e:
        return Trap(e)
    except Hang:
        return Hung()
    finally:
        disarm()


class Inst:
    """One module under test. After a trap the next call gets a fresh runtime, so that the consequences of a trap (C10's
    business) cannot leak into the judgement of the next evaluation."""

    def __init__(self, b, imports=None):
        self.b, self.imports = b, imports
        self.fresh()

    def fresh(self):
        self.rt, self.inst = instantiate(self.b, self.imports)

    def call(self, f, args, cpu=10):
        arm(cpu)
        try:
            return self.rt.invocate(self.inst, f, list(args))
        except Exception as e:
            disarm()
            self.fresh()
            return Trap(e)
        except Hang as e:
            disarm()
            self.fresh()
            return Hung()
        finally:
            disarm()
