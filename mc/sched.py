"""A controlled scheduler for two threads which run the real interpreter: exactly one of them runs at any time, and it gives way to the
other only where the schedule says so, at the granularity of source lines or of bytecode instructions of the package under test."""
import dis
import sys
import types
import _thread
import threading

import pywasm

from . import rt

PKG = pywasm.__path__[0]
TOOL = 3
NEVER = 1 << 60


LOCAL = {'LOAD_FAST', 'LOAD_FAST_CHECK', 'LOAD_FAST_AND_CLEAR', 'LOAD_CONST', 'STORE_FAST', 'COPY', 'SWAP', 'NOP', 'RESUME', 'POP_TOP', 'PUSH_NULL',
         'JUMP_FORWARD', 'JUMP_BACKWARD', 'POP_JUMP_IF_FALSE', 'POP_JUMP_IF_TRUE', 'POP_JUMP_IF_NONE', 'POP_JUMP_IF_NOT_NONE', 'CACHE',
         'END_FOR', 'RETURN_CONST', 'RETURN_VALUE', 'IS_OP', 'BUILD_TUPLE', 'PUSH_EXC_INFO', 'POP_EXCEPT', 'KW_NAMES', 'EXTENDED_ARG'}


def points(code, fine):
    """Offsets of the instructions before which a thread may give way: those that touch anything outside the running frame, or, if not
    fine, the first one of each line with any such instruction. Giving way elsewhere is the same as giving way at the next point.
    Comparisons with constants of modules, which nobody changes, are not counted either."""
    out, space, mod, last = set(), {}, None, False
    space = next((vars(m) for m in list(sys.modules.values()) if getattr(m, '__file__', None) == code.co_filename), {})
    start, seen = 0, False
    for i in dis.get_instructions(code):
        if i.starts_line:
            start, seen = i.offset, False
        ok = i.opname in LOCAL
        if i.opname == 'LOAD_GLOBAL':
            mod = space.get(i.argval)
            ok = isinstance(mod, types.ModuleType)
        elif i.opname == 'LOAD_ATTR' and isinstance(mod, types.ModuleType):
            mod = getattr(mod, i.argval, None)
            ok = isinstance(mod, (types.ModuleType, int))
        elif i.opname == 'COMPARE_OP':
            ok = last
        last = isinstance(mod, int)
        if i.opname not in ('LOAD_GLOBAL', 'LOAD_ATTR'):
            mod = None
        if not ok and (fine or not seen):
            out.add(i.offset if fine else start)
            seen = True
    return out


class Sched:
    def __init__(self, fine):
        self.mon = sys.monitoring
        self.event = self.mon.events.INSTRUCTION
        self.left = NEVER
        self.count = 0
        self.on = False
        self.fine = fine
        self.at, self.keep = {}, []
        self.seen, self.skip, self.log = None, (), None

    def __enter__(self):
        self.mon.use_tool_id(TOOL, 'mc')
        self.mon.register_callback(TOOL, self.event, self.point)
        self.mon.restart_events()
        self.mon.set_events(TOOL, self.event)
        return self

    def __exit__(self, *a):
        self.mon.set_events(TOOL, 0)
        self.mon.register_callback(TOOL, self.event, None)
        self.mon.free_tool_id(TOOL)

    def point(self, code, where):
        if not code.co_filename.startswith(PKG):
            return self.mon.DISABLE
        s = self.at.get(id(code))
        if s is None:
            s = self.at[id(code)] = points(code, self.fine)
            self.keep.append(code)
        if where not in s:
            return self.mon.DISABLE
        if not self.on:
            return None
        if self.seen is not None:
            self.seen.add((id(code), where))
        if (id(code), where) in self.skip:
            return None
        self.count += 1
        self.left -= 1
        if self.log is not None:
            self.log.append((id(code), where))
        if self.left == 0:
            self.left = self.plan.pop(0) if self.plan else NEVER
            self.switch()

    def switch(self):
        me = self.turn
        if self.done[1 - me]:
            return
        self.turn = 1 - me
        self.sem[1 - me].release()
        self.sem[me].acquire()

    def body(self, i, f):
        self.sem[i].acquire()
        self.enter[i] = self.count
        try:
            self.out[i] = f()
        except BaseException as e:
            self.out[i] = rt.Trap(e)
        self.done[i] = True
        if self.done[1 - i]:
            self.end.release()
        else:
            self.left = self.plan.pop(0) if self.plan else NEVER
            self.turn = 1 - i
            self.sem[1 - i].release()

    def alone(self, f):
        """Result and the places of the points."""
        self.count, self.left, self.on, self.log = 0, NEVER, True, []
        try:
            r = f()
        except Exception as e:
            r = rt.Trap(e)
        finally:
            self.on = False
            log, self.log = self.log, None
        return r, log

    def visited(self, f):
        """The points that f passes."""
        self.seen = set()
        try:
            self.alone(f)
            return self.seen
        finally:
            self.seen = None

    def run(self, fs, first, plan):
        """Thread `first` runs for plan[0] points, then the other for plan[1], and so on; at the end of the plan each runs to its end.
        Returns both results, or None if they do not end."""
        self.sem = [_thread.allocate_lock(), _thread.allocate_lock()]
        self.end = _thread.allocate_lock()
        for l in (*self.sem, self.end):
            l.acquire()
        self.done, self.out, self.enter = [False, False], [None, None], [0, 0]
        self.plan = list(plan)
        self.left = self.plan.pop(0) if self.plan else NEVER
        self.count = 0
        self.turn = first
        ts = [threading.Thread(target=self.body, args=(i, f), daemon=True) for i, f in enumerate(fs)]
        for t in ts:
            t.start()
        rt.arm(20)
        self.on = True
        self.sem[first].release()
        try:
            self.end.acquire()
        except rt.Hang:
            return None
        finally:
            rt.disarm()
            self.on = False
        for t in ts:
            t.join()
        return self.out
