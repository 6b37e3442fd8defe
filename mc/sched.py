"""Controlled scheduler: two threads run the real code, one at a time, and change places only where the schedule says.

A point of the schedule is a line (or, with opcodes=True, a byte-code instruction) of the package under test; only the first `visits` times a
line is reached count. A schedule is a pair (k, j): thread 0 runs up to its k-th point, thread 1 runs up to its j-th point (to its end if j is
None), thread 0 runs to its end, thread 1 runs to its end.
"""
import os
import sys
import threading

import einsteinpy

ROOT = os.path.dirname(os.path.abspath(einsteinpy.__file__)) + os.sep
WAIT = 10.0
MON = sys.monitoring
TOOL = 3
EV = MON.events
ME = threading.local()
_on = [False]


def _point(code, where):
    r = getattr(ME, "run", None)
    if r is not None:
        r.point(ME.index, code, where)


def _start(code, offset):
    """first time a function is entered: points are counted in the package only"""
    if code.co_filename.startswith(ROOT):
        MON.set_local_events(TOOL, code, EV.INSTRUCTION if _on[0] == "opcodes" else EV.LINE)
    return MON.DISABLE


def watch(opcodes):
    kind = "opcodes" if opcodes else "lines"
    if _on[0] == kind:
        return
    if _on[0]:
        MON.free_tool_id(TOOL)
    _on[0] = kind
    MON.use_tool_id(TOOL, "sched")
    MON.register_callback(TOOL, EV.PY_START, _start)
    MON.register_callback(TOOL, EV.INSTRUCTION if opcodes else EV.LINE, _point)
    MON.set_events(TOOL, EV.PY_START)
    MON.restart_events()


class Run:
    def __init__(self, ops, stops=(None, None), only=None, opcodes=False, visits=2):
        self.ops, self.stops, self.only, self.visits = ops, stops, only, visits
        self.count = [0, 0]
        self.seen = [{}, {}]
        self.done = [False] * len(ops)
        self.sem = [threading.Semaphore(0) for _ in ops]
        self.out = [None] * len(ops)
        self.blocked = False
        self.switches = 0
        watch(opcodes)

    def point(self, i, code, where):
        if self.only and not any(q in code.co_filename for q in self.only):
            return
        seen = self.seen[i]
        at = (code, where)
        seen[at] = n = seen.get(at, 0) + 1
        if n > self.visits:
            return
        self.count[i] += 1
        if self.count[i] == self.stops[i] and len(self.ops) > 1 and not self.done[1 - i]:
            self.switches += 1
            self.sem[1 - i].release()
            if not self.sem[i].acquire(timeout=WAIT):
                self.blocked = True      # the other thread waits for something this one holds: not a schedule of this program

    def body(self, i):
        self.sem[i].acquire()
        ME.run, ME.index = self, i
        try:
            r = ("value", self.ops[i]())
        except Exception as e:
            r = ("raised", "%s: %s" % (type(e).__name__, e))
        ME.run = None
        self.out[i] = r
        self.done[i] = True
        if len(self.ops) > 1:
            self.sem[1 - i].release()

    def go(self):
        ts = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in range(len(self.ops))]
        [t.start() for t in ts]
        self.sem[0].release()
        [t.join() for t in ts]
        return self.out


def length(op, only=None, opcodes=False, visits=2):
    """number of points of an operation run alone, and its result"""
    r = Run([op], only=only, opcodes=opcodes, visits=visits)
    out = r.go()
    return r.count[0], out[0]
