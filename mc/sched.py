"""Controlled scheduler for two calls: real threads, schedule points at every line executed inside the library."""
import os
import queue
import sys
import threading
from mc.core import REPO_SRC
from mc.obs import outcome

PREFIX = os.path.realpath(os.path.join(REPO_SRC, 'pyrusgeom')) + os.sep
HANG_S = 60      # a pair of calls that has not ended by then hangs
_lib = {}


def is_lib(code):
    r = _lib.get(code)
    if r is None:
        r = _lib[code] = os.path.realpath(code.co_filename).startswith(PREFIX)
    return r


class Run:
    """the state of one schedule; nothing is shared between schedules, so a late thread cannot disturb the next one"""
    def __init__(self, jobs, limits):
        self.jobs, self.limit = jobs, limits
        self.turn = (threading.Semaphore(0), threading.Semaphore(0))
        self.done = (threading.Semaphore(0), threading.Semaphore(0))
        self.res = [None, None]
        self.lines = [0, 0]
        self.finished = [False, False]
        self.handed = [False, False]


class Two:
    """runs two thunks under a schedule (k1, k2): thread 0 executes k1 library lines, thread 1 executes k2 lines (None: to its end), thread 0 runs to its end, thread 1 runs to its end"""
    def __init__(self):
        self.blocked = 0
        self.inbox = (queue.SimpleQueue(), queue.SimpleQueue())
        for i in (0, 1):
            threading.Thread(target=self.loop, args=(i,), daemon=True).start()

    def wait(self):
        """how long a hand-over may take before the other thread counts as blocked (on a lock held by the preempted call); blocked or not, the outcome of the calls is judged"""
        return 0.3 if self.blocked < 20 else 0.02 if self.blocked < 200 else 0.004

    def loop(self, i):
        while True:
            run = self.inbox[i].get()
            run.turn[i].acquire()
            lines, limit = run.lines, run.limit[i]

            def local(frame, event, arg):
                if event == 'line':
                    if lines[i] == limit:
                        self.switch(run, i)
                    lines[i] += 1
                return local

            def glob(frame, event, arg):
                return local if is_lib(frame.f_code) else None
            job = run.jobs[i]
            sys.settrace(glob)
            try:
                r = ('ok', job())
            except Exception as e:  # noqa
                r = ('raises', type(e).__name__)
            finally:
                sys.settrace(None)
            run.res[i] = r
            run.finished[i] = True
            run.turn[1 - i].release()
            run.done[i].release()

    def switch(self, run, i):
        if run.handed[i] or run.finished[1 - i]:
            return
        run.handed[i] = True
        run.turn[1 - i].release()
        if not run.turn[i].acquire(timeout=self.wait()):
            self.blocked += 1

    def run(self, f, g, k1, k2):
        """results of both calls; None when a call hangs (this object is of no more use then)"""
        run = Run((f, g), (k1, k2))
        self.inbox[0].put(run)
        self.inbox[1].put(run)
        run.turn[0].release()
        for d in run.done:
            if not d.acquire(timeout=HANG_S):
                return None
        return run.res


def count_lines(f):
    """library lines executed by f (alone, in this thread)"""
    n = [0]

    def local(frame, event, arg):
        if event == 'line':
            n[0] += 1
        return local
    sys.settrace(lambda fr, ev, arg: local if is_lib(fr.f_code) else None)
    try:
        f()
    except Exception:  # noqa
        pass
    finally:
        sys.settrace(None)
    return n[0]
