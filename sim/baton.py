"""Pre-emptive threads under simulator control.

Real threads, one running at a time.  Every executed source line of gym_anm is
a possible pre-emption point; `gaps` (from the plan) says after how many lines
the running thread loses the processor.  The execution is a pure function of
the plan.
"""
import sys
import threading

from .seams import PKG


class Baton:
    def __init__(self, gaps):
        self.gaps = list(gaps)
        self.k = 0
        self.left = self.gaps[0] if self.gaps else None
        self.cv = threading.Condition()
        self.turn = 0
        self.alive = []
        self.lines = 0
        self.switches = 0
        self.where = []

    def _next(self, me):
        live = [i for i, a in enumerate(self.alive) if a and i != me]
        if not live:
            return me
        bigger = [i for i in live if i > me]
        return (bigger or live)[0]

    def _trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(PKG):
            return None
        if event == "line":
            self.lines += 1
            if self.left is not None:
                self.left -= 1
                if self.left <= 0:
                    self.k += 1
                    self.left = self.gaps[self.k] if self.k < len(self.gaps) else None
                    self._switch(frame)
        return self._trace

    def _switch(self, frame):
        me = self.turn
        nxt = self._next(me)
        if nxt == me:
            return
        self.switches += 1
        self.where.append("%s:%d" % (frame.f_code.co_filename[len(PKG):], frame.f_lineno))
        with self.cv:
            self.turn = nxt
            self.cv.notify_all()
            while self.turn != me:
                self.cv.wait()

    def run(self, funcs):
        self.alive = [True] * len(funcs)
        errors = []

        def body(i, f):
            with self.cv:
                while self.turn != i:
                    self.cv.wait()
            sys.settrace(self._trace)
            try:
                f()
            except BaseException as e:  # harness errors
                errors.append(e)
            finally:
                sys.settrace(None)
                with self.cv:
                    self.alive[i] = False
                    self.turn = self._next(i)
                    self.cv.notify_all()
        ts = [threading.Thread(target=body, args=(i, f), daemon=True) for i, f in enumerate(funcs)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if errors:
            raise errors[0]
