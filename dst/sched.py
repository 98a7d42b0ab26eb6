"""Deterministic caller threads.

Real threads, but only one is ever released: the simulator decides at every traced line of CommDspy code which caller runs
next, and where a call is interrupted.  Lines outside the package (numpy, scipy, the standard library) are atomic steps.
"""
import ast
import dis
import os
import sys
import threading
import warnings

import numpy as np

import CommDspy
from dst import locks

ROOT = os.path.dirname(os.path.abspath(CommDspy.__file__)) + os.sep


class Interrupted(Exception):
    """Marker used by the harness for a call ended by an injected exception."""


_shielded = {}


def shielded(filename):
    """Lines where no exception is injected: the entry and exit of a with statement and the clean-up of a try statement.
    The line event of a with statement's exit precedes the exit itself, where the interpreter delivers no signal."""
    if filename not in _shielded:
        lines = set()
        try:
            with open(filename, encoding='utf-8') as f, warnings.catch_warnings():
                warnings.simplefilter('ignore')
                tree = ast.parse(f.read())
        except (OSError, SyntaxError, ValueError):
            tree = ast.Module([], [])
        for n in ast.walk(tree):
            if isinstance(n, ast.With):
                lines.update(range(n.lineno, n.body[0].lineno))
                lines.add(n.lineno)
            elif isinstance(n, ast.Try):
                lines.add(n.lineno)
                for b in n.finalbody + n.handlers:
                    lines.update(range(b.lineno, b.end_lineno + 1))
        _shielded[filename] = lines
    return _shielded[filename]


_heads = {}


def loop_heads(code):
    """Targets of backward jumps: CPython 3.12 skips the handlers around an exception that a trace function raises there."""
    if code not in _heads:
        _heads[code] = {i.argval for i in dis.get_instructions(code) if i.opname.startswith('JUMP_BACKWARD')}
    return _heads[code]


class Caller:
    def __init__(self, sched, name, script):
        self.sched, self.name, self.script = sched, name, script
        self.go = threading.Semaphore(0)
        self.done = False
        self.error = None
        self.budget = None          # lines until the next switch (None = run on)
        self.countdown = None       # lines until the injected exception
        self.injected = None
        self.lines = 0
        self.waiting = None         # the library lock this caller waits for
        self.t = threading.Thread(target=self._main, daemon=True)

    # ---- in the caller's thread
    def _main(self):
        self.go.acquire()
        locks.current[threading.get_ident()] = self
        try:
            with self.sched.settings():
                self.script(self)
        except BaseException as e:      # noqa: BLE001 - reported by the scheduler in the simulator's thread
            self.error = e
        finally:
            sys.settrace(None)
            locks.current.pop(threading.get_ident(), None)
            self.done = True
            self.sched.back.release()

    def _trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(ROOT):
            return None
        return self._local

    def _local(self, frame, event, arg):
        if event == 'line':
            self._line(frame)
        return self._local

    def _line(self, frame):
        self.lines += 1
        if self.countdown is not None:
            self.countdown -= 1
            if self.countdown <= 0 and frame.f_lineno not in shielded(frame.f_code.co_filename) \
                    and frame.f_lasti not in loop_heads(frame.f_code):
                self.countdown = None
                exc = self.injected
                self.injected = None
                self.fired = True
                raise exc('injected')
        if self.budget is not None:
            self.budget -= 1
            if self.budget <= 0:
                self.pause()

    def pause(self):
        self.sched.back.release()
        self.go.acquire()

    def wait(self, lock):
        """The library waits for a lock another caller holds: let others run.  False when nobody can release it."""
        self.waiting = lock
        if not self.sched.runnable(self):
            self.waiting = None
            return False
        self.pause()
        self.waiting = None
        return True

    def call(self, fn, *args, interrupt=None, **kw):
        """One library call under the scheduler.  interrupt = (line number, exception class)."""
        self.fired = False
        if interrupt is not None:
            self.countdown, self.injected = interrupt
        sys.settrace(self._trace)
        try:
            return fn(*args, **kw)
        finally:
            sys.settrace(None)
            self.countdown = self.injected = None


class Scheduler:
    def __init__(self, sim, switches=250, small=8, big=120, settings=lambda: np.errstate(all='ignore')):
        self.settings = settings
        self.sim = sim
        self.callers = []
        self.back = threading.Semaphore(0)
        self.switches = switches
        self.small, self.big = small, big
        self.count = 0

    def add(self, name, script):
        c = Caller(self, name, script)
        self.callers.append(c)
        c.t.start()
        return c

    def runnable(self, but=None):
        return [c for c in self.callers if c is not but and not c.done and (c.waiting is None or not c.waiting.locked())]

    def run(self):
        """Release one caller at a time until all are done; errors surface here, in the simulator's thread."""
        sim = self.sim
        live = list(self.callers)
        while live:
            ready = [c for c in live if c.waiting is None or not c.waiting.locked()] or live
            k = sim.draw(len(ready)) if len(ready) > 1 else 0
            c = ready[k]
            if self.count < self.switches and len(ready) > 1:
                c.budget = sim.size(1, self.big, self.small)
                sim.log('run', c.name, c.budget)
            else:
                c.budget = None
                sim.log('run', c.name, 'on')
            self.count += 1
            sim.steps += 1
            sim.now += 1
            c.go.release()
            self.back.acquire()
            if c.done:
                live.remove(c)
                if c.error is not None:
                    raise c.error
