"""Deterministic scheduler for Python threads running the code under test.

Every line of a /deepquantum/ source file (or every bytecode, grain='op') executed by a worker thread is a step.  Exactly
one worker holds the baton; a schedule says after how many of its steps which worker hands the baton on.  When a worker
ends, the baton goes to the next unfinished one.  If the baton holder makes no step for STALL seconds while others wait
(it is blocked on something a waiting thread holds), all workers are released: the run stays a legal execution.
"""
import gc
import queue
import sys
import threading
import time
import types

STALL = 2.0


MON = sys.monitoring
TOOL = 4
_WHO = {}           # thread -> (run, index)
_STATE = {'grain': None, 'codes': {}}


def _event(code, at, *_):
    who = _WHO.get(threading.get_ident())
    if who is not None:
        who[0]._step(who[1], code, at)


def _codes():
    """Every code object of the package that is reachable now."""
    out = {}

    def walk(c):
        if id(c) not in out:
            out[id(c)] = c
            for k in c.co_consts:
                if isinstance(k, types.CodeType):
                    walk(k)
    for f in gc.get_objects():
        if isinstance(f, types.FunctionType) and '/deepquantum/' in f.__code__.co_filename:
            walk(f.__code__)
    return out


def instrument(grain):
    """Ask the interpreter for an event at every line (bytecode) of the package; done once, while no worker runs."""
    if _STATE['grain'] == grain:
        return
    if MON.get_tool(TOOL) is None:
        MON.use_tool_id(TOOL, 'mc scheduler')
        MON.register_callback(TOOL, MON.events.LINE, _event)
        MON.register_callback(TOOL, MON.events.INSTRUCTION, _event)
    if not _STATE['codes']:
        _STATE['codes'] = _codes()
    for c in _STATE['codes'].values():
        MON.set_local_events(TOOL, c, MON.events.INSTRUCTION if grain == 'op' else MON.events.LINE)
    _STATE['grain'] = grain


class Run:
    def __init__(self, fns, plan, grain='line', start=0, count=False):
        """fns: callables; plan: list of (thread, step number, next thread) handovers in the order they happen."""
        self.fns = fns
        self.n = len(fns)
        self.plan = list(plan)
        self.grain = grain
        self.count = count
        self.places = []
        self.cv = threading.Condition()
        self.turn = start
        self.steps = [0] * self.n
        self.done = [False] * self.n
        self.free = False
        self.beat = 0
        self.results = [None] * self.n
        self.errors = [None] * self.n
        self.switches = 0

    # -- called in workers
    def _next_alive(self, i):
        for d in range(1, self.n + 1):
            j = (i + d) % self.n
            if not self.done[j]:
                return j
        return None

    def _step(self, i, code, at):
        self.steps[i] += 1
        self.beat += 1
        if self.count:
            self.places.append((id(code), at))
        if self.free or not self.plan:
            return
        t, k, to = self.plan[0]
        if t == i and self.steps[i] >= k:
            with self.cv:
                self.plan.pop(0)
                if self.done[to]:
                    return
                self.turn = to
                self.switches += 1
                self.cv.notify_all()
                self._wait(i)

    def _wait(self, i):
        while self.turn != i and not self.free:
            self.cv.wait()

    def _worker(self, i):
        with self.cv:
            self._wait(i)
        _WHO[threading.get_ident()] = (self, i)
        try:
            self.results[i] = self.fns[i]()
        except BaseException as e:
            self.errors[i] = e
        finally:
            _WHO.pop(threading.get_ident(), None)
            with self.cv:
                self.done[i] = True
                j = self._next_alive(i)
                if j is not None and self.turn == i:
                    self.turn = j
                self.beat += 1
                self.cv.notify_all()

    def go(self):
        instrument(self.grain)
        while len(_POOL) < self.n:
            _POOL.append(Worker())
        mine = [_POOL.pop() for _ in range(self.n)]
        for i, w in enumerate(mine):
            w.box.put((self, i))
        last, quiet = -1, 0.0
        while True:
            with self.cv:
                if not all(self.done):
                    self.cv.wait(0.5)
                if all(self.done):
                    break
                if self.beat != last:
                    last, quiet = self.beat, time.monotonic()
                elif time.monotonic() - quiet >= STALL:
                    self.free = True
                    self.cv.notify_all()
        _POOL.extend(mine)
        return self


class Worker(threading.Thread):
    """Threads live on between runs: the numerical libraries dislike thousands of short-lived ones."""

    def __init__(self):
        super().__init__(daemon=True)
        self.box = queue.SimpleQueue()
        self.start()

    def run(self):
        while True:
            r, i = self.box.get()
            r._worker(i)
            del r


_POOL = []
