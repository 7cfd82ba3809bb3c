"""Cooperative threads: real threads, one of which runs at any time; which one, and when it hands over, is decided by a
seeded scheduler.  Switch points: every device interaction, and (at a seeded rate) any line of the library."""

import random
import sys
import threading

from .core import REPO

LIB = REPO + "/qermit/"


class Threads:
    """programs: list of callables, each run in its own thread.  save()/restore(state): what belongs to a thread besides
    its stack (the library's randomness)"""

    def __init__(self, seed, rate, save, restore, states, on_switch=None, max_switches=2500):
        self.rng = random.Random(seed)
        self.rate = rate  # mean number of library line events between switches; 0: at device interactions only
        self.save, self.restore = save, restore
        self.states = states
        self.current = None
        self.switches = 0
        self.max_switches = max_switches
        self.on_switch = on_switch
        self.where = {}
        self.countdown = self._next()

    def _next(self):
        return 1 + int(self.rng.expovariate(1.0 / self.rate)) if self.rate else -1

    def point(self, what):
        """a switch point of the running thread"""
        if self.current is None:
            return
        me = self.current
        others = [i for i in self.alive if i != me]
        if not others or self.switches >= self.max_switches or self.rng.random() < 0.35:
            return
        self._to(self.rng.choice(others), what)

    def _to(self, nxt, what):
        me = self.current
        self.switches += 1
        self.where[what.split("#")[0]] = self.where.get(what.split("#")[0], 0) + 1
        if self.on_switch:
            self.on_switch(me, nxt, what)
        self.states[me] = self.save()
        self.current = nxt
        self.restore(self.states[nxt])
        self.go[nxt].release()
        self.go[me].acquire()

    def _trace(self, frame, event, arg):
        if event == "call":
            f = frame.f_code.co_filename
            if not f.startswith(LIB):
                return None
            return self._trace
        if event == "line" and self.rate:
            self.countdown -= 1
            if self.countdown <= 0:
                self.countdown = self._next()
                self.point("line")
        return self._trace

    def run(self, programs):
        n = len(programs)
        self.go = [threading.Semaphore(0) for _ in range(n)]
        self.done = threading.Semaphore(0)
        self.alive = list(range(n))
        self.error = None
        mine = self.save()

        def body(i):
            self.go[i].acquire()
            try:
                if self.rate:
                    sys.settrace(self._trace)
                programs[i]()
            except BaseException as e:  # noqa: BLE001
                if self.error is None:
                    self.error = e
            finally:
                sys.settrace(None)
                self.alive.remove(i)
                if self.alive:
                    nxt = self.rng.choice(self.alive)
                    self.current = nxt
                    self.restore(self.states[nxt])
                    self.go[nxt].release()
                else:
                    self.current = None
                    self.done.release()

        ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(n)]
        for t in ts:
            t.start()
        self.current = self.rng.randrange(n)
        self.restore(self.states[self.current])
        self.go[self.current].release()
        self.done.acquire()
        for t in ts:
            t.join()
        self.restore(mine)
        if self.error is not None:
            raise self.error
