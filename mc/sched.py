"""Controlled schedulers: event-loop orders and preemption-bounded thread interleavings of the real code."""
import asyncio
import sys
import threading

from mc import core
from mc.core import REI_DIR


class Script:
    """a prefix of choices, then the first alternative; remembers how many alternatives there were"""

    def __init__(self, prefix):
        self.prefix, self.trace = list(prefix), []

    def choose(self, n):
        i = self.prefix[len(self.trace)] if len(self.trace) < len(self.prefix) else 0
        self.trace.append((i, n))
        return i


def all_scripts(run, bound=None, limit=None):
    """depth-first enumeration of every choice sequence of run(script); `bound` limits the number of non-first choices.
    Yields (script, result)."""
    stack = [[]]
    n = 0
    while stack:
        prefix = stack.pop()
        s = Script(prefix)
        core.progress()
        res = run(s)
        n += 1
        yield s, res
        if limit is not None and n >= limit:
            if core.CURRENT is not None:
                core.CURRENT.extra["schedule_sets_cut_off"] = core.CURRENT.extra.get("schedule_sets_cut_off", 0) + 1
            return
        deviations = sum(1 for i, _ in s.trace[:len(prefix)] if i)
        if bound is not None and deviations >= bound:
            continue
        for k in range(len(s.trace) - 1, len(prefix) - 1, -1):
            for alt in range(s.trace[k][1] - 1, 0, -1):
                stack.append([i for i, _ in s.trace[:k]] + [alt])


# ------------------------------------------------------------ event loop

class ChoosingLoop(asyncio.SelectorEventLoop):
    """runs one ready handle at a time, the script says which"""

    def __init__(self, script):
        super().__init__()
        self.script = script

    def _run_once(self):
        ready = self._ready
        if len(ready) > 1:
            i = self.script.choose(len(ready))
            rest = list(ready)
            h = rest.pop(i)
            ready.clear()
            ready.append(h)
            super()._run_once()
            new = list(ready)
            ready.clear()
            ready.extend(rest + new)
        else:
            super()._run_once()


class SuspendingQueues:
    """every put and get on an asyncio queue is a real suspension point (any await may be one)"""

    def __enter__(self):
        self.put, self.get = asyncio.Queue.put, asyncio.Queue.get
        put0, get0 = self.put, self.get

        async def put(q, item):
            await asyncio.sleep(0)
            return await put0(q, item)

        async def get(q):
            await asyncio.sleep(0)
            return await get0(q)
        asyncio.Queue.put, asyncio.Queue.get = put, get

    def __exit__(self, *a):
        asyncio.Queue.put, asyncio.Queue.get = self.put, self.get


def run_tasks(script, makers, suspend=True):
    """run the coroutines as concurrent tasks under the script; -> list of results or exceptions"""
    loop = ChoosingLoop(script)

    async def top():
        return await asyncio.gather(*[m() for m in makers], return_exceptions=True)
    try:
        if suspend:
            with SuspendingQueues():
                return loop.run_until_complete(top())
        return loop.run_until_complete(top())
    finally:
        loop.close()


# ------------------------------------------------------------ threads

class Threads:
    """Two or more threads of which exactly one runs; at every schedule point (line or call in the code under test) the
    script may switch to another one.  Alternative 0 is to go on, so a deviation is a preemption."""

    def __init__(self, script, events=("line",)):
        self.script, self.events = script, set(events)
        self.points = 0

    def run(self, fns):
        n = len(fns)
        self.go = [threading.Semaphore(0) for _ in range(n)]
        self.alive = [True] * n
        self.results = [None] * n
        self.done = threading.Semaphore(0)
        ts = [threading.Thread(target=self._body, args=(i, f), daemon=True) for i, f in enumerate(fns)]
        for t in ts:
            t.start()
        self.go[0].release()
        if not self.done.acquire(timeout=50):
            raise RuntimeError("threads do not terminate")
        for t in ts:
            t.join(5)
        return self.results

    def _body(self, i, f):
        self.go[i].acquire()
        sys.settrace(lambda fr, ev, arg: self._call(i, fr, ev))
        try:
            self.results[i] = ("ok", f())
        except BaseException as e:  # noqa
            self.results[i] = ("exc", f"{type(e).__name__}: {e}")
        finally:
            sys.settrace(None)
            self.alive[i] = False
            rest = [j for j, a in enumerate(self.alive) if a]
            if rest:
                # which thread goes on is a free choice, not a preemption (there are at most two here)
                self.go[rest[0]].release()
            else:
                self.done.release()

    def _call(self, i, frame, event):
        if not frame.f_code.co_filename.startswith(REI_DIR):
            return None
        if "call" in self.events:
            self._point(i)
        if "line" in self.events:
            return lambda fr, ev, arg: self._line(i, fr, ev)
        return None

    def _line(self, i, frame, event):
        if event == "line":
            self._point(i)
        return lambda fr, ev, arg: self._line(i, fr, ev)

    def _point(self, i):
        others = [j for j, a in enumerate(self.alive) if a and j != i]
        if not others:
            return
        self.points += 1
        c = self.script.choose(1 + len(others))
        if c:
            j = others[c - 1]
            self.go[j].release()
            self.go[i].acquire()
