"""Models of parallel processing: any division of labor, order of results and (for threads) interleaving."""
import contextlib
import copy
import functools
import os
import sys
import threading
import types

import glimpse
from glimpse import config

FOLDER = os.path.dirname(os.path.abspath(glimpse.__file__))
ATOMS = (type, types.ModuleType, types.BuiltinFunctionType)


def isolate(x, memo):
    """A copy of a function (and all it refers to) or value, as seen by a forked process."""
    if id(x) in memo:
        return memo[id(x)]
    if isinstance(x, ATOMS):
        return x
    if isinstance(x, functools.partial):
        new = functools.partial(isolate(x.func, memo), *isolate(x.args, memo), **isolate(x.keywords, memo))
        memo[id(x)] = new
        return new
    if isinstance(x, types.FunctionType):
        if not x.__closure__ or not x.__code__.co_filename.startswith(FOLDER):
            return x
        cells = tuple(types.CellType() for c in x.__closure__)
        new = types.FunctionType(x.__code__, x.__globals__, x.__name__, x.__defaults__, cells)
        new.__kwdefaults__ = x.__kwdefaults__
        memo[id(x)] = new
        for old, cell in zip(x.__closure__, cells):
            try:
                v = old.cell_contents
            except ValueError:
                continue
            cell.cell_contents = isolate(v, memo)
        return new
    return copy.deepcopy(x, memo)


def pickled(x):
    """As it comes out of another process."""
    return copy.deepcopy(x)


class Base:
    def __init__(self, S, log, np=None):
        self.S, self.log, self.np = S, log, np

    def __enter__(self):
        self.critical = contextlib.nullcontext()
        self.ordered = contextlib.nullcontext()
        return self

    def __exit__(self, *a):
        self.critical = self.ordered = None

    @staticmethod
    def call(star, func, x):
        return func(*x) if star else func(x)

    @staticmethod
    def reduced(reduce, r):
        if reduce is None:
            return r
        return reduce(*r) if isinstance(r, tuple) else reduce(r)

    def map(self, func, sequence, reduce=None, star=False, minlength=0):
        sequence = list(sequence)
        self.log.append((self.np, len(sequence)))
        if self.np == 0 or not sequence:
            return [self.reduced(reduce, self.call(star, func, x)) for x in sequence]
        return self.spread(func, sequence, reduce, star, min(self.np, len(sequence)))


class Processes(Base):
    """Each worker has its own copy of everything; results are copies reduced as they arrive."""

    def spread(self, func, sequence, reduce, star, n):
        S, k = self.S, len(self.log)
        todo, used = [[] for w in range(n)], 0
        for i in range(len(sequence)):
            w = int(S.concrete(S.int("worker%d_%d" % (k, i), 0, min(used, n - 1))))
            todo[w].append(i)
            used = max(used, w + 1)
        # every worker starts from what is known now
        forks = []
        for w in range(n):
            memo = {id(self): self, id(S): S}
            forks.append((isolate(func, memo), [isolate(x, memo) for x in sequence]))
        out = [None] * len(sequence)
        for step in range(len(sequence)):
            ready = [w for w in range(n) if todo[w]]
            w = ready[int(S.concrete(S.int("first%d_%d" % (k, step), 0, len(ready) - 1)))] if len(ready) > 1 else ready[0]
            i = todo[w].pop(0)
            f, seq = forks[w]
            out[i] = self.reduced(reduce, pickled(self.call(star, f, seq[i])))
        return out


class Stopped(BaseException):
    pass


class Threads(Base):
    """Workers share everything, and one may be interrupted at any line of the package (once for each number of `switches`)."""

    switches = 1
    only = ""

    def spread(self, func, sequence, reduce, star, n):
        S, k = self.S, len(self.log)
        m = len(sequence)
        out, errors = [None] * m, []
        turn = [threading.Semaphore(0) for i in range(m)]
        main = threading.Semaphore(0)
        state = dict(done=set(), left=self.switches, count=0, stop=False, started=set(), waiting=set(), turn=0)
        me = threading.local()

        class Ordered:
            """One task at a time, in order."""

            def __enter__(self):
                if state["turn"] != me.i:
                    state["waiting"].add(me.i)
                    j = pass_on(me.i)
                    if j is None:
                        raise RuntimeError("tasks wait for each other")
                    turn[j].release()
                    turn[me.i].acquire()
                    state["waiting"].discard(me.i)
                    if state["stop"]:
                        raise Stopped()

            def __exit__(self, *a):
                state["turn"] += 1

        self.ordered = Ordered()

        def pass_on(i):
            """Another thread goes on in place of i."""
            others = [j for j in range(m) if j != i and j not in state["done"]]
            blocked = [j for j in state["waiting"] if j != state["turn"]]
            # a pool of n runs the tasks in order
            live = [j for j in others if j in state["started"]]
            fresh = [j for j in others if j not in state["started"]]
            room = n - len(live) - (i is not None and i not in state["done"])
            ready = [j for j in live if j not in blocked] + fresh[:1 if room > 0 else 0]
            if not ready:
                return None
            c = 0
            if len(ready) > 1:
                state["count"] += 1
                c = int(S.concrete(S.int("next%d_%d" % (k, state["count"]), 0, len(ready) - 1)))
            state["started"].add(ready[c])
            return ready[c]

        def trace(i):
            def local(frame, event, arg):
                if event == "line" and state["left"] and not state["stop"] and len(state["done"]) < m - 1:
                    state["count"] += 1
                    if S.concrete(S.bool("switch%d_%d" % (k, state["count"]))):
                        j = pass_on(i)
                        if j is not None:
                            state["left"] -= 1
                            turn[j].release()
                            turn[i].acquire()
                            if state["stop"]:
                                raise Stopped()
                return local

            def start(frame, event, arg):
                return local if frame.f_code.co_filename.startswith(os.path.join(FOLDER, self.only)) else None

            return start

        def run(i):
            turn[i].acquire()
            me.i = i
            try:
                if state["stop"]:
                    raise Stopped()
                sys.settrace(trace(i))
                r = self.call(star, func, sequence[i])
                sys.settrace(None)
                out[i] = self.reduced(reduce, r)
            except Stopped:
                pass
            except BaseException as e:
                errors.append(e)
            sys.settrace(None)
            state["done"].add(i)
            j = None
            if not errors and not state["stop"]:
                try:
                    j = pass_on(i)
                except BaseException as e:
                    errors.append(e)
            if j is None:
                if len(state["done"]) < m and not errors and not state["stop"]:
                    errors.append(RuntimeError("tasks wait for each other"))
                main.release()
            else:
                turn[j].release()

        threads = [threading.Thread(target=run, args=(i,), daemon=True) for i in range(m)]
        for t in threads:
            t.start()
        state["started"].add(0)
        turn[0].release()
        main.acquire()
        state["stop"] = True
        for i in range(m):
            if i not in state["done"]:
                turn[i].release()
        for t in threads:
            t.join()
        if errors:
            raise errors[0]
        return out


def workers(S, kind, **attrs):
    """Replace the backend of parallel processing. Returns a log of the tasks run."""
    log = []
    cls = dict(processes=Processes, threads=Threads)[kind]
    cls = type(cls.__name__, (cls,), attrs)
    S.patch(config, "backend", lambda np=None: cls(S, log, np=np))
    return log
