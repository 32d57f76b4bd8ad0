"""Threads under a schedule chosen by symbolic variables: one thread runs at a time; where it may be interrupted is decided by the solver.

A thread gives way when it blocks (the next one is a symbolic choice) and at up to `budget` other places: at the call to step() whose
number equals a symbolic variable."""
import threading


class Kill(BaseException):
    """the exploration of this schedule is over"""


class Task:
    def __init__(self, s, name, fn):
        self.s, self.name, self.fn = s, name, fn
        self.go = threading.Semaphore(0)
        self.blocked = None         # what it waits for, None: can run
        self.ended = False
        self.thread = threading.Thread(target=self.body, daemon=True)

    def body(self):
        self.go.acquire()
        s = self.s
        try:
            if not s.dead:
                self.fn()
        except Kill:
            pass
        except BaseException as e:      # noqa
            s.stop(e)
        self.ended = True
        try:
            if not s.dead:
                s.hand_over(self)
        except BaseException as e:      # noqa
            s.stop(e)


class Scheduler:
    def __init__(self, ctx, budget, steps):
        self.ctx, self.n = ctx, 0
        self.tasks, self.current, self.dead, self.error = [], None, False, None
        self.main = threading.Semaphore(0)
        self.at = [ctx.int('switch%d' % i, 0, steps) for i in range(budget)]
        for a, b in zip(self.at, self.at[1:]):
            ctx.assume(a < b)
        self.steps, self.choices, self.used, self.trace = steps, 0, 0, []

    def spawn(self, name, fn):
        t = Task(self, name, fn)
        self.tasks.append(t)
        return t

    def stop(self, e):
        if self.error is None and not isinstance(e, Kill):
            self.error = e
        self.dead = True
        self.main.release()

    def me(self):
        """the current task, None when called from elsewhere (the main thread, finalizers after the end)"""
        t = self.current
        return t if t is not None and not self.dead and t.thread is threading.current_thread() else None

    def pick(self, among):
        if len(among) == 1:
            return among[0]
        v = self.ctx.int('next%d' % self.choices, 0, len(among) - 1)
        self.choices += 1
        for i, t in enumerate(among[:-1]):
            if bool(v == i):
                return t
        return among[-1]

    def switch(self, me, to):
        if to is me:
            return
        self.trace.append(to.name)
        self.current = to
        to.go.release()
        if not me.ended:
            me.go.acquire()
            if self.dead:
                raise Kill()

    def runnable(self, but=None):
        return [t for t in self.tasks if not t.ended and t.blocked is None and t is not but]

    def guard(self, f):
        """errors of the exploration must not be swallowed by the code that runs"""
        try:
            return f()
        except BaseException as e:      # noqa
            self.stop(e)
            raise Kill()

    def step(self):
        """a place where the running thread may be interrupted"""
        me = self.me()
        if me is None:
            return
        i, self.n = self.n, self.n + 1

        def decide():
            if i > self.steps or self.used == len(self.at):
                return me
            if bool(self.at[self.used] == i):
                self.used += 1
                others = self.runnable(but=me)
                return self.pick(others) if others else me
            return me
        self.switch(me, self.guard(decide))

    def block(self, why):
        """the running thread waits until wake() is called for it"""
        me = self.me()
        if me is None:
            raise Kill()
        me.blocked = why
        self.hand_over(me)

    def hand_over(self, me):
        def decide():
            ready = self.runnable()
            return self.pick(ready) if ready else None
        to = self.guard(decide)
        if to is None:              # all ended, or all that are left wait for each other
            self.dead = True
            self.main.release()
            if not me.ended:
                raise Kill()
            return
        self.switch(me, to)

    def run(self):
        """runs all tasks to their end -> the tasks that wait forever"""
        for t in self.tasks:
            t.thread.start()
        first = self.pick(self.tasks)
        self.trace.append(first.name)
        self.current = first
        first.go.release()
        self.main.acquire()
        self.dead = True
        for t in self.tasks:
            t.go.release()
        for t in self.tasks:
            t.thread.join(20)
            if t.thread.is_alive():
                raise RuntimeError('a thread of the schedule does not end')
        if self.error is not None:
            raise self.error
        return [t for t in self.tasks if t.blocked is not None]


class Lock:
    """threading.Condition (reentrant lock, waiters woken in their order)"""

    def __init__(self, sched, lock=None):
        self.s = sched
        self.owner, self.depth = None, 0
        self.waiters = []

    def acquire(self, *a, **k):
        s = self.s
        me = s.me() if s else None
        if me is None:
            return True
        if self.owner is me:
            self.depth += 1
            return True
        s.step()
        while self.owner is not None:
            s.block(self)
        self.owner, self.depth = me, 1
        return True

    def release(self):
        s = self.s
        me = s.me() if s else None
        if me is None:
            return
        if self.owner is not me:
            raise RuntimeError("cannot release un-acquired lock")
        self.depth -= 1
        if not self.depth:
            self.free(s)

    def free(self, s):
        self.owner = None
        for t in s.tasks:
            if t.blocked is self:
                t.blocked = None

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    def wait(self, timeout=None):
        s = self.s
        me = s.me() if s else None
        if me is None:
            raise Kill()
        if self.owner is not me:
            raise RuntimeError("cannot wait on un-acquired lock")
        depth, self.depth = self.depth, 0
        ticket = [me]
        self.waiters.append(ticket)
        self.free(s)
        s.block(ticket)
        while self.owner is not None:
            s.block(self)
        self.owner, self.depth = me, depth
        return True

    def wait_for(self, predicate, timeout=None):
        r = predicate()
        while not r:
            self.wait()
            r = predicate()
        return r

    def notify(self, n=1):
        s = self.s
        me = s.me() if s else None
        if me is None:
            return
        if self.owner is not me:
            raise RuntimeError("cannot notify on un-acquired lock")
        for ticket in self.waiters[:n]:
            self.waiters.remove(ticket)
            ticket[0].blocked = None

    def notify_all(self):
        self.notify(len(self.waiters))

    notifyAll = notify_all
