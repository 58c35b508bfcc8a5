"""A process pool whose schedule is given: real worker processes, each task sent, run and answered exactly when
the schedule says so.  Stands in for concurrent.futures' pool while a pipeline is running."""
import concurrent.futures as cf, os, pickle, struct, sys
from concurrent.futures.process import BrokenProcessPool


class Schedule:
    """events: [["submit"|"finish"|"deliver", i], ...] with tasks numbered from 1 in the order they are submitted"""

    def __init__(self, events, record):
        self.events, self.at, self.record, self.pools = events, 0, record, []

    def advance(self, kind):
        """runs the tasks that finish before the next event of this kind; -> its task"""
        while self.at < len(self.events):
            a, i = self.events[self.at]
            if a == "finish":
                for p in self.pools:
                    p.finish(i)
            elif a != kind:
                # the code does something else than the schedule's design: finish whatever is waiting
                if kind == "deliver" and a == "submit":
                    return None
            else:
                self.at += 1
                return i
            self.at += 1
        return None

    def push(self):
        """something has to finish"""
        return any(p.finish(None) for p in self.pools)


CURRENT = None


def _io(fd, n):
    b = b""
    while len(b) < n:
        x = os.read(fd, n - len(b))
        if not x:
            raise EOFError
        b += x
    return b


def _send(fd, data):
    data = struct.pack("<Q", len(data)) + data
    while data:
        data = data[os.write(fd, data):]


def _recv(fd):
    return _io(fd, struct.unpack("<Q", _io(fd, 8))[0])


class Worker:
    def __init__(self, initializer, initargs):
        a, b = os.pipe()
        c, d = os.pipe()
        self.pid = os.fork()
        if not self.pid:
            code = 1
            try:
                os.close(b), os.close(c)
                out = sys.stderr
                os.dup2(out.fileno(), 1)
                if initializer:
                    initializer(*initargs)
                _send(d, b"up")
                while True:
                    try:
                        task = _recv(a)
                    except EOFError:
                        break
                    if not task:
                        break
                    try:
                        fn, args, kw = pickle.loads(task)
                        r = (True, fn(*args, **kw))
                        r = pickle.dumps(r)
                    except BaseException as e:
                        try:
                            r = pickle.dumps((False, e))
                            pickle.loads(r)
                        except BaseException:
                            r = pickle.dumps((False, RuntimeError("%s: %s" % (type(e).__name__, e))))
                    _send(d, r)
                code = 0
            except BaseException as e:
                sys.stderr.write("worker: %r\n" % (e,))
            finally:
                os._exit(code)
        os.close(a), os.close(d)
        self.to, self.fr = b, c
        self.up = False

    def run(self, task):
        _send(self.to, task)
        return pickle.loads(_recv(self.fr))

    def ready(self):
        if not self.up:
            _recv(self.fr)
            self.up = True

    def stop(self):
        try:
            _send(self.to, b"")
        except OSError:
            pass
        os.close(self.to), os.close(self.fr)
        os.waitpid(self.pid, 0)


class ScheduledFuture(cf.Future):
    def result(self, timeout=None):
        while not self.done():
            if not CURRENT.push():
                raise RuntimeError("waiting for a task that never runs")
        return super().result(0)

    def exception(self, timeout=None):
        while not self.done():
            if not CURRENT.push():
                raise RuntimeError("waiting for a task that never runs")
        return super().exception(0)


class ScheduledPool(cf.Executor):
    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), **kw):
        if max_workers is not None and max_workers <= 0:
            raise ValueError("max_workers must be greater than 0")
        n = max_workers or 3
        self.waiting, self.count, self.broken, self.closed, self.turn = {}, 0, None, False, 0
        self.workers = [Worker(initializer, initargs) for _ in range(min(n, 4))]
        CURRENT.pools.append(self)

    def submit(self, fn, /, *args, **kwargs):
        if self.broken:
            raise BrokenProcessPool(self.broken)
        if self.closed:
            raise RuntimeError("cannot schedule new futures after shutdown")
        CURRENT.advance("submit")
        f = ScheduledFuture()
        self.count += 1
        f.number = self.count
        self.waiting[self.count] = (f, fn, args, kwargs)
        CURRENT.record("submit", None)
        return f

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        return super().map(fn, *iterables, timeout=timeout)

    def breakdown(self, why):
        self.broken = why
        for f, *_ in self.waiting.values():
            f.set_running_or_notify_cancel()
            f.set_exception(BrokenProcessPool(why))
            CURRENT.record("finish", f)
        self.waiting = {}

    def finish(self, i):
        """runs task i, or the oldest one"""
        while self.waiting:
            k = i if i is not None else min(self.waiting)
            if k not in self.waiting:
                return False
            f, fn, args, kw = self.waiting.pop(k)
            if not f.set_running_or_notify_cancel():
                CURRENT.record("finish", f)
                return True
            self.turn += 1
            w = self.workers[(self.turn * 7 + k) % len(self.workers)]
            try:
                task = pickle.dumps((fn, args, kw))
            except Exception as e:
                f.set_exception(e)
                CURRENT.record("finish", f)
                return True
            try:
                w.ready()
                ok, r = w.run(task)
            except (EOFError, OSError):
                self.waiting[k] = (f, fn, args, kw)
                f._state = "PENDING"
                self.breakdown("A process in the process pool was terminated abruptly while the future was running or pending.")
                return True
            CURRENT.record("finish", f)
            f.set_result(r) if ok else f.set_exception(r)
            return True
        return False

    def shutdown(self, wait=True, *, cancel_futures=False):
        if cancel_futures:
            for f, *_ in self.waiting.values():
                f.cancel()
        while self.finish(None):
            pass
        if not self.closed:
            self.closed = True
            for w in self.workers:
                w.stop()


def as_completed(fs, timeout=None):
    pending = list(dict.fromkeys(fs))
    while pending:
        want = CURRENT.advance("deliver")
        ready = [f for f in pending if f.done()]
        if not ready:
            if not CURRENT.push():
                raise RuntimeError("waiting for tasks that never run")
            ready = [f for f in pending if f.done()]
        for f in [x for x in ready if x.number == want] or ready[-1:]:
            pending.remove(f)
            yield f


def wait(fs, timeout=None, return_when=cf.ALL_COMPLETED):
    fs = set(fs)
    while True:
        done = {f for f in fs if f.done()}
        if len(done) == len(fs) or (return_when == cf.FIRST_COMPLETED and done) or (
                return_when == cf.FIRST_EXCEPTION and any(f.exception() for f in done)):
            return cf._base.DoneAndNotDoneFutures(done, fs - done)
        if not CURRENT.push():
            raise RuntimeError("waiting for tasks that never run")


REAL = (cf.ProcessPoolExecutor, cf.as_completed, cf.wait)


def install(schedule):
    """with a schedule: the scheduled pool; without: the real one"""
    global CURRENT
    CURRENT = schedule
    a, b, c = (ScheduledPool, as_completed, wait) if schedule else REAL
    for m in [cf, cf.process, cf._base] + [x for n, x in list(sys.modules.items()) if n.startswith("copclib")]:
        for name, v in (("ProcessPoolExecutor", a), ("as_completed", b), ("wait", c)):
            if hasattr(m, name) and getattr(m, name) in (ScheduledPool, as_completed, wait) + REAL:
                setattr(m, name, v)
