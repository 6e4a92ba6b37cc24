"""Stateless exploration of the schedules of a multi-process program.

The program runs in a forked process ("main") in which multiprocessing.Pool and ProcessPoolExecutor are replaced by
a pool whose workers are real forked processes that stop at every scheduling point (taking a task, handing in a
result, and - when asked for - every file operation below the scratch directory) until the controller lets exactly
one process go on. Tasks, functions and results cross process borders pickled, as in the real pool.
"""
import concurrent.futures
import multiprocessing
import multiprocessing.context
import multiprocessing.pool
import os
import pickle
import select
import signal
import socket
import struct
import sys
import time
import traceback
from multiprocessing.reduction import ForkingPickler

from mc import faultfs as ff

GATE = 9
CHANNELS = 24


class Hang(Exception):
    pass


# ---- process side ---------------------------------------------------------------------------------------------

_chan = None  # socket of this process
_free = []  # channels not handed out yet (main only)
_files = False  # file operations are scheduling points
_dir = None


def _send(msg):
    b = b"P" + pickle.dumps(msg)
    _chan.sendall(struct.pack("<I", len(b)) + b)


def _recv_exact(s, n):
    out = b""
    while len(out) < n:
        b = s.recv(n - len(out))
        if not b:
            os._exit(79)
        out += b
    return out


def _call(*msg):
    _send(msg)
    n = struct.unpack("<I", _recv_exact(_chan, 4))[0]
    return pickle.loads(_recv_exact(_chan, n))


def _arm():
    ff._lib.mc_arm(_dir.encode(), GATE if _files else ff.COUNT, -1, _chan.fileno(), 0)


def _worker(chan, initializer, initargs):
    global _chan
    _chan = chan
    try:
        _arm()
        if initializer:
            initializer(*initargs)
        while True:
            job, payload = _call("idle")
            try:
                fn, items, star = pickle.loads(payload)
                res = [fn(*i[0], **i[1]) if star else fn(i) for i in items]
                blob = (True, bytes(ForkingPickler.dumps(res)))
            except BaseException as e:
                try:
                    blob = (False, bytes(ForkingPickler.dumps(e)))
                except Exception:
                    blob = (False, pickle.dumps(RuntimeError(repr(e))))
            _call("result", job, ff._lib.mc_steps(), *blob)
    except BaseException:
        traceback.print_exc()
    finally:
        os._exit(0)


_jobs = [0]


def _unpack(blob):
    ok, data = blob
    val = pickle.loads(data)
    if not ok:
        raise val
    return val


class Result:
    """AsyncResult / MapResult."""

    def __init__(self, jobs, single, callback=None, error_callback=None):
        self.jobs, self.single = jobs, single
        self.cb, self.ecb, self.val = callback, error_callback, None

    def get(self, timeout=None):
        if self.val is None:
            try:
                vals = [v for blob in _call("wait", self.jobs) for v in _unpack(blob)]
                self.val = (True, vals[0] if self.single else vals)
                if self.cb:
                    self.cb(self.val[1])
            except Exception as e:
                self.val = (False, e)
                if self.ecb:
                    self.ecb(e)
        if not self.val[0]:
            raise self.val[1]
        return self.val[1]

    def wait(self, timeout=None):
        try:
            self.get()
        except Exception:
            pass

    def ready(self):
        return _call("poll", self.jobs)

    def successful(self):
        self.wait()
        return self.val[0]


class Pool:
    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        n = processes or os.cpu_count() or 1
        if n < 1:
            raise ValueError("Number of processes must be at least 1")
        self.n = n
        self.results = []
        mine = [_free.pop() for _ in range(min(n, len(_free)))]
        self.pids = []
        self.closed = False
        sys.stdout.flush()
        for i, s in mine:
            pid = os.fork()
            if pid == 0:
                _worker(s, initializer, initargs)
            self.pids.append(pid)
        self.chans = [i for i, _ in mine]
        _call("pool", self.chans)

    def _submit(self, fn, items, star, chunksize=1):
        if self.closed:
            raise ValueError("Pool not running")
        items = list(items)
        jobs, payloads = [], []
        for k in range(0, len(items), chunksize):
            jobs.append(_jobs[0])
            _jobs[0] += 1
            payloads.append(bytes(ForkingPickler.dumps((fn, items[k:k + chunksize], star))))
        _call("submit", self.chans, list(zip(jobs, payloads)))
        return jobs

    def _chunk(self, items, chunksize):
        if chunksize is None:
            chunksize, extra = divmod(len(items), self.n * 4)
            chunksize += bool(extra)
        return max(chunksize, 1)

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        r = Result(self._submit(func, [(tuple(args), dict(kwds))], True), True, callback, error_callback)
        self.results.append(r)
        return r

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        items = list(iterable)
        r = Result(self._submit(func, items, False, self._chunk(items, chunksize)), False, callback, error_callback)
        self.results.append(r)
        return r

    def map(self, func, iterable, chunksize=None):
        return self.map_async(func, iterable, chunksize).get()

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        items = [(tuple(i), {}) for i in iterable]
        return Result(self._submit(func, items, True, self._chunk(items, chunksize)), False, callback, error_callback)

    def starmap(self, func, iterable, chunksize=None):
        return self.starmap_async(func, iterable, chunksize).get()

    def imap(self, func, iterable, chunksize=1):
        jobs = self._submit(func, iterable, False, chunksize)

        def gen():
            for j in jobs:
                yield from _unpack(_call("wait", [j])[0])

        return gen()

    def imap_unordered(self, func, iterable, chunksize=1):
        left = self._submit(func, iterable, False, chunksize)

        def gen():
            todo = list(left)
            while todo:
                j, blob = _call("wait_any", todo)
                todo.remove(j)
                yield from _unpack(blob)

        return gen()

    def close(self):
        self.closed = True

    def join(self):
        if not self.closed:
            raise ValueError("Pool is still running")
        for r in self.results:  # callbacks run before join returns
            r.wait()
        _call("drain", self.chans)
        self.terminate()

    def terminate(self):
        self.closed = True
        if self.pids:
            for pid in self.pids:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
            self.pids = []
            _call("dead", self.chans)

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.terminate()


class Future:
    def __init__(self, res):
        self.res = res
        self.cbs = []

    def result(self, timeout=None):
        return self.res.get()

    def exception(self, timeout=None):
        try:
            self.res.get()
        except Exception as e:
            return e

    def done(self):
        return self.res.ready()

    def running(self):
        return not self.res.ready()

    def cancel(self):
        return False


class Executor:
    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), **kw):
        self.pool = Pool(max_workers, initializer, initargs)

    def submit(self, fn, /, *args, **kw):
        return Future(self.pool.apply_async(fn, args, kw))

    def map(self, fn, *its, timeout=None, chunksize=1):
        jobs = self.pool._submit(fn, [(a, {}) for a in zip(*its)], True, chunksize)

        def gen():
            for j in jobs:
                yield from _unpack(_call("wait", [j])[0])

        return gen()

    def shutdown(self, wait=True, cancel_futures=False):
        if self.pool.pids:
            self.pool.close()
            _call("drain", self.pool.chans)
            self.pool.terminate()

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.shutdown()


def as_completed(fs, timeout=None):
    fs = list(fs)
    if not all(isinstance(f, Future) for f in fs):
        yield from _real_as_completed(fs, timeout)
        return
    todo = {f.res.jobs[0]: f for f in fs}
    while todo:
        j, _ = _call("wait_any", list(todo))
        yield todo.pop(j)


_real_as_completed = concurrent.futures.as_completed


def patch(*modules):
    """Only ever called in a forked process."""

    def ctx_pool(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None):
        return Pool(processes, initializer, initargs)

    real = {id(multiprocessing.pool.Pool): Pool, id(concurrent.futures.ProcessPoolExecutor): Executor,
            id(concurrent.futures.as_completed): as_completed}
    multiprocessing.context.BaseContext.Pool = ctx_pool
    for mod in list(modules) + [multiprocessing, multiprocessing.pool, concurrent.futures,
                                concurrent.futures.process]:
        for name, val in list(vars(mod).items()):
            if id(val) in real:
                setattr(mod, name, real[id(val)])
            elif name == "Pool" and getattr(val, "__self__", None).__class__.__name__.endswith("Context"):
                setattr(mod, name, Pool)


# ---- controller -----------------------------------------------------------------------------------------------


class Run:
    """One execution under a list of choices (then always the first possibility)."""

    def __init__(self, program, modules, directory, files, prefix, bound, timeout):
        self.program, self.modules, self.dir, self.files = program, modules, directory, files
        self.prefix, self.bound, self.timeout = list(prefix), bound, timeout
        self.trace = []  # (number of possibilities, choice)
        self.touched = set()
        self.outcome = None
        self.steps = 0

    def read(self, i):
        """Next message of process i."""
        s = self.ends[i]
        end = time.time() + self.timeout
        out = b""
        want = 4
        head = None
        while True:
            while len(out) < want:
                left = end - time.time()
                if left <= 0:
                    raise Hang(f"process {i} does not reach its next scheduling point within {self.timeout} s")
                if not select.select([s], [], [], min(left, 1.0))[0]:
                    if i == 0 and os.waitpid(self.main, os.WNOHANG)[0]:
                        self.main = None
                        raise Hang("the main process died")
                    continue
                b = s.recv(want - len(out))
                if not b:
                    raise Hang(f"process {i} died")
                out += b
            if head is None:
                head = struct.unpack("<I", out)[0]
                out, want = b"", head
                continue
            break
        if out[:1] == b"F":
            return ("file", chr(out[1]))
        return pickle.loads(out[1:])

    def reply(self, i, val=None):
        if self.at[i][0] == "file":
            self.ends[i].sendall(b"g")
        else:
            b = pickle.dumps(val)
            self.ends[i].sendall(struct.pack("<I", len(b)) + b)

    def go(self):
        pairs = [socket.socketpair() for _ in range(CHANNELS)]
        self.ends = [a for a, _ in pairs]
        self.main = os.fork()
        if self.main == 0:
            try:
                self.be_main([b for _, b in pairs])
            finally:
                os._exit(0)
        for _, b in pairs:
            b.close()
        self.queue, self.done, self.order = [], {}, []
        self.at = {}  # process -> message it is stopped at
        self.live, self.used, self.busy = [], set(), {}
        self.polled = None
        try:
            self.at[0] = self.read(0)
            self.loop()
        except Hang as e:
            self.outcome = ("hang", str(e))
        finally:
            for s in self.ends:
                s.close()
            if self.main:
                try:
                    os.killpg(self.main, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                try:
                    os.waitpid(self.main, 0)
                except ChildProcessError:
                    pass
        return self

    def be_main(self, ends):
        global _chan, _free, _files, _dir
        os.setpgid(0, 0)
        signal.alarm(0)
        for a in self.ends:
            a.close()
        _chan, _files, _dir = ends[0], self.files, os.path.realpath(self.dir)
        _free = [(i, ends[i]) for i in range(CHANNELS - 1, 0, -1)]
        multiprocessing.current_process()._config["daemon"] = False
        os.chdir(self.dir)
        patch(*self.modules)
        try:
            _call("begin")
            _arm()
            out = ("ok", self.program())
        except BaseException as e:
            out = ("raised", "".join(traceback.format_exception(e))[-2000:])
        ff._lib.mc_arm(b"/nonexistent", ff.OFF, -1, 0, 0)
        _send(("exit", ff._lib.mc_steps(), out))

    def local(self, i):
        """Messages that concern nobody else are answered at once. True if process i went on."""
        m = self.at[i]
        if m[0] in ("begin",):
            self.reply(i)
        elif m[0] == "pool":
            self.reply(i)
            for c in m[1]:
                self.at[c] = self.read(c)
                self.live.append(c)
        elif m[0] == "submit":
            self.queue += [(tuple(m[1]), j, p) for j, p in m[2]]
            self.reply(i)
        elif m[0] == "dead":
            for c in m[1]:
                self.at.pop(c, None)
                self.live.remove(c)
            self.queue = [q for q in self.queue if q[0] != tuple(m[1])]
            self.reply(i)
        else:
            return False
        self.at[i] = self.read(i)
        return True

    def enabled(self):
        out = []
        fresh = False
        for i in sorted(self.at):
            m = self.at[i]
            if m[0] == "idle":
                if not any(i in q[0] for q in self.queue):
                    continue
                if i not in self.used:  # workers that never worked are alike
                    if fresh:
                        continue
                    fresh = True
            elif m[0] == "wait":
                if not all(j in self.done for j in m[1]):
                    continue
            elif m[0] == "wait_any":
                if not any(j in self.done for j in m[1]):
                    continue
            elif m[0] == "drain":
                if any(q[0] == tuple(m[1]) for q in self.queue) or any(self.busy.get(c) for c in m[1]):
                    continue
            elif m[0] == "poll":
                if self.polled == self.steps and not all(j in self.done for j in m[1]):
                    continue
            elif m[0] == "exit":
                continue
            out.append(i)
        return out

    def loop(self):
        last = 0
        preempt = 0
        while True:
            while self.local(0):
                pass
            if self.at[0][0] == "exit":
                if self.at[0][1]:
                    self.touched.add(0)
                self.outcome = self.at[0][2]
                return
            en = self.enabled()
            if not en:
                self.outcome = ("hang", f"deadlock: main waits for {self.at[0][:2]} and no worker can go on")
                return
            if last in en:
                en.remove(last)
                en.insert(0, last)
                if self.bound is not None and preempt >= self.bound:
                    en = en[:1]
            k = len(self.trace)
            c = self.prefix[k] if k < len(self.prefix) else 0
            if c >= len(en):
                raise AssertionError("the program is not deterministic under the controlled scheduler")
            if c and en[0] == last:
                preempt += 1
            self.trace.append((len(en), c))
            last = en[c]
            self.run(last)

    def run(self, i):
        m = self.at[i]
        self.steps += 1
        val = None
        if m[0] == "idle":
            n = next(n for n, q in enumerate(self.queue) if i in q[0])
            _, job, payload = self.queue.pop(n)
            self.used.add(i)
            self.busy[i] = True
            val = (job, payload)
        elif m[0] == "result":
            _, job, nfiles, ok, data = m
            if nfiles:
                self.touched.add(i)
            self.done[job] = (ok, data)
            self.order.append(job)
            self.busy[i] = False
        elif m[0] == "wait":
            val = [self.done[j] for j in m[1]]
        elif m[0] == "wait_any":
            j = next(j for j in self.order if j in m[1])
            val = (j, self.done[j])
        elif m[0] == "poll":
            self.polled = self.steps
            val = all(j in self.done for j in m[1])
        self.reply(i, val)
        self.at[i] = self.read(i)


def explore(program, modules, setup, judge, st, bound=2, timeout=60, budget=None, first=()):
    """All schedules of program(); setup() -> scratch directory, judge(outcome, directory) -> message or None.
    File operations become scheduling points only when some execution shows two processes doing any: as long as
    one process at most touches the files they commute with everything else."""
    both = False
    start = time.time()
    for files in (False, True):
        prefix = list(first)
        while True:
            d = setup()
            try:
                r = Run(program, modules, d, files, prefix, bound if files else None, timeout).go()
                st["schedules"] += 1
                st["transitions"] += len(r.trace)
                m = judge(r.outcome, d)
                if m:
                    return f"{m} [schedule {[c for _, c in r.trace]}, file operations scheduled: {files}]"
            finally:
                ff.remove(d)
            both |= len(r.touched) > 1
            tr = r.trace
            while len(tr) > len(first) and tr[-1][1] + 1 >= tr[-1][0]:
                tr.pop()
            if len(tr) <= len(first):
                break
            prefix = [c for _, c in tr[:-1]] + [tr[-1][1] + 1]
            if budget and time.time() - start > budget:  # never an alarm, but the evidence says so
                st["truncated"] += 1
                break
        if not both:
            break
        st["file_phase"] += 1
    return None
