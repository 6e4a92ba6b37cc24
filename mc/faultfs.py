"""Runs a piece of Python in a forked child inside a scratch directory while the shim (mc/shim.c, loaded with
LD_PRELOAD) injects one fault into its file operations; the kernel's file size limit serves as a second injector
that no way of writing can get around."""
import ctypes
import errno
import os
import pickle
import resource
import shutil
import signal
import socket
import tempfile

OFF, COUNT, CRASH_BEFORE, CRASH_AFTER, TORN_CRASH, FAIL_ONCE, FAIL_ON, TORN_FAIL, SIGNAL, GATE = range(10)

_lib = ctypes.CDLL(None)


def available():
    return hasattr(_lib, "mc_arm")


def faults(kinds, deep):
    """Every fault for a run whose steps have these kinds."""
    for k, c in enumerate(kinds):
        yield (CRASH_BEFORE, k, 0, 0)
        yield (FAIL_ONCE, k, 0, errno.EIO)
        yield (SIGNAL, k, signal.SIGINT, 0)
        if c in "wotcmu":
            yield (CRASH_AFTER, k, 0, 0)
        if c in "wot":
            yield (FAIL_ON, k, 0, errno.ENOSPC)
        if c == "w":
            for a in (1, 2, 3) if deep else (2,):
                yield (TORN_CRASH, k, a, 0)
                yield (TORN_FAIL, k, a, errno.ENOSPC)


def materialise(files):
    d = tempfile.mkdtemp(prefix="mc-fs-")
    for name, content in files.items():
        with open(os.path.join(d, name), "wb") as f:
            f.write(content)
    return d


def read_dir(d):
    out = {}
    for name in sorted(os.listdir(d)):
        with open(os.path.join(d, name), "rb") as f:
            out[name] = f.read()
    return out


def in_child(d, session, fault=None, limit=None):
    """Runs session(ack) in a forked child with cwd d. ack(x) reports x to us for good (survives a crash).
    Returns (acks, how it ended: "done" / "crash" / message, step kinds)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(r)
            signal.alarm(0)
            signal.signal(signal.SIGINT, signal.default_int_handler)
            os.chdir(d)

            def ack(x):
                b = pickle.dumps(x)
                os.write(w, len(b).to_bytes(4, "little") + b)

            if limit is not None:
                size, crash = limit
                signal.signal(signal.SIGXFSZ, signal.SIG_DFL if crash else signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                resource.setrlimit(resource.RLIMIT_FSIZE, (size, resource.RLIM_INFINITY))
            mode, k, arg, err = fault or (COUNT, -1, 0, 0)
            _lib.mc_arm(os.getcwd().encode(), mode, k, arg, err)
            try:
                session(ack)
            finally:
                n = _lib.mc_steps()
                _lib.mc_arm(b"/nonexistent", OFF, -1, 0, 0)
            ack(("kinds", "".join(chr(_lib.mc_kind(i)) for i in range(n))))
            code = 0
        except BaseException as e:
            try:
                ack(("raised", repr(e)))
            except BaseException:
                pass
        finally:
            os._exit(code)
    os.close(w)
    data = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    _, status = os.waitpid(pid, 0)
    acks, kinds, end = [], "", "done" if status == 0 else "crash"
    while data:
        n = int.from_bytes(data[:4], "little")
        x = pickle.loads(data[4:4 + n])
        data = data[4 + n:]
        if x[0] == "kinds":
            kinds = x[1]
        elif x[0] == "raised":
            end = x[1]
        else:
            acks.append(x)
    return acks, end, kinds


class Gated:
    """A forked child running session(ack) in directory d that stops before its start and before every file
    operation until go() lets it do one more."""

    def __init__(self, d, session):
        self.sock, theirs = socket.socketpair()
        self.over, self.killed, self.ops = False, False, 0
        self.acks, self.end = [], "crash"
        self.pid = os.fork()
        if self.pid == 0:
            code = 3
            acks, end = [], "done"
            try:
                self.sock.close()
                signal.alarm(0)
                os.chdir(d)
                theirs.sendall(b"\x02\0\0\0FS")
                if not theirs.recv(1):
                    os._exit(78)
                _lib.mc_arm(os.getcwd().encode(), GATE, -1, theirs.fileno(), 0)
                try:
                    session(acks.append)
                except BaseException as e:
                    end = repr(e)
                _lib.mc_arm(b"/nonexistent", OFF, -1, 0, 0)
                b = b"E" + pickle.dumps((acks, end))
                theirs.sendall(len(b).to_bytes(4, "little") + b)
                code = 0
            finally:
                os._exit(code)
        theirs.close()
        self._next()

    def _read(self, n):
        out = b""
        while len(out) < n:
            b = self.sock.recv(n - len(out))
            if not b:
                return None
            out += b
        return out

    def _next(self):
        """Waits until the child stops again or ends."""
        head = self._read(4)
        msg = self._read(int.from_bytes(head, "little")) if head else None
        if msg is None or msg[:1] == b"E":
            self.over = True
            if msg:
                self.acks, self.end = pickle.loads(msg[1:])
            os.waitpid(self.pid, 0)

    def go(self):
        self.ops += 1
        self.sock.sendall(b".")
        self._next()

    def kill(self):
        os.kill(self.pid, signal.SIGKILL)
        os.waitpid(self.pid, 0)
        self.over = self.killed = True

    def close(self):
        if not self.over:
            self.kill()
        self.sock.close()


def remove(d):
    shutil.rmtree(d, ignore_errors=True)
