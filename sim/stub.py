"""The simulated operating system as seen from inside a simulated process.

A simulated process is a real forked process whose system calls (sockets,
polling, time, threads, locks, process control, opening files for writing) are
forwarded to the kernel (kernel.py), which runs exactly one thread of one
process at a time and decides who runs next.  The code above this layer
(gym_anm, multiprocessing, threading, socketserver, http.server,
websocket-server, websocket-client, requests) is the real one.
"""
import _socket as _csocket
import _thread
import builtins
import errno
import gc
import io
import os
import pickle
import select as _select
import selectors
import signal
import socket as _socket
import sys
import threading
import time as _time

FD0 = 100000
REAL = dict(socket=_socket.socket, fork=os.fork, kill=os.kill, _exit=os._exit,
            waitpid=os.waitpid, start=_thread.start_new_thread, lock=_thread.allocate_lock, open=builtins.open,
            makedirs=os.makedirs, signal=signal.signal)


class P:
    """State of this simulated process."""
    sock = None          # channel to the kernel
    threads = {}         # tid -> T
    next_tid = 1
    now = 0.0
    calls = 0
    epoch = 1.6e9
    handlers = {}        # signal -> python handler
    closing = []         # file descriptors whose socket objects are gone
    preempt = False
    files = ()
    root = None          # scratch directory; writes below it may be made to fail


class T:
    def __init__(self, tid):
        self.tid, self.gate, self.inbox, self.budget, self.busy = tid, REAL["lock"](), None, 0, False
        self.gate.acquire()


_tls = _thread._local()


def me():
    return _tls.rec


def _recv():
    data = P.sock.recv(1 << 20)
    if not data:
        REAL["_exit"](86)   # the kernel is gone
    return pickle.loads(data)


def _await(rec):
    """Wait for this thread's turn; the thread that spoke last reads the channel for all."""
    while True:
        msg = _recv()
        if msg[0] == rec.tid:
            break
        other = P.threads[msg[0]]
        other.inbox = msg
        other.gate.release()
        rec.gate.acquire()
        msg, rec.inbox = rec.inbox, None
        break
    return msg


def _wake(rec, msg):
    _, result, P.now, rec.budget, sigs = msg
    P.calls = 0
    for s in sigs:
        h = P.handlers.get(s, signal.default_int_handler if s == signal.SIGINT else None)
        if callable(h):
            h(s, None)
    return result


def rpc(op, *args, fds=()):
    rec = me()
    rec.busy = True
    closing, P.closing = P.closing, []
    data = pickle.dumps((rec.tid, op, args, closing))
    if fds:
        _socket.send_fds(P.sock, [data], list(fds))
    else:
        P.sock.send(data)
    msg = _await(rec)
    rec.busy = False
    while msg[1] == "eintr":   # a signal handler has to run before the call is restarted
        _wake(rec, msg)
        return rpc(op, *args)
    kind, value = _wake(rec, msg)
    if kind == "ok":
        return value
    if kind == "timeout":
        raise TimeoutError("timed out")
    raise OSError(value, os.strerror(value))


# -- sockets --------------------------------------------------------------
_default_timeout = [None]


class SimSocket:
    def __init__(self, family=-1, type=-1, proto=-1, fileno=None):
        self.family = _socket.AF_INET if family == -1 else family
        self.type = _socket.SOCK_STREAM if type == -1 else type
        self.proto = 0 if proto == -1 else proto
        self._timeout = _default_timeout[0]
        self._io_refs, self._closed, self._fd = 0, False, -1
        self._fd = rpc("socket") if fileno is None else fileno

    # life cycle
    def fileno(self):
        return self._fd

    def detach(self):
        fd, self._fd, self._closed = self._fd, -1, True
        return fd

    def dup(self):
        s = SimSocket(self.family, self.type, self.proto, rpc("dup", self._fd))
        s._timeout = self._timeout
        return s

    def _decref_socketios(self):
        if self._io_refs > 0:
            self._io_refs -= 1
        if self._closed:
            self.close()

    def _real_close(self):
        fd, self._fd = self._fd, -1
        if fd >= 0:
            rpc("close", fd)

    def close(self):
        self._closed = True
        if self._io_refs <= 0:
            self._real_close()

    def __del__(self):
        if self._fd >= 0:
            P.closing.append(self._fd)
            self._fd = -1

    def __enter__(self):
        return self

    def __exit__(self, *a):
        if not self._closed:
            self.close()

    # options
    def settimeout(self, t):
        self._timeout = None if t is None else float(t)

    def gettimeout(self):
        return self._timeout

    timeout = property(gettimeout)

    def setblocking(self, flag):
        self._timeout = None if flag else 0.0

    def getblocking(self):
        return self._timeout != 0.0

    def setsockopt(self, level, opt, value, *a):
        if level == _socket.SOL_SOCKET and opt == _socket.SO_REUSEADDR:
            rpc("reuse", self._fd, bool(value))

    def getsockopt(self, level, opt, *a):
        return 0

    def set_inheritable(self, flag):
        pass

    def get_inheritable(self):
        return False

    # addresses
    @staticmethod
    def _addr(a):
        host, port = a[0], a[1]
        if not isinstance(port, int):
            raise TypeError("an integer is required")
        if host in ("localhost", ""):
            host = "127.0.0.1" if host else "0.0.0.0"
        if not host.replace(".", "").isdigit():
            raise _socket.gaierror(_socket.EAI_NONAME, "Name or service not known")
        return host, port

    def bind(self, a):
        rpc("bind", self._fd, *self._addr(a))

    def listen(self, backlog=128):
        rpc("listen", self._fd, int(backlog))

    def accept(self):
        fd, addr = rpc("accept", self._fd, self._timeout)
        return SimSocket(self.family, self.type, self.proto, fd), addr

    def connect(self, a):
        rpc("connect", self._fd, *self._addr(a), self._timeout)

    def connect_ex(self, a):
        try:
            self.connect(a)
        except TimeoutError:
            return errno.EAGAIN
        except OSError as e:
            return e.errno or errno.ECONNREFUSED
        return 0

    def getsockname(self):
        return rpc("getsockname", self._fd)

    def getpeername(self):
        return rpc("getpeername", self._fd)

    def shutdown(self, how):
        rpc("shutdown", self._fd, how)

    # data
    def recv(self, n, flags=0):
        return rpc("recv", self._fd, n, self._timeout, bool(flags & _socket.MSG_PEEK))

    def recv_into(self, buf, nbytes=0, flags=0):
        data = self.recv(nbytes or len(memoryview(buf).cast("B")), flags)
        memoryview(buf).cast("B")[: len(data)] = data
        return len(data)

    def send(self, data, flags=0):
        return rpc("send", self._fd, bytes(data), self._timeout)

    def sendall(self, data, flags=0):
        rpc("send", self._fd, bytes(data), self._timeout)

    def sendfile(self, file, offset=0, count=None):
        if offset:
            file.seek(offset)
        data = file.read() if count is None else file.read(count)
        self.sendall(data)
        return len(data)

    def makefile(self, mode="r", buffering=None, *, encoding=None, errors=None, newline=None):
        writing, reading = "w" in mode, "r" in mode or "w" not in mode
        raw = _socket.SocketIO(self, ("r" if reading else "") + ("w" if writing else ""))
        self._io_refs += 1
        if buffering is None:
            buffering = -1
        if buffering < 0:
            buffering = io.DEFAULT_BUFFER_SIZE
        if buffering == 0:
            return raw
        if reading and writing:
            buf = io.BufferedRWPair(raw, raw, buffering)
        elif reading:
            buf = io.BufferedReader(raw, buffering)
        else:
            buf = io.BufferedWriter(raw, buffering)
        if "b" in mode:
            return buf
        return io.TextIOWrapper(buf, encoding, errors, newline)


def getaddrinfo(host, port, family=0, type=0, proto=0, flags=0):
    host = SimSocket._addr((host or "127.0.0.1", 0))[0]
    return [(_socket.AF_INET, _socket.SOCK_STREAM, 6, "", (host, int(port or 0)))]


# -- polling ----------------------------------------------------------------
def _fd(x):
    return x if isinstance(x, int) else x.fileno()


def _poll(want, timeout):
    """want: [(fd, 1 read | 2 write)]; returns [(fd, mask)]."""
    for fd, _ in want:
        if fd < FD0:
            raise ValueError("not a simulated file descriptor: %d" % fd)
    return rpc("poll", want, timeout)


def sim_select(r, w, x, timeout=None):
    want = {}
    for lst, m in ((r, 1), (w, 2)):
        for o in lst:
            want[_fd(o)] = want.get(_fd(o), 0) | m
    got = dict(_poll(sorted(want.items()), timeout))
    return [o for o in r if got.get(_fd(o), 0) & 1], [o for o in w if got.get(_fd(o), 0) & 2], []


class SimPoll:
    def __init__(self):
        self.want = {}

    def register(self, fd, mask=5):
        self.want[_fd(fd)] = mask

    modify = register

    def unregister(self, fd):
        del self.want[_fd(fd)]

    def poll(self, timeout=None):
        t = None if timeout is None or timeout < 0 else timeout / 1000.0
        want = [(fd, (1 if m & _select.POLLIN else 0) | (2 if m & _select.POLLOUT else 0))
                for fd, m in sorted(self.want.items())]
        return [(fd, (_select.POLLIN if m & 1 else 0) | (_select.POLLOUT if m & 2 else 0)) for fd, m in _poll(want, t)]

    def close(self):
        pass


class SimSelector(selectors._BaseSelectorImpl):
    def select(self, timeout=None):
        want = [(k.fd, k.events) for k in self._fd_to_key.values()]
        if timeout is not None and timeout < 0:
            timeout = 0
        out = []
        for fd, m in _poll(sorted(want), timeout):
            k = self._fd_to_key.get(fd)
            if k is not None and m & k.events:
                out.append((k, m & k.events))
        return out


# -- time -----------------------------------------------------------------
def _tick():
    P.calls += 1
    if P.calls > 500:      # a loop that does nothing but look at the clock
        rpc("spin")
    return P.now + P.calls * 1e-8


def sim_time():
    return P.epoch + _tick()


def sim_monotonic():
    return 1000.0 + _tick()


def sim_time_ns():
    return int(sim_time() * 1e9)


def sim_monotonic_ns():
    return int(sim_monotonic() * 1e9)


def sim_sleep(t):
    if t < 0:
        raise ValueError("sleep length must be non-negative")
    rpc("sleep", float(t))


# -- threads ----------------------------------------------------------------
class SimLock:
    """Lock state lives in the process (so that fork copies it); waiting goes through the kernel."""

    def __init__(self):
        self._held, self._waiters = False, 0

    def acquire(self, blocking=True, timeout=-1):
        limit = None if timeout is None or timeout < 0 else P.now + timeout
        while self._held:
            if not blocking:
                return False
            self._waiters += 1
            try:
                got = rpc("lwait", id(self), None if limit is None else max(0.0, limit - P.now))
            finally:
                self._waiters -= 1
            if not got and self._held:
                return False
        self._held = True
        return True

    def release(self):
        if not self._held:
            raise RuntimeError("release unlocked lock")
        self._held = False
        if self._waiters:
            rpc("lwake", id(self))

    def locked(self):
        return self._held

    def _at_fork_reinit(self):
        self._held, self._waiters = False, 0

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class SimRLock:
    def __init__(self):
        self._lock, self._owner, self._count = SimLock(), None, 0

    def acquire(self, blocking=True, timeout=-1):
        i = _thread.get_ident()
        if self._owner == i:
            self._count += 1
            return True
        if self._lock.acquire(blocking, timeout):
            self._owner, self._count = i, 1
            return True
        return False

    def release(self):
        if self._owner != _thread.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            self._lock.release()

    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _release_save(self):
        s = self._count
        self._count, self._owner = 0, None
        self._lock.release()
        return s

    def _acquire_restore(self, s):
        self._lock.acquire()
        self._owner, self._count = _thread.get_ident(), s

    def _at_fork_reinit(self):
        self.__init__()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


def sim_start_thread(func, args, kwargs=None):
    tid = P.next_tid
    P.next_tid += 1
    rec = P.threads[tid] = T(tid)
    owner = getattr(func, "__self__", None)
    if isinstance(owner, threading.Thread):
        owner._sim_tid = tid

    def boot():
        rec.gate.acquire()          # until scheduled for the first time
        msg, rec.inbox = rec.inbox, None
        _tls.rec = rec
        try:
            _wake(rec, msg)
            if P.preempt:
                sys.settrace(_trace)
            func(*args, **(kwargs or {}))
        except SystemExit:
            pass
        finally:
            sys.settrace(None)
            if isinstance(owner, threading.Thread):
                owner._sim_done = True
            _bye(rec)
    ident = REAL["start"](boot, ())
    rpc("tstart", tid)
    return ident


def _bye(rec):
    """The thread ends: hand the processor back; read the channel until another thread of the process speaks."""
    closing, P.closing = P.closing, []
    P.sock.send(pickle.dumps((rec.tid, "texit", (), closing)))
    msg = _recv()
    other = P.threads[msg[0]]
    del P.threads[rec.tid]
    other.inbox = msg
    other.gate.release()


def sim_join(self, timeout=None):
    tid = getattr(self, "_sim_tid", None)
    if tid is None:
        return
    rpc("tjoin", tid, timeout)


def sim_is_alive(self):
    return self._started.is_set() and not getattr(self, "_sim_done", False) and not self._is_stopped


def sim_shutdown():
    for t in list(threading._active.values()):
        if not t.daemon and getattr(t, "_sim_tid", None) is not None:
            sim_join(t)


def _trace(frame, event, arg):
    if frame.f_code.co_filename.endswith(P.files):
        if event == "line":
            rec = me()
            if rec.budget > 0 and not rec.busy:
                rec.budget -= 1
                if rec.budget == 0:
                    rpc("yield", "%s:%d" % (os.path.basename(frame.f_code.co_filename), frame.f_lineno))
        return _trace
    return None


# -- processes ----------------------------------------------------------------
def sim_fork():
    a, b = (REAL["socket"](_socket.AF_UNIX, _socket.SOCK_SEQPACKET, 0, x.detach())
            for x in _csocket.socketpair(_socket.AF_UNIX, _socket.SOCK_SEQPACKET))
    try:
        rpc("fork", fds=[b.fileno()])
    except OSError:
        a.close(), b.close()
        raise
    b.close()
    rec = me()
    pid = REAL["fork"]()
    if pid == 0:
        P.sock.close()
        P.sock, P.threads, P.closing, P.next_tid = a, {0: rec}, [], 1
        rec.tid = 0
        _wake(rec, _await(rec))
        P.preempt = True
        sys.settrace(_trace)
        return 0
    a.close()
    rpc("forked", pid)
    return pid


def sim_kill(pid, sig):
    rpc("kill", pid, int(sig))


def sim__exit(code):
    try:
        rpc("exit", code)
    finally:
        REAL["_exit"](code)


def sim_waitpid(pid, options):
    r = rpc("waitpid", pid, 0.0 if options & os.WNOHANG else None)
    if r is None:
        return 0, 0
    return pid, (-r if r < 0 else r << 8)


def popen_poll(self, flag=os.WNOHANG):
    if self.returncode is None:
        self.returncode = rpc("waitpid", self.pid, 0.0 if flag == os.WNOHANG else None)
    return self.returncode


def popen_wait(self, timeout=None):
    if self.returncode is None:
        self.returncode = rpc("waitpid", self.pid, timeout)
    return self.returncode


def sim_signal(sig, handler):
    old = P.handlers.get(sig, signal.SIG_DFL)
    P.handlers[sig] = handler
    rpc("disposition", int(sig), "default" if handler is signal.SIG_DFL else
        "ignore" if handler is signal.SIG_IGN else "handler")
    return old


def sim_browser(url, *a, **k):
    return rpc("browser", str(url))


def sim_open(file, mode="r", *a, **k):
    if isinstance(file, str) and P.root and os.path.abspath(file).startswith(P.root) and set(mode) & set("wax+"):
        if rpc("openw", os.path.basename(file)):
            return TornFile(REAL["open"](file, mode, *a, **k))
    return REAL["open"](file, mode, *a, **k)


class TornFile:
    """A file on a disk that is full: it could be created, but nothing can be written."""

    def __init__(self, f):
        self._f = f

    def write(self, data):
        raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC))

    def __getattr__(self, name):
        return getattr(self._f, name)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self._f.close()


def sim_makedirs(*a, **k):
    rpc("openw", "makedirs")
    return REAL["makedirs"](*a, **k)


def mark(*payload):
    rpc("mark", payload)


# -- installation ---------------------------------------------------------------
def install(sock, root, files):
    """Turn the calling process into a simulated one (its only thread is thread 0)."""
    P.sock, P.root, P.files = sock, root, tuple(files)
    rec = P.threads[0] = T(0)
    _tls.rec = rec
    gc.disable()
    import http.client, http.server, socketserver, multiprocessing.popen_fork, multiprocessing.util, queue  # noqa: E401,F401
    import requests, urllib3, websocket, websocket_server, webbrowser  # noqa: E401,F401
    signal.signal(signal.SIGINT, signal.default_int_handler)
    swap = {_select.select: sim_select, _select.poll: SimPoll, _time.sleep: sim_sleep}
    for k in ("SelectSelector", "PollSelector", "EpollSelector", "DefaultSelector"):
        if hasattr(selectors, k):
            swap[getattr(selectors, k)] = SimSelector
    for name, new in (("time", sim_time), ("monotonic", sim_monotonic), ("perf_counter", sim_monotonic),
                      ("time_ns", sim_time_ns), ("monotonic_ns", sim_monotonic_ns), ("perf_counter_ns", sim_monotonic_ns)):
        from . import seams
        for old in (getattr(_time, name), seams.ORIGINAL[name]):
            swap[old] = new
    keep = ("multiprocessing", "asyncio", "subprocess", __name__, "sim.seams", "_thread", "concurrent")
    for mn, mod in list(sys.modules.items()):
        if mod is None or mn.startswith(keep):
            continue
        d = getattr(mod, "__dict__", None)
        if not d:
            continue
        for k, v in list(d.items()):
            try:
                new = swap.get(v)
            except TypeError:
                continue
            if new is not None:
                setattr(mod, k, new)
    names = [(_socket, ("socket", "getaddrinfo", "getfqdn", "gethostname", "setdefaulttimeout", "getdefaulttimeout")),
             (threading, ("Lock", "RLock")), (signal, ("signal",)), (webbrowser, ("open", "open_new", "open_new_tab")),
             (os, ("fork", "kill", "_exit", "waitpid", "makedirs"))]
    before = [(m, n, getattr(m, n)) for m, ns in names for n in ns]
    _socket.socket = SimSocket
    _socket.getaddrinfo = getaddrinfo
    _socket.getfqdn = lambda name="": name or "localhost"
    _socket.gethostname = lambda: "localhost"
    _socket.setdefaulttimeout = lambda t: _default_timeout.__setitem__(0, t)
    _socket.getdefaulttimeout = lambda: _default_timeout[0]
    threading.Lock = threading._allocate_lock = SimLock
    threading.RLock = threading._CRLock = SimRLock
    threading._start_new_thread = sim_start_thread
    threading.Thread.join, threading.Thread.is_alive = sim_join, sim_is_alive
    threading._shutdown = sim_shutdown
    os.fork, os.kill, os._exit, os.waitpid, os.makedirs = sim_fork, sim_kill, sim__exit, sim_waitpid, sim_makedirs
    pf = multiprocessing.popen_fork.Popen
    pf.poll, pf.wait = popen_poll, popen_wait
    signal.signal = sim_signal
    builtins.open = sim_open
    webbrowser.open = webbrowser.open_new = webbrowser.open_new_tab = sim_browser
    # names the library imported one by one ("from socket import socket")
    moved = {id(old): getattr(m, n) for m, n, old in before}
    for mn, mod in list(sys.modules.items()):
        if mod is not None and mn.startswith("gym_anm"):
            for k, v in list(vars(mod).items()):
                if id(v) in moved:
                    setattr(mod, k, moved[id(v)])
    for k in list(os.environ):
        if k.lower().endswith("_proxy"):
            del os.environ[k]
    os.environ["NO_PROXY"] = "*"
